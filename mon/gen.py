"""Generators of texts, colours, spans and histories (JSON data), and their builders."""

from __future__ import annotations

import random

from reftables import CSS, PALETTE

STYLES = ["bold", "dim", "italic", "underline", "blink", "fast_blink", "invert", "conceal",
          "strike"]

PLAIN = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789"
TRICKY = "mmHH[];\\<>&'\"%{}#01?:/|_^~`$@!*()+,-.="
UNICODE = "éüßñøλжש─│┌█▀▄░▒€£°·×"
ALPHABETS = [PLAIN, PLAIN + "   ", "]]>&<", PLAIN + TRICKY, TRICKY, UNICODE + PLAIN, "ab ", "x", "m1;[H "]


def text(rng: random.Random, lo=1, hi=12, newline=False):
    n = rng.randint(lo, hi)
    alpha = rng.choice(ALPHABETS)
    out = "".join(rng.choice(alpha) for _ in range(n))
    if newline and out and rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(len(out) + 1)
            out = out[:k] + "\n" + out[k:]
    return out


def rgb(rng):
    mode = rng.random()
    if mode < 0.25:
        return [rng.choice((0, 1, 127, 128, 254, 255)) for _ in range(3)]
    if mode < 0.4:
        v = rng.randrange(256)
        return [v, v, v]
    if mode < 0.5:
        return list(rng.choice(PALETTE))
    return [rng.randrange(256) for _ in range(3)]


def colspec(rng, kinds=("rgb", "std", "idx", "hex", "name", "ansirgb")):
    """A colour description, without its layer."""

    kind = rng.choice(kinds)
    if kind == "std":
        return ["std", rng.randrange(16)]
    if kind == "idx":
        return ["idx", rng.randrange(256)]
    if kind == "name":
        return ["name", rng.choice(sorted(CSS))]
    return [kind, *rgb(rng)]


def spec_rgb(spec):
    """The (r, g, b) a colour description denotes."""

    if spec is None:
        return None
    kind = spec[0]
    if kind in ("std", "idx", "bare"):
        return PALETTE[spec[1]]
    if kind == "name":
        return CSS[spec[1]]
    return tuple(spec[1:4])


def build_color(spec, background):
    """The slate.Color of a description, on a layer."""

    from slate import Color, color

    if spec is None:
        return None
    kind = spec[0]
    if kind == "std":
        n = spec[1]
        base = (30 + n if n < 8 else 82 + n) + (10 if background else 0)
        return Color.from_ansi(str(base))
    if kind == "bare":  # an index by itself, foreground
        return Color.from_ansi(str(spec[1]))
    if kind == "idx":
        return Color.from_ansi(f"{48 if background else 38};5;{spec[1]}")
    if kind == "ansirgb":
        return Color.from_ansi(f"{48 if background else 38};2;{spec[1]};{spec[2]};{spec[3]}")
    if kind == "hex":
        out = color("#%02X%02X%02X" % tuple(spec[1:4]))
    elif kind == "name":
        out = color(spec[1])
    else:
        out = Color(tuple(spec[1:4]), is_background=background)
    return out.as_background(background)


def styles(rng):
    r = rng.random()
    if r < 0.35:
        return []
    if r < 0.7:
        return [rng.choice(STYLES)]
    return sorted(rng.sample(STYLES, rng.randint(2, 4)), key=STYLES.index)


class Palette:
    """Few texts, styles and colours per case, so that contents collide."""

    def __init__(self, rng, newline=True, kinds=("rgb", "std", "idx", "hex", "name", "ansirgb"),
                 hi=12, noreset=True, links=True, opaque=True):
        self.rng = rng
        self.texts = [text(rng, 1, rng.choice((1, 3, hi)), newline) for _ in range(rng.randint(1, 4))]
        self.styles = [styles(rng) for _ in range(rng.randint(1, 3))]
        self.colors = [None] + [colspec(rng, kinds) for _ in range(rng.randint(0, 3))]
        self.noreset, self.links, self.opaque = noreset, links, opaque
        self.newline, self.hi = newline, hi

    def span(self):
        rng = self.rng
        t = rng.choice(self.texts) if rng.random() < 0.7 else text(rng, 1, self.hi, self.newline)
        out = {"t": t, "s": rng.choice(self.styles), "fg": rng.choice(self.colors),
               "bg": rng.choice(self.colors)}
        if self.noreset and rng.random() < 0.1:
            out["noreset"] = True
        if self.links and rng.random() < 0.06:
            out["link"] = rng.choice(["https://a.b/c?d=1&e=2", "file:///tmp/x;y"])
        if self.opaque and rng.random() < 0.06:
            out["opaque"] = True
        return out

    def spans(self, hi=3):
        return [self.span() for _ in range(self.rng.randint(1, hi))]


def with_alpha(col, alpha, kind):
    """The same colour with an alpha, made in one of several ways."""

    from slate import Color, color

    if kind == 1:
        return color((*col.rgb, alpha)).as_background(col.is_background)
    if kind == 2:
        return Color(col.rgb, is_background=col.is_background, alpha=alpha)
    if kind == 3 and "." in repr(alpha):
        return Color.from_ansi(
            f"{48 if col.is_background else 38};2;{';'.join(map(str, col.rgb))};{alpha!r}")
    return col.as_alpha(alpha)


def build_span(spec):
    from slate import Span

    kwargs = {s: True for s in spec["s"]}
    if spec.get("noreset"):
        kwargs["reset_after"] = False
    if spec.get("link"):
        kwargs["hyperlink"] = spec["link"]
    if spec.get("opaque"):
        kwargs["opaque"] = True
    fg, bg = build_color(spec["fg"], False), build_color(spec["bg"], True)
    if spec.get("fga") is not None and fg is not None:
        fg = with_alpha(fg, spec["fga"], spec.get("ak", 0))
    if spec.get("bga") is not None and bg is not None:
        bg = with_alpha(bg, spec["bga"], spec.get("ak", 0))
    return Span(spec["t"], foreground=fg, background=bg, **kwargs)


def size(rng):
    r = rng.random()
    if r < 0.08:
        return [1, rng.randint(1, 4)]
    if r < 0.85:
        return [rng.randint(1, 12), rng.randint(1, 6)]
    if r < 0.95:
        return [rng.randint(9, 30), rng.randint(8, 14)]
    return rng.choice([[80, 24], [120, 40], [101, 12]])


def huge(rng):
    """A history that fills a large screen with many colours: half a megabyte per draw."""

    w, h = rng.randint(200, 300), rng.randint(60, 90)
    col = lambda: ["rgb", rng.randint(100, 255), rng.randint(100, 255), rng.randint(100, 255)]
    ops = []
    for y in range(h):
        spans, left = [], w
        while left > 0:
            t = "".join(rng.choice(PLAIN) for _ in range(min(left, rng.randint(1, 12))))
            spans.append({"t": t, "s": styles(rng), "fg": col(), "bg": col()})
            left -= len(t)
        ops.append({"op": "w", "pos": [0, y], "spans": spans})
    ops.append({"op": "d", "redraw": False})
    ops.append({"op": "w", "pos": [w - 5, h - 3], "spans": [{"t": "the very end", "s": [], "fg": None,
                                                           "bg": None}]})
    ops.append({"op": "d", "redraw": rng.random() < 0.5})
    return {"kind": rng.choice(["screen", "terminal"]), "w": w, "h": h, "ops": ops}


def large(count, seed, **kw):
    """Cases out of the ordinary in one dimension: very wide or tall screens, texts of thousands of
    characters, hundreds of operations, hundreds of items in a bulk write."""

    out = []
    for i in range(count):
        rng = random.Random(seed * 1000 + i)
        kind = ("wide", "tall", "area", "long", "items")[i % 5]
        pal = Palette(rng, hi=12, **kw)
        case = {"kind": rng.choice(["screen", "screen", "terminal"]), "w": rng.randint(2, 9),
                "h": rng.randint(2, 5)}
        if kind == "wide":
            case["w"], case["h"] = rng.randint(1000, 1300), rng.randint(1, 3)
        elif kind == "tall":
            case["w"], case["h"] = rng.randint(1, 3), rng.randint(1000, 1300)
        elif kind == "area":
            case["w"], case["h"] = rng.randint(120, 140), rng.randint(88, 99)
        w, h = case["w"], case["h"]
        if kind == "long":
            case["ops"] = history(rng, w, h, pal, 400, strings=case["kind"] == "terminal")
        elif kind == "items":
            case["ops"] = [{"op": "b", "force": False, "items": [
                {"pos": position(rng, w, h, below=0.0), "spans": pal.spans(1)} for _ in range(n)]}
                for n in (70, rng.randint(200, 400))]
            case["ops"].insert(1, {"op": "d", "redraw": False})
            case["ops"].append({"op": "d", "redraw": False})
        else:
            n = w * h - rng.randint(0, 40)
            whole = {"t": text(rng, n, n, False), "s": rng.choice(pal.styles),
                     "fg": rng.choice(pal.colors), "bg": rng.choice(pal.colors)}
            case["ops"] = [{"op": "w", "pos": [0, 0], "spans": [whole]}, {"op": "d", "redraw": False},
                           *history(rng, w, h, pal, 8, clear=0.0, redraw=0.3)]
            for x, y in ((w - 1, 0), (0, h - 1), (w - 1, h - 1)):
                case["ops"].insert(-1, {"op": "w", "pos": [x, y], "spans": pal.spans(1)})
        out.append(case)
    return out


def position(rng, w, h, outside=0.08, below=0.05):
    r = rng.random()
    if r < outside:
        return rng.choice([[-1, rng.randrange(h)], [w, rng.randrange(h)], [rng.randrange(w), -1],
                           [w + 3, h + 3], [-2, -2]])
    if r < outside + below:
        return [rng.randrange(w), h + rng.choice((0, 0, 0, 1, 2, h, 0, 1, 2, 7 * h + 3, 1000))]
    x = rng.choice([0, w - 1, rng.randrange(w), rng.randrange(w)])
    y = rng.choice([0, h - 1, rng.randrange(h), rng.randrange(h)])
    return [x, y]


def history(rng, w, h, pal, n_ops, force=0.06, bulk=0.15, clear=0.06, draw=0.3, cur=0.04,
            resize=0.0, redraw=0.12, nopos=0.2, strings=False, outside=0.08, below=0.05,
            lengths=True):
    """A list of operations (see lab.Session.apply)."""

    ops = []
    last = None
    for _ in range(n_ops):
        r = rng.random()
        if r < draw:
            ops.append({"op": "d", "redraw": rng.random() < redraw})
            continue
        r -= draw
        if r < clear:
            ops.append({"op": "c", "fill": rng.choice([" ", " ", ".", "#", "m", "█", "é"])})
            continue
        r -= clear
        if r < cur:
            ops.append({"op": "cur", "pos": position(rng, w, h, 0.05, 0.03)})
            continue
        r -= cur
        if r < resize:
            w, h = size(rng) if rng.random() < 0.5 else [
                max(1, w + rng.randint(-2, 2)), max(1, h + rng.randint(-2, 2))]
            ops.append({"op": "rs", "w": w, "h": h, "fill": rng.choice([" ", " ", "-", "░"]),
                        "keep": rng.random() < 0.8})
            continue
        r -= resize
        if r < bulk:
            ops.append({"op": "b", "force": rng.random() < force, "items": [
                {"pos": None if rng.random() < (0.2 if k else 0.05) else
                 position(rng, w, h, outside, below), "spans": pal.spans(2),
                 "str": strings and rng.random() < 0.4}
                for k in range(rng.randint(1, 5))]})
            continue
        if last is not None and rng.random() < 0.12:
            op = dict(last)  # the same write again
            if rng.random() < 0.5:
                op["pos"] = position(rng, w, h, outside, below)
        else:
            op = {"op": "w", "force": rng.random() < force, "spans": pal.spans(),
                  "pos": None if rng.random() < nopos else position(rng, w, h, outside, below),
                  "str": strings and rng.random() < 0.4,
                  "gen": rng.random() < 0.3}
            if last is not None and rng.random() < 0.2:
                # same text somewhere else / same place in another rendition
                op["spans"] = [dict(s, fg=rng.choice(pal.colors), s=rng.choice(pal.styles))
                               for s in last["spans"]]
                op["pos"] = last["pos"]
            if rng.random() < 0.04:
                # an empty part, or an empty text
                op["spans"] = [dict(pal.span(), t=""), *op["spans"]]
                if rng.random() < 0.5:
                    op["spans"].reverse()
                elif rng.random() < 0.3:
                    op["spans"] = op["spans"][:1]
                    op["pos"] = [rng.randrange(w), rng.randrange(h)]
        last = op
        ops.append(op)
    ops.append({"op": "d", "redraw": False})
    return ops
