"""C08: derived spans keep everything but what was asked; per-character output prints the same."""

import random

import gen
from common import Check, Violation
from vt import VT

SPACES = ["true_color", "eight_bit", "standard", "no_color"]
FIELDS = gen.STYLES + ["opaque"]


def observe(span):
    """Everything public about a span, as plain data."""

    def col(c):
        return None if c is None else (tuple(c.rgb), c.alpha, c.is_background, c.ansi)

    return {"text": span.text, "fg": col(span.foreground), "bg": col(span.background),
            "link": span.hyperlink, "reset": span.reset_after,
            **{f: bool(getattr(span, f)) for f in FIELDS}}


def printed(data, junk=None):
    """[(char, styles, fg, bg, link)] of what a terminal shows, and the attributes left."""

    vt = VT(4 + len(data), 1)
    vt.feed(data)
    vt.finish()
    if vt.anomalies:
        raise Violation(f"printing {data!r}: {vt.anomalies}")
    return [vt.grid[0][x] for x in range(len(vt.painted))], (
        vt.attrs.styles, vt.attrs.fg, vt.attrs.bg, vt.link)


class C08(Check):
    id = "C08"
    quick, thorough = 150000, 2000000
    required = ("derived spans", "slices", "splits", "restyled", "recoloured", "iterated",
                "character lists", "characters printed", "screen writes between",
                "translucent recolourings", "colour spaces changed",
                "attributes compared")
    rule = ("random spans (all styles, colours, links, reset on/off, tricky texts); random chains of"
            " slice/index/iterate/split/as_*/mutate with screen writes and character queries between,"
            " each result compared attribute by attribute and, printed, cell by cell; non-trivial: a"
            " styled span")
    assumptions = ["true color", "single-line text when printing"]

    def setup(self):
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def enumerated(self, tier):
        # every single style x reset x every query mode, on 0..3 characters
        out = []
        for st in [[]] + [[s] for s in gen.STYLES] + [gen.STYLES]:
            for noreset in (False, True):
                for t in ("", "a", "ab", "m;H"):
                    for fg in (None, ["rgb", 1, 2, 3]):
                        out.append({"span": {"t": t, "s": st, "fg": fg, "bg": None,
                                             "noreset": noreset},
                                    "steps": [["chars"], ["slice", 0, 1, None], ["chars"]]})
        # equal spans made in one colour space after the other
        for i in range(40 if tier == "quick" else 400):
            rng = random.Random(i)
            span = gen.Palette(rng, newline=False, hi=5, kinds=("rgb",)).span()
            span["fg"] = span["fg"] or ["rgb", *gen.rgb(rng)]
            span["noreset"] = i % 3 == 0
            out.append({"span": span, "spaces": [rng.choice(SPACES) for _ in range(6)]})
        for i, n in enumerate((100, 257, 1000, 5000, 20000)):
            span = {"t": ("abc def;m" * n)[:n], "s": ["bold", "underline"], "fg": ["rgb", 1, 2, 3],
                    "bg": None if i % 2 else ["idx", 77], "noreset": bool(i % 2)}
            if i % 3 == 0:
                span["link"] = "http://l/" + "x" * n
            out.append({"span": span, "steps": [
                ["slice", 1, -1, None], ["split", None], ["style", "italic", True]]})
            out.append({"span": span, "steps": [["slice", n // 2, None, None], ["index", n // 3],
                                                ["write"], ["text", "q" * n]]})
            if n < 6000:
                out.append({"span": span, "steps": [["iter"], ["slice", None, None, 2]]})
        return out

    def generate(self, rng, tier, index):
        pal = gen.Palette(rng, newline=False, hi=rng.choice([1, 2, 6, 16]))
        span = pal.span()
        span["noreset"] = rng.random() < 0.35
        if rng.random() < 0.3:
            span["link"] = "https://x.y/?a=b"
        if rng.random() < 0.15:
            span["opaque"] = True
        if rng.random() < 0.03:
            span["t"] = ""
        if rng.random() < 0.15:
            span["fga"], span["ak"] = rng.choice([0.0, 0.5, 0.75]), rng.randrange(4)
        if rng.random() < 0.15:
            span["bga"], span["ak"] = rng.choice([0.0, 0.5, 0.75]), rng.randrange(4)
        steps = []
        n = len(span["t"])
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(["slice", "slice", "index", "iter", "split", "style", "style", "color",
                            "mutate", "link", "chars", "chars", "write", "text"])
            if k == "slice":
                pick = lambda: rng.choice([None, 0, 1, -1, rng.randint(-n - 2, n + 2)])
                steps.append([k, pick(), pick(), rng.choice([None, None, 1, 2, -1, -2, 3, -3])])
            elif k == "index":
                steps.append([k, rng.randint(-n, n - 1) if n else 0])
            elif k == "split":
                steps.append([k, rng.choice([None, " ", "a", "m", span["t"][:1] or "x",
                                             span["t"][1:3] or ";"])])
            elif k == "style":
                steps.append([k, rng.choice(gen.STYLES), rng.choice([True, True, False, None])])
            elif k == "color":
                steps.append([k, gen.colspec(rng), rng.random() < 0.5, rng.randrange(3)])
                if rng.random() < 0.3:
                    steps[-1].append(rng.choice([0.0, 0.25, 0.5, 1.0]))
            elif k == "mutate":
                steps.append([k, rng.choice(FIELDS + ["reset_after"]), rng.random() < 0.5])
            elif k == "link":
                steps.append([k, rng.choice(["", "http://l"])])
            elif k == "text":
                steps.append([k, gen.text(rng, 0, 5)])
            else:
                steps.append([k])
        return {"span": span, "steps": steps}

    def nontrivial(self, case):
        return bool(case["span"]["s"] or case["span"]["fg"] or case["span"]["bg"])

    def execute(self, case, obs):
        from slate import Screen, color

        if "spaces" in case:
            self.spaces(case, obs)
            return
        span = gen.build_span(case["span"])
        want = observe(span)
        spec = case["span"]
        for f in FIELDS:
            if want[f] != (f in spec["s"] or (f == "opaque" and bool(spec.get("opaque")))):
                raise Violation(f"a new span has {f}={want[f]}")
        if want["text"] != spec["t"]:
            raise Violation("a new span has another text")
        history = [(span, want)]
        self.chars(span, want, obs)
        for step in case["steps"]:
            kind, args = step[0], step[1:]
            cur, exp = history[-1]
            text = exp["text"]
            if kind == "slice":
                sl = slice(*args)
                new, e = cur[sl], {**exp, "text": text[sl]}
                obs.n("slices")
            elif kind == "index":
                if not -len(text) <= args[0] < len(text):
                    continue
                new, e = cur[args[0]], {**exp, "text": text[args[0]]}
                obs.n("slices")
            elif kind == "iter":
                parts = list(cur)
                obs.n("iterated")
                self.pieces(parts, list(text), exp, obs)
                continue
            elif kind == "split":
                sep = args[0]
                if sep == "":
                    continue
                parts = cur.split() if sep is None else cur.split(sep)
                obs.n("splits")
                self.pieces(parts, text.split(" " if sep is None else sep), exp, obs)
                if parts:
                    history.append((parts[0], observe(parts[0])))
                continue
            elif kind == "style":
                method = getattr(cur, "as_" + args[0])
                new = method() if args[1] is None else method(args[1])
                e = {**exp, args[0]: True if args[1] is None else args[1]}
                obs.n("restyled")
            elif kind == "color":
                c = gen.build_color(args[0], args[1])
                if len(args) > 3:
                    c = gen.with_alpha(c, args[3], args[2])
                    obs.n("translucent recolourings")
                value = c
                if len(args) > 3:
                    pass
                elif not args[1] and args[2] == 1:
                    value, c = tuple(c.rgb), color(tuple(c.rgb))
                elif not args[1] and args[2] == 2:
                    value, c = c.hex, color(c.hex)
                new = cur.as_color(value)
                e = {**exp, ("bg" if args[1] else "fg"): (tuple(c.rgb), c.alpha, c.is_background,
                                                         c.ansi)}
                obs.n("recoloured")
            elif kind == "mutate":
                new = cur.mutate(**{args[0]: args[1]})
                e = {**exp, ("reset" if args[0] == "reset_after" else args[0]): args[1]}
                obs.n("restyled")
            elif kind == "link":
                new, e = cur.as_hyperlink(args[0]), {**exp, "link": args[0]}
            elif kind == "text":
                new, e = cur.mutate(text=args[0]), {**exp, "text": args[0]}
            elif kind == "write":
                screen = Screen(max(1, len(text) // 2), 2)
                screen.write([cur], cursor=(0, 0))
                screen.render(origin=(1, 1))
                obs.n("screen writes between")
                self.stable(history)
                continue
            elif kind == "chars":
                self.chars(cur, exp, obs)
                continue
            obs.n("derived spans")
            self.container(new, e, obs)
            got = observe(new)
            if got != e:
                diff = {k: (got[k], e[k]) for k in e if got[k] != e[k]}
                raise Violation(f"{kind} {args}: (got, wanted) {diff}")
            history.append((new, e))
        for s, e in history:
            self.chars(s, e, obs)
        self.stable(history)
        obs.state("spans", sorted((k, repr(v)) for k, v in history[-1][1].items()))

    def spaces(self, case, obs):
        """The same span made anew in each space: characters print what it prints."""

        import slate
        made = []
        try:
            for name in case["spaces"]:
                slate.terminal.color_space = slate.ColorSpace(name)
                span = gen.build_span(case["span"])
                made.append(span)
                shown, left = printed(str(span))
                for always in (False, True):
                    chars = span.get_characters(always_include_sequence=always)
                    got, end = printed("".join(chars))
                    obs.n("characters printed", len(got))
                    obs.n("colour spaces changed")
                    if [c[:4] for c in got] != [c[:4] for c in shown] or end[:3] != left[:3]:
                        raise Violation(f"in {name}, the characters print {got}, the span {shown}")
        finally:
            slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def container(self, span, exp, obs):
        """Length, containment and the attributes handed out."""

        text = exp["text"]
        if len(span) != len(text):
            raise Violation(f"the length of a span of {text!r} is {len(span)}")
        for part in ("", text, text[1:], text[:1], text[1:3], text + "x", "zq", text[::-1]):
            if (part in span) is not (part in text):
                raise Violation(f"{part!r} in a span of {text!r} is {part in span}")
        longer = text[:1] + "\n" + text[1:] + "\n"
        if len(span.mutate(text=longer)) != len(longer):
            raise Violation(f"the length of a span of {longer!r} is {len(span.mutate(text=longer))}")
        attrs = span.attrs
        if attrs["text"] != text or attrs["hyperlink"] != exp["link"] or any(
                bool(attrs[f]) is not exp[f] for f in FIELDS) or attrs[
                "foreground"] != span.foreground or attrs["background"] != span.background:
            raise Violation(f"the attributes of {exp} are {attrs}")
        # what the caller does with the answer is the caller's business
        attrs["text"], attrs["bold"], attrs["foreground"] = "junk", not attrs["bold"], None
        obs.n("attributes compared")

    def pieces(self, parts, texts, exp, obs):
        if [p.text for p in parts] != texts:
            raise Violation(f"pieces {[p.text for p in parts]!r}, should be {texts!r}")
        for p in parts:
            obs.n("derived spans")
            got, e = observe(p), {**exp, "text": p.text}
            if got != e:
                diff = {k: (got[k], e[k]) for k in e if got[k] != e[k]}
                raise Violation(f"a piece changed attributes (got, wanted): {diff}")

    def stable(self, history):
        for s, e in history:
            if observe(s) != e:
                raise Violation(f"an existing span changed: {observe(s)} was {e}")

    def chars(self, span, exp, obs):
        """Printing the characters shows what printing the span shows."""

        shown, left = printed(str(span))
        styles = frozenset(s for s in gen.STYLES if exp[s])
        colors = tuple(("rgb",) + c[0] if c else None for c in (exp["fg"], exp["bg"]))
        from vt import to_rgb
        want = [(ch, styles, exp["fg"] and exp["fg"][0], exp["bg"] and exp["bg"][0], exp["link"])
                for ch in exp["text"]]
        got = [(c, s, to_rgb(f), to_rgb(b), link) for c, s, f, b, link in shown]
        if got != want:
            raise Violation(f"printing the span shows {got}, should show {want}")
        if exp["text"] and exp["reset"] and (left[0] or left[1] or left[2]):
            raise Violation(f"a resetting span leaves attributes {left}")
        if left[3]:
            raise Violation("printing leaves the hyperlink open")
        if exp["text"] and not exp["reset"]:
            if (left[0], to_rgb(left[1]), to_rgb(left[2])) != want[-1][1:4]:
                raise Violation(f"a non-resetting span leaves {left}")
        for nocolor in (False, True):
            for always in (False, True):
                ask = lambda: span.get_characters(  # pylint: disable=cell-var-from-loop
                    exclude_color=nocolor, always_include_sequence=always)
                answer = ask()
                chars = list(answer)
                if isinstance(answer, list):
                    # what the caller does with the answer is the caller's business
                    answer.append("junk")
                    answer.reverse()
                    obs.n("answers modified by the caller")
                    if list(ask()) != chars:
                        raise Violation("modifying the character list changes later answers")
                obs.n("character lists")
                if len(chars) != len(exp["text"]):
                    raise Violation(f"{len(chars)} items for {len(exp['text'])} characters")
                ref = [(c, s, None if nocolor else f, None if nocolor else b, "")
                       for c, s, f, b, _ in want]
                got, end = printed("".join(chars))
                got = [(c, s, to_rgb(f), to_rgb(b), link) for c, s, f, b, link in got]
                obs.n("characters printed", len(got))
                mode = f"exclude_color={nocolor} always={always}"
                if got != ref:
                    raise Violation(f"characters ({mode}) print {got}, should print {ref}")
                if chars and exp["reset"] and (end[0] or end[1] or end[2]):
                    raise Violation(f"characters ({mode}) of a resetting span leave {end}")
                if chars and not exp["reset"] and (
                        end[0], to_rgb(end[1]), to_rgb(end[2])) != ref[-1][1:4]:
                    raise Violation(f"characters ({mode}) of a non-resetting span leave {end}")
                for i, item in enumerate(chars):
                    if always or i == 0:
                        alone, _ = printed(item)
                        alone = [(c, s, to_rgb(f), to_rgb(b), link) for c, s, f, b, link in alone]
                        if alone != [ref[i]]:
                            raise Violation(f"character {i} ({mode}) alone prints {alone}, should"
                                            f" print {ref[i]}")
                    elif "\x1b" in item.replace("\x1b[0m", "", 1):
                        raise Violation(f"character {i} ({mode}) repeats the sequence: {item!r}")


CHECK = C08()
