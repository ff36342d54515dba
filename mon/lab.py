"""Reference screen model and the session that runs Slate, the emulator and the model together."""

from __future__ import annotations

import copy
import io
import os

import gen
from common import Violation
from vt import VT, decode_color, to_rgb

JUNK = ("?", frozenset({"italic", "strike"}), ("rgb", 1, 2, 3), ("rgb", 4, 5, 6), "")


class Model:
    """What a screen should hold. Cells: (char, styles, fg, bg, invisible bits or None).

    Invisible bits only widen the bracket around change counts.
    """

    def __init__(self, w, h, fill=" ", cursor=(0, 0)):
        self.cursor = tuple(cursor)
        self.offset = 0
        self.w, self.h = w, h
        self.cells = [[self.blank(fill)] * w for _ in range(h)]

    @staticmethod
    def blank(fill):
        return (fill, frozenset(), None, None, None)

    def clear(self, fill):
        self.cells = [[self.blank(fill)] * self.w for _ in range(self.h)]
        self.cursor = (0, 0)
        self.offset = 0

    def resize(self, w, h, fill, keep):
        old = self.cells
        self.cells = [[self.blank(fill)] * w for _ in range(h)]
        if keep:
            for y in range(min(h, self.h)):
                for x in range(min(w, self.w)):
                    self.cells[y][x] = old[y][x]
        self.w, self.h = w, h

    def place(self, pos, chars):
        """Writes [(char, styles, fg, bg, inv)]; returns ({(x, y): cell}, rows scrolled)."""

        x, y = self.cursor if pos is None else pos
        scrolled = 0
        over = y - self.offset - self.h + 1
        if over > 0 and 0 <= x < self.w:
            self.offset += over
            scrolled = over
            n = min(over, self.h)
            self.cells = self.cells[n:] + [[self.blank(" ")] * self.w for _ in range(n)]
        y -= self.offset
        covered = {}
        for cell in chars:
            if not (0 <= x < self.w and 0 <= y < self.h):
                break
            if cell[0] == "\n":
                y += 1
                continue
            covered[x, y] = cell
            self.cells[y][x] = cell
            x += 1
            if x == self.w:
                x, y = 0, y + 1
        self.cursor = (x, y + self.offset)
        return covered, scrolled

    def picture(self):
        return [[c[:4] for c in row] for row in self.cells]


class Session:
    """One Screen or Terminal, driven by operations, observed through the emulator.

    `color_of(spec, background)` gives the colour a terminal is expected to show.
    """

    def __init__(self, case, obs, junk=JUNK, model=True):
        import slate
        from slate import Screen, Terminal, ColorSpace

        self.case, self.obs = case, obs
        self.lists, self.asked = {}, 0
        self.w, self.h = case["w"], case["h"]
        self.origin = tuple(case.get("origin", (1, 1)))
        self.space = case.get("space", "true_color")
        self.kind = case.get("kind", "screen")
        slate.terminal.color_space = ColorSpace(self.space)
        fill = case.get("fill", " ")
        cursor = tuple(case.get("cursor", (0, 0)))
        if self.kind == "screen":
            if fill == " " and cursor == (0, 0):
                self.screen = Screen(self.w, self.h)
            else:
                self.screen = Screen(self.w, self.h, cursor=cursor, fillchar=fill)
            self.terminal = None
        else:
            fill, cursor = " ", (0, 0)
            os.environ["COLUMNS"], os.environ["LINES"] = str(self.w), str(self.h)
            self.stream = io.StringIO()
            self.terminal = Terminal(stream=self.stream, origin=self.origin)
            self.mark = 0
        self.target = self.screen if self.kind == "screen" else self.terminal
        self.margin = tuple(case.get("margin", (0, 0)))
        self.junk = junk
        self.vt = self.new_vt()
        self.model = Model(self.w, self.h, fill, cursor)
        self._colors = {}

    def new_vt(self):
        return VT(self.origin[0] - 1 + self.w + self.margin[0],
                  self.origin[1] - 1 + self.h + self.margin[1], fill=self.junk)

    # -- expectations ----------------------------------------------------------
    def shown(self, spec, background):
        if spec is None:
            return None
        if self.space == "true_color":
            return gen.spec_rgb(spec)
        key = (repr(spec), background)
        if key not in self._colors:
            layer, col, bad = decode_color(gen.build_color(spec, background).ansi)
            if bad or layer != ("bg" if background else "fg"):
                raise Violation(f"colour {spec} emits a bad code: {bad} {layer}")
            self._colors[key] = to_rgb(col)
        return self._colors[key]

    def cells_of(self, spans):
        out = []
        for s in spans:
            styled = bool(s["s"]) or bool(s.get("opaque"))
            fg, bg = self.shown(s["fg"], False), self.shown(s["bg"], True)
            st = frozenset(s["s"])
            n = len(s["t"])
            exact = (gen.spec_rgb(s["fg"]), gen.spec_rgb(s["bg"]))
            for i, ch in enumerate(s["t"]):
                last = styled and i == n - 1 and not s.get("noreset")
                out.append((ch, st, fg, bg, (last, bool(s.get("opaque")), exact)))
        return out

    # -- operations ------------------------------------------------------------
    def empty_below(self, op):
        """Whether something empty is written below the last row: out of the contract's scope,
        and only met when an operation is repeated after the screen shrank."""

        items = [op] if op["op"] == "w" else op["items"]
        if all(any(s["t"] for s in i["spans"]) for i in items):
            return False
        model = copy.deepcopy(self.model) if len(items) > 1 else self.model
        for i in items:
            chars = [c for s in i["spans"] for c in s["t"]]
            y = (model.cursor if i["pos"] is None else i["pos"])[1]
            if not chars and y - model.offset >= model.h:
                return True
            if len(items) > 1:
                pos = None if i["pos"] is None else tuple(i["pos"])
                model.place(pos, [(c,) for c in chars])
        return False

    def built(self, spans):
        """The spans; every other time the very list given before, if there was one alike."""

        key = repr(spans)
        self.asked += 1
        old = self.lists.get(key)
        if old is not None and self.asked % 2:
            if len(old) != len(spans):
                raise Violation("a write changed the list of spans it was given")
            self.obs.n("lists of spans given again")
            return old
        self.lists[key] = new = [gen.build_span(s) for s in spans]
        return new

    def data(self, spans, as_str=False, as_gen=False):
        built = self.built(spans)
        if as_str and not any(s.get("noreset") for s in spans):
            return "".join(str(s) for s in built)
        if as_gen:
            return (s for s in built)
        return built

    def apply(self, op):
        """Runs an operation on both; returns what happened."""

        kind = op["op"]
        self.obs.n("op:" + kind)
        model = self.model
        if kind in "wb" and self.empty_below(op):
            self.obs.n("skipped: empty writes below the last row")
            return {"kind": "skip", "count": 0, "covered": {}, "scrolled": 0, "force": False,
                    "before": model.cells}
        if kind == "w":
            before = [row[:] for row in model.cells]
            pos = None if op["pos"] is None else tuple(op["pos"])
            as_str = op.get("str") and self.terminal is not None
            count = self.target.write(
                self.data(op["spans"], as_str, op.get("gen")), cursor=pos,
                **({"force_overwrite": True} if op.get("force") else {}))
            covered, scrolled = model.place(pos, self.cells_of(op["spans"]))
            return {"kind": "w", "count": count, "covered": covered, "scrolled": scrolled,
                    "before": before, "force": bool(op.get("force"))}
        if kind == "b":
            before = [row[:] for row in model.cells]
            at = lambda i: None if i["pos"] is None else tuple(i["pos"])
            data = [(at(i), self.data(i["spans"], i.get("str") and self.terminal is not None,
                                     i.get("gen")))
                    for i in op["items"]]
            count = self.target.write_bulk(
                data, **({"force_overwrite": True} if op.get("force") else {}))
            covered, scrolled = {}, 0
            for i in op["items"]:
                cov, n = model.place(at(i), self.cells_of(i["spans"]))
                if n:
                    covered = {(x, y - n): c for (x, y), c in covered.items() if y >= n}
                covered.update(cov)
                scrolled += n
            return {"kind": "b", "count": count, "covered": covered, "scrolled": scrolled,
                    "before": before, "force": bool(op.get("force"))}
        if kind == "c":
            if op["fill"] == " ":
                self.target.clear()
            else:
                self.target.clear(op["fill"])
            model.clear(op["fill"])
            return {"kind": "c"}
        if kind == "cur":
            self.target.cursor = tuple(op["pos"])
            model.cursor = tuple(op["pos"])
            return {"kind": "cur"}
        if kind == "rs":
            return self.resize(op)
        if kind == "d":
            return self.draw(op.get("redraw", False))
        raise AssertionError(op)

    def resize(self, op):
        w, h = op["w"], op["h"]
        if self.terminal is None:
            if op["keep"] and op["fill"] == " ":
                self.screen.resize((w, h))
            else:
                self.screen.resize((w, h), op["fill"], op["keep"])
            self.model.resize(w, h, op["fill"], op["keep"])
        else:
            os.environ["COLUMNS"], os.environ["LINES"] = str(w), str(h)
            changed = (w, h) != (self.w, self.h)
            got = self.terminal.size
            if tuple(got) != (w, h):
                raise Violation(f"size is {got!r}, the terminal has {(w, h)}")
            if changed:
                self.model.resize(w, h, " ", True)
        changed = self.terminal is None or (w, h) != (self.w, self.h)
        self.w, self.h = w, h
        if changed:
            old = self.vt
            self.vt = self.new_vt()
            self.vt.anomalies = old.anomalies
        return {"kind": "rs", "changed": changed}

    def emit(self, redraw):
        if self.terminal is None:
            if redraw:
                return self.screen.render(origin=self.origin, redraw=True)
            return self.screen.render(origin=self.origin)
        self.terminal.draw(redraw=redraw) if redraw else self.terminal.draw()
        out = self.stream.getvalue()
        data, self.mark = out[self.mark:], len(out)
        return data

    def draw(self, redraw=False, vt=None):
        data = self.emit(redraw)
        vt = vt or self.vt
        vt.take_painted()
        vt.feed(data)
        vt.finish()
        return {"kind": "d", "painted": vt.take_painted(), "redraw": redraw, "data": data}

    # -- judgements ------------------------------------------------------------
    def region(self, vt=None):
        return (vt or self.vt).region(self.origin[0] - 1, self.origin[1] - 1, self.w, self.h)

    def check_clean(self, vt=None):
        vt = vt or self.vt
        if vt.anomalies:
            raise Violation(f"malformed output: {vt.anomalies[:3]}")
        if not vt.attrs.is_default or vt.link:
            raise Violation(
                f"attributes left set after a draw: {sorted(vt.attrs.styles)} {vt.attrs.fg}"
                f" {vt.attrs.bg} {vt.link!r}")

    def check_picture(self, what="shown", vt=None):
        got, want = self.region(vt), self.model.picture()
        self.obs.n("cells compared", self.w * self.h)
        compare(got, want, what)

    def check_inside(self, painted):
        ox, oy = self.origin[0] - 1, self.origin[1] - 1
        for (x, y) in painted:
            if not (ox <= x < ox + self.w and oy <= y < oy + self.h):
                raise Violation(f"painted outside the screen: column {x} row {y}")

    def local(self, painted):
        ox, oy = self.origin[0] - 1, self.origin[1] - 1
        return [(x - ox, y - oy) for x, y in painted]


def show(cell):
    ch, st, fg, bg = cell[:4]
    return f"({ch!r} {'+'.join(sorted(st)) or '-'} fg={fg} bg={bg})"


def compare(got, want, what):
    if got == want:
        return
    for y, (g, w) in enumerate(zip(got, want)):
        for x, (a, b) in enumerate(zip(g, w)):
            if a != b:
                raise Violation(f"{what}: cell {x},{y} is {show(a)}, should be {show(b)}")
    raise Violation(f"{what}: sizes differ")


def screen_case(rng, kind=None, spaces=True, **kw):
    """A case for Session, with an empty history."""

    w, h = gen.size(rng)
    kind = kind or rng.choice(["screen", "screen", "terminal"])
    case = {"kind": kind, "w": w, "h": h}
    if rng.random() < 0.3:
        case["origin"] = [rng.randint(1, 6), rng.randint(1, 4)]
        if rng.random() < 0.1:
            case["origin"] = [rng.randint(7, 60), rng.randint(7, 30)]
    if rng.random() < 0.3:
        case["margin"] = [rng.randint(0, 3), rng.randint(0, 3)]
    if kind == "screen" and rng.random() < 0.2:
        case["fill"] = rng.choice([".", "x", "m", "─"])
    if kind == "screen" and rng.random() < 0.1:
        case["cursor"] = [rng.randrange(w), rng.randrange(h)]
    if spaces and rng.random() < 0.2:
        case["space"] = rng.choice(["standard", "eight_bit", "no_color"])
    return case


def palette_for(rng, case, **kw):
    if case.get("space", "true_color") != "true_color":
        return gen.Palette(rng, kinds=("rgb",), **kw)
    return gen.Palette(rng, **kw)
