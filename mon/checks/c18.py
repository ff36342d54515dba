"""C18: mouse reports, exhaustively, and everything that is not one."""

from common import Check, Violation
from ptylab import Pty, Watch
import gen

BASES = {0: "left_click", 2: "right_click", 32: "left_drag", 34: "right_drag", 35: "hover",
         64: "scroll_up", 65: "scroll_down", 66: "scroll_left", 67: "scroll_right"}


def reference(button, final):
    """The event name, None if it is not a supported event, or '?' where both are fine."""

    mods = button & 0b11100
    base = button & ~0b11100
    if base not in BASES:
        return None
    name = BASES[base]
    if final == "m":
        if name.endswith("click"):
            name = name.replace("click", "release")
        else:
            return "?"
    prefix = ("shift_" if mods & 4 else "") + ("ctrl_" if mods & 16 else "") + (
        "option_" if mods & 8 else "")
    return prefix + name


class C18(Check):
    id = "C18"
    quick, thorough = 500000, 10000000
    required = ("reports decoded", "releases", "unsupported buttons", "non-reports", "read as keys",
                "modified events")
    rule = ("every button code 0-255 with both terminators at several positions, random large"
            " coordinates, mutations of reports (deleted, inserted, replaced characters), key sequences,"
            " query replies and pasted text; decoded directly and, fed, through getch on a tty;"
            " non-trivial: all")
    assumptions = ["a release terminator on a drag, hover or scroll report is not judged",
                   "one report per read"]

    def setup(self):
        self.pty = Pty()
        self.pty.configure("raw")
        self.watch = Watch(self.pty)
        self.watch.__enter__()

    def enumerated(self, tier):
        out = []
        for b in range(256):
            for f in "Mm":
                for x, y in ((1, 1), (80, 24), (223, 300), (12345, 1)):
                    out.append({"b": b, "x": str(x), "y": str(y), "f": f, "getch": (b + x) % 7 == 0})
        for s in OTHERS:
            out.append({"s": s, "getch": False})
            if s:
                out.append({"s": s, "getch": True})
        return out

    def generate(self, rng, tier, index):
        r = rng.random()
        g = rng.random() < 0.3
        b = rng.choice([rng.randrange(96), rng.randrange(256), rng.randrange(2000)])
        x, y = (str(rng.choice([1, rng.randint(1, 300), rng.randint(1, 99999)])) for _ in "xy")
        f = rng.choice("Mm")
        if r < 0.35:
            return {"b": b, "x": x, "y": y, "f": f, "getch": g}
        report = f"\x1b[<{rng.choice([0, 2, 35, 64, b])};{x};{y}{f}"
        if r < 0.75:
            s = list(report)
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(s)) if s else 0
                what = rng.random()
                ch = rng.choice("0123456789;<[]mMHx -\x1b.:~?")
                if what < 0.4 and s:
                    del s[k]
                elif what < 0.7:
                    s.insert(k, ch)
                elif s:
                    s[k] = ch
            return {"s": "".join(s), "getch": g and bool(s)}
        if r < 0.85:
            return {"s": rng.choice(OTHERS) or "x", "getch": g}
        t = gen.text(rng, 1, 20) + rng.choice(["", ";1;2M", "0;1;1M", "<0;1;1M", "[<0;1;1M"])
        return {"s": t, "getch": g}

    def valid(self, case):
        return "s" not in case or bool(case["s"]) or not case["getch"]

    def execute(self, case, obs):
        from slate.core import parse_mouse_event

        if "b" in case:
            code = f"\x1b[<{case['b']};{case['x']};{case['y']}{case['f']}"
            name = reference(case["b"], case["f"])
            want = None if name is None else f"mouse:{name}@{case['x']};{case['y']}"
        else:
            code, name, want = case["s"], None, None
            m = self.is_report(code)
            if m:
                name = reference(int(m[0]), m[3])
                if str(int(m[0])) != m[0]:
                    name = "?"  # leading zeroes
                want = None if name is None else f"mouse:{name}@{m[1]};{m[2]}"
        got = parse_mouse_event(code)
        if name == "?":
            pass
        elif got != want:
            raise Violation(f"decode: {code!r} decodes to {got!r}, should be {want!r}")
        if want is None:
            obs.n("unsupported buttons" if "b" in case else "non-reports")
        elif name != "?":
            obs.n("reports decoded")
            obs.n("releases", "release" in name)
            obs.n("modified events", any(m in name for m in ("shift", "ctrl", "option")))
        if case["getch"]:
            self.through_getch(code, name, want, obs)
        obs.state("codes", code)

    def through_getch(self, code, name, want, obs):
        from slate import feed, getch

        if code.count("\x1b") > 1 or (code.find("\x1b") > 0):
            # a burst; only the absence of exceptions is judged
            name = "?"
        feed(code)
        self.watch.armed.set()
        try:
            key = getch(stream=self.pty.stream)
        finally:
            self.watch.armed.clear()
        obs.n("read as keys")
        values = [str(v) for v in key]
        mouse = [v for v in values if v.startswith("mouse:")]
        if name == "?" or code.startswith("mouse:"):
            return
        if want is None and mouse:
            raise Violation(f"key: {code!r} read as {values!r}")
        if want is not None and values != [want]:
            raise Violation(f"key: {code!r} read as {values!r}, should be {want!r}")

    @staticmethod
    def is_report(s):
        if not (s.startswith("\x1b[<") and s[-1:] in ("M", "m")):
            return None
        parts = s[3:-1].split(";")
        if len(parts) == 3 and all(p and all(c in "0123456789" for c in p) for p in parts):
            return (*parts, s[-1])
        return None


OTHERS = [
    "", "\x1b", "\x1b[", "\x1b[<", "\x1b[<0", "\x1b[<0;", "\x1b[<0;1", "\x1b[<0;1;", "\x1b[<0;1;1",
    "\x1b[<0;1;1;M", "\x1b[<0;1;1;1M", "\x1b[<;;M", "\x1b[<0;;1M", "\x1b[<-1;1;1M", "\x1b[<0;-1;1M",
    "\x1b[0;1;1M", "\x1b[M !!", "\x1b[<0;1;1MX", "X\x1b[<0;1;1M", "\x1b[A", "\x1b[1;5A", "\x1b[24~",
    "\x1bOP", "\x1b[4;600;800t", "\x1b]11;rgb:1e1e/1e1e/1e1e\x1b\\", "\x1b[?2026;2$y", "\x1b[24;80R",
    "a;b;c", "1;2;3", "0;1;1M", "<0;1;1M", "[<0;1;1M", "mouse:left_click@1;1", ";", ";;", "M", "m",
    "\x1b[<0;1;1M\n", "\x1b[<a;1;1M", "\x1b[<0;x;1M", "\x1b[<0;1;yM", "\x1b[<0 ;1;1M", "\x1b[<0;1;1 M",
    "\x1b[<0;1.5;1M", "\x1b[<³;1;1M", "\x1b[<0;٣;1M", "\x1b[200~a;b;c\x1b[201~", "\x1b[<99;1;1M",
    "\x1b[<1;1;1M", "\x1b[<3;1;1M", "\x1b[<33;1;1m", "\x1b[<128;1;1M", "\x1b[<0:1:1M", "select 1; drop m",
]

CHECK = C18()
