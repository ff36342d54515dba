"""C13: what colour descriptions denote, against the standards' tables."""

import gen
from common import Check, Violation
from reftables import CSS, PALETTE
from vt import decode_color, to_rgb


class C13(Check):
    id = "C13"
    quick, thorough = 400000, 8000000
    required = ("denotations judged", "codes decoded", "rejections", "with alpha", "backgrounds",
                "names", "indexed", "hex")
    rule = ("every CSS name, palette index and standard code on both layers with and without alpha,"
            " every out-of-range boundary, and random RGB/hex/ANSI descriptions; non-trivial: all")
    assumptions = ["true color for emitted codes", "VGA 16 colours + xterm 6x6x6 cube + 24 greys"]

    def setup(self):
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def enumerated(self, tier):
        out = []
        for name in sorted(CSS):
            out.append({"via": "color", "d": name, "rgb": CSS[name], "a": 1.0, "bg": False})
            for a in (0.25, 0.0, 1.0):
                out.append({"via": "color", "d": f"{name};{a}", "rgb": CSS[name], "a": a, "bg": False})
        for n in range(256):
            for bg in (False, True):
                lead = "48" if bg else "38"
                for via in ("color", "ansi"):
                    out.append({"via": via, "d": f"{lead};5;{n}", "rgb": PALETTE[n], "a": 1.0,
                                "bg": bg})
                    for a in (0.5, 0.0):
                        out.append({"via": via, "d": f"{lead};5;{n};{a}", "rgb": PALETTE[n], "a": a,
                                    "bg": bg})
        for n in range(16):
            for bg in (False, True):
                code = (30 + n if n < 8 else 82 + n) + 10 * bg
                for via in ("color", "ansi"):
                    out.append({"via": via, "d": str(code), "rgb": PALETTE[n], "a": 1.0, "bg": bg})
                    for a in (0.75, 0.0):
                        out.append({"via": via, "d": f"{code};{a}", "rgb": PALETTE[n], "a": a,
                                    "bg": bg})
        for bg in (False, True):
            out.append({"via": "black", "d": "black", "rgb": (0, 0, 0), "a": 1.0, "bg": bg})
            out.append({"via": "white", "d": "white", "rgb": (255, 255, 255), "a": 1.0, "bg": bg})
        for a in range(256):
            out.append({"via": "color", "d": f"#0a141e{a:02x}", "rgb": (10, 20, 30), "a": a / 255,
                        "bg": False})
        for v in (-1, 256, 300, -255, 1000):
            for k in range(3):
                t = [7, 7, 7]
                t[k] = v
                for via in ("ctor", "tuple"):
                    out.append({"via": via, "d": t, "bad": True})
                if v >= 0:
                    for lead in ("38", "48"):
                        for via in ("color", "ansi"):
                            out.append({"via": via, "d": f"{lead};2;{t[0]};{t[1]};{t[2]}",
                                        "bad": True})
            if v >= 0:
                for lead in ("38", "48"):
                    for via in ("color", "ansi"):
                        out.append({"via": via, "d": f"{lead};5;{v}", "bad": True})
        return out

    def generate(self, rng, tier, index):
        t = gen.rgb(rng)
        r = rng.random()
        alpha = rng.choice([1.0, 1.0, 0.5, 0.125, 0.0, round(rng.random(), 3)])
        bg = rng.random() < 0.5
        if r < 0.2:
            d = list(t) if alpha == 1.0 and rng.random() < 0.7 else [*t, alpha]
            return {"via": "tuple", "d": d, "rgb": t, "a": alpha, "bg": False}
        if r < 0.35:
            return {"via": "ctor", "d": t, "rgb": t, "a": alpha, "bg": bg}
        if r < 0.7:
            h = "%02x%02x%02x" % tuple(t)
            a = 1.0
            if rng.random() < 0.4:
                n = rng.randrange(256)
                h, a = h + "%02x" % n, n / 255
            h = rng.choice([h, h.upper()])
            via = "color"
            if rng.random() < 0.3 and len(h) == 6:
                via = "hex"
            return {"via": via, "d": "#" + h, "rgb": t, "a": a, "bg": False}
        d = f"{'48' if bg else '38'};2;{t[0]};{t[1]};{t[2]}"
        if alpha != 1.0:
            d += f";{alpha}"
        return {"via": rng.choice(["color", "ansi"]), "d": d, "rgb": t, "a": alpha, "bg": bg}

    def valid(self, case):
        return False  # shrinking would change what is denoted

    def make(self, case):
        from slate import Color, color

        via, d = case["via"], case["d"]
        if via == "color":
            return color(d)
        if via == "ansi":
            return Color.from_ansi(d)
        if via in ("black", "white"):
            return getattr(Color, via)(True) if case["bg"] else getattr(Color, via)()
        if via == "hex":
            return Color.from_hex(d)
        if via == "tuple":
            return color(tuple(d))
        if case.get("bad"):
            return Color(tuple(d))
        return Color(tuple(d), is_background=case["bg"], alpha=case["a"])

    def execute(self, case, obs):
        from slate import color

        if case.get("bad"):
            obs.n("rejections")
            try:
                c = self.make(case)
            except ValueError:
                return
            raise Violation(f"{case['d']!r} via {case['via']} is out of range but gave {c!r}")
        c = self.make(case)
        want = (tuple(case["rgb"]), case["bg"])
        got = (tuple(c.rgb), c.is_background)
        obs.n("denotations judged")
        obs.n("with alpha", case["a"] != 1.0)
        obs.n("backgrounds", case["bg"])
        d = case["d"]
        if isinstance(d, str):
            obs.n("names", d[0].isalpha())
            obs.n("indexed", ";5;" in d)
            obs.n("hex", d[0] == "#")
        if got != want or abs(c.alpha - case["a"]) > 1e-9:
            raise Violation(f"{d!r} via {case['via']} denotes {want} alpha {case['a']}, the colour is"
                            f" {got} alpha {c.alpha}")
        if isinstance(d, str) and d[0].isalpha() and case["via"] == "color":
            # asked again, otherwise and again: no answer depends on what was asked before
            base = d.split(";")[0]
            for text, alpha in ((base, 1.0), (f"{base};0.5", 0.5), (d, case["a"]), (base, 1.0)):
                again = color(text)
                if (tuple(again.rgb), again.is_background) != want or abs(again.alpha - alpha) > 1e-9:
                    raise Violation(f"{text!r} asked again denotes {again.rgb} alpha {again.alpha}")
        layer, shown, bad = decode_color(c.ansi)
        obs.n("codes decoded")
        if bad or layer != ("bg" if case["bg"] else "fg") or to_rgb(shown) != tuple(case["rgb"]):
            raise Violation(f"{d!r} emits {c.ansi!r}: {bad or (layer, to_rgb(shown))}, should show"
                            f" {want}")
        if tuple(bytes.fromhex(c.hex.lstrip("#"))) != tuple(case["rgb"]) or color(c.hex).rgb != tuple(
                c.rgb):
            raise Violation(f"{d!r} has hex {c.hex!r}, should denote {case['rgb']}")
        obs.state("colours", got)


CHECK = C13()
