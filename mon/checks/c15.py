"""C15: colour arithmetic against a reference."""

import colorsys

import gen
from common import Check, Violation


def ref_shift(rgb, amount):
    h, l, s = colorsys.rgb_to_hls(*(v / 255 for v in rgb))
    return tuple(255 * v for v in colorsys.hls_to_rgb((h + amount) % 1, l, s))


class C15(Check):
    id = "C15"
    quick, thorough = 1000000, 10000000
    required = ("blends", "end points", "beyond range", "lightened", "darkened", "hue shifts",
                "complements", "grey complements", "groups", "alpha and layer changes", "backgrounds",
                "complement blends")
    rule = ("random and extreme colours on both layers, fractions inside, at the ends of and beyond"
            " 0-1, shade counts/steps and hue amounts; every greys' complement; non-trivial: all")
    assumptions = ["a channel may be off by rounding: one step for blends, three for hue shifts"]

    def setup(self):
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def enumerated(self, tier):
        out = [{"a": [v, v, v], "bg": bg, "do": ["complement"]} for v in range(256)
               for bg in (False, True)]
        ends = (0, 1, 127, 255)
        for x in ends:
            for y in ends:
                for f in (0, 0.0, 1, 1.0, 0.5, 0.1, 0.999, -1, -0.01, 1.01, 2, 50):
                    out.append({"a": [x, y, 9], "bg": x > y, "b": [y, x, 200], "bbg": x == 0,
                                "do": ["blend", f, None]})
        return out

    def generate(self, rng, tier, index):
        k = rng.choice(["blend", "blend", "blend", "lighten", "darken", "hue", "hue", "complement",
                        "triadic", "tetradic", "analogous", "alpha", "layer", "blendcomp",
                        "contrast"])
        f = rng.choice([0, 1, 0.5, rng.random(), rng.random(), rng.uniform(-1, 2)])
        case = {"a": gen.rgb(rng), "bg": rng.random() < 0.5, "aa": rng.choice([None, None, 0.5])}
        if rng.random() < 0.15:
            case["spec"] = gen.colspec(rng)
        if k == "blend":
            case["b"], case["bbg"] = gen.rgb(rng), rng.random() < 0.5
            case["do"] = [k, f, rng.choice([None, None, True, False])]
        elif k in ("lighten", "darken"):
            case["do"] = [k, rng.randint(0, 12), rng.choice([None, 0.1, 0.05, 0.25, rng.random()])]
        elif k == "hue":
            case["do"] = [k, rng.choice([0, 0.5, 1 / 3, 1, -0.25, rng.uniform(-2, 2)])]
        elif k == "alpha":
            case["do"] = [k, rng.choice([0.0, 1.0, rng.random(), rng.random()])]
        elif k == "layer":
            case["do"] = [k, rng.random() < 0.5]
            if rng.random() < 0.3:
                case["do"] = [k, rng.random() < 0.5, rng.choice([0, 0.0, 1.0, 0.5, rng.random()])]
        elif k == "blendcomp":
            case["do"] = [k, rng.random()]
        else:
            case["do"] = [k]
        return case

    def valid(self, case):
        return len(case["a"]) == 3 and len(case.get("b", [0, 0, 0])) == 3

    def check_valid(self, c, bg, what):
        from slate import Color
        if not isinstance(c, Color):
            raise Violation(f"{what} gave {c!r}")
        if len(c.rgb) != 3 or any(type(v) is not int or not 0 <= v <= 255 for v in c.rgb):
            raise Violation(f"{what} gave channels {c.rgb}")
        if c.is_background != bg:
            raise Violation(f"layer: {what} moved the colour to background={c.is_background}")

    def blended(self, a, b, f, got, what):
        for k in range(3):
            want = min(255, max(0, a[k] + (b[k] - a[k]) * f))
            if abs(got[k] - want) >= 1.0 + 1e-6:
                raise Violation(f"{what}: channel {k} of {a} to {b} by {f} is {got[k]}, should be"
                                f" {want:.2f}")
            if (got[k] - a[k]) * (b[k] - a[k]) * (1 if f >= 0 else -1) < 0:
                raise Violation(f"{what}: channel {k} of {a} to {b} by {f} moved to {got[k]}")

    def shifted(self, a, amount, got, what):
        want = ref_shift(a, amount)
        if any(abs(g - w) > 3.0 for g, w in zip(got, want)):
            raise Violation(f"{what}: {a} turned by {amount} is {tuple(got)}, should be"
                            f" {tuple(round(w, 1) for w in want)}")

    def complement(self, a, got, what):
        if len(set(a)) == 1:
            if tuple(got) not in ((0, 0, 0), (255, 255, 255)):
                raise Violation(f"{what} of the grey {a} is {tuple(got)}")
            if tuple(got) == tuple(a):
                raise Violation(f"{what} of {a} is itself")
        else:
            self.shifted(a, 0.5, got, what)

    def execute(self, case, obs):
        from slate import Color

        a, bg = tuple(case["a"]), case["bg"]
        if case.get("spec"):
            base = gen.build_color(case["spec"], bg)
            a = tuple(gen.spec_rgb(case["spec"]))
        else:
            base = Color(a, is_background=bg)
        if case.get("aa") is not None:
            base = base.as_alpha(case["aa"])
        obs.n("backgrounds", bg)
        kind, *args = case["do"]
        if kind == "blend":
            b = Color(tuple(case["b"]), is_background=case["bbg"])
            f, layer = args
            got = base.blend(b, f) if layer is None else base.blend(b, f, is_background=layer)
            obs.n("blends")
            self.check_valid(got, bg if layer is None else layer, "blend")
            self.blended(a, b.rgb, f, got.rgb, "blend")
            if f in (0, 1):
                obs.n("end points")
                if tuple(got.rgb) != (tuple(b.rgb) if f == 1 else a):
                    raise Violation(f"blend of {a} and {b.rgb} by {f} is {got.rgb}")
            obs.n("beyond range", not 0 <= f <= 1)
        elif kind in ("lighten", "darken"):
            n, step = args
            got = getattr(base, kind)(n) if step is None else getattr(base, kind)(n, step)
            obs.n(kind + "ed")
            self.check_valid(got, bg, kind)
            self.blended(a, (255,) * 3 if kind == "lighten" else (0,) * 3,
                         n * (0.1 if step is None else step), got.rgb, kind)
        elif kind == "hue":
            got = base.hue_shift(args[0])
            obs.n("hue shifts")
            self.check_valid(got, bg, "hue shift")
            self.shifted(a, args[0], got.rgb, "hue shift")
        elif kind == "complement":
            got = base.complement
            obs.n("complements")
            obs.n("grey complements", len(set(a)) == 1)
            self.check_valid(got, bg, "complement")
            self.complement(a, got.rgb, "complement")
        elif kind == "blendcomp":
            got = base.blend_complement(args[0])
            obs.n("complement blends")
            self.check_valid(got, bg, "blend with the complement")
            self.blended(a, base.complement.rgb, args[0], got.rgb, "blend with the complement")
        elif kind in ("triadic", "tetradic", "analogous"):
            group = getattr(base, kind + "_group")
            amounts = {"triadic": [0, 1 / 3, 2 / 3], "tetradic": [0, 1 / 4, 1 / 2, 3 / 4],
                       "analogous": [0, 1 / 12, 2 / 12]}[kind]
            obs.n("groups")
            if len(group) != len(amounts):
                raise Violation(f"{kind} group has {len(group)} members")
            if tuple(group[0].rgb) != a:
                raise Violation(f"{kind} group starts at {group[0].rgb}, not at {a}")
            for c, t in zip(group, amounts):
                self.check_valid(c, bg, f"{kind} group")
                if t == 1 / 2:
                    self.complement(a, c.rgb, "tetradic group")
                elif t:
                    self.shifted(a, t, c.rgb, f"{kind} group")
        elif kind == "alpha":
            got = base.as_alpha(args[0])
            obs.n("alpha and layer changes")
            self.check_valid(got, bg, "as_alpha")
            if tuple(got.rgb) != a or got.alpha != args[0]:
                raise Violation(f"as_alpha({args[0]}) of {a} gave {got!r}")
        elif kind == "layer":
            got = base.as_background(*args)
            obs.n("alpha and layer changes")
            self.check_valid(got, args[0], "as_background")
            if tuple(got.rgb) != a or got.alpha != (args[1] if args[1:] else base.alpha):
                raise Violation(f"as_background({args[0]}) of {base!r} gave {got!r}")
        elif kind == "contrast":
            self.check_valid(base.contrast, bg, "contrast")
        if tuple(base.rgb) != a or base.is_background != bg:
            raise Violation("the original changed")
        obs.state("operations", (kind, a, str(args)))


CHECK = C15()
