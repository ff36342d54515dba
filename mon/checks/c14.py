"""C14: emitted codes in every colour space."""

import gen
from common import Check, Violation
from reftables import PALETTE
from vt import decode_color, to_rgb

SPACES = ["true_color", "eight_bit", "standard", "no_color"]


def distance(a, b):
    """The red-mean colour distance."""

    rm = (a[0] + b[0]) / 2
    return ((2 + rm / 256) * (a[0] - b[0]) ** 2 + 4 * (a[1] - b[1]) ** 2
            + (2 + (255 - rm) / 256) * (a[2] - b[2]) ** 2) ** 0.5


def lightness(rgb):
    """CIE lightness, 0-1."""

    lin = [v / 255 / 12.92 if v / 255 <= 0.04045 else ((v / 255 + 0.055) / 1.055) ** 2.4 for v in rgb]
    y = 0.2126 * lin[0] + 0.7152 * lin[1] + 0.0722 * lin[2]
    return (y * 24389 / 27 if y <= 216 / 24389 else y ** (1 / 3) * 116 - 16) / 100


def allowed_error(v):
    """How far a 256-colour channel may be from v: what rounding on a linear 0-5 scale or picking
    the nearest cube level gives near v, whichever is more."""

    levels = (0, 95, 135, 175, 215, 255)
    errs = [0]
    for x in range(max(0, v - 2), min(255, v + 2) + 1):
        errs.append(abs(levels[round(x / 255 * 5)] - x))
        errs.append(min(abs(l - x) for l in levels))
    return max(errs) + 2


ALLOWED = [allowed_error(v) for v in range(256)]
ALLOWED[0] = ALLOWED[255] = 0


class C14(Check):
    id = "C14"
    quick, thorough = 800000, 8000000
    required = ("codes judged", "true_color", "eight_bit", "standard", "no_color", "codes kept",
                "nearest judged", "monotone pairs", "backgrounds", "derived colours",
                "grey steps judged")
    rule = ("every palette entry and a grid plus random colours, from every kind of description and"
            " derivation, on both layers in all four spaces, with a brighter neighbour for"
            " monotonicity; non-trivial: all")
    assumptions = ["256-colour nearness: each channel as near as linear rounding or the nearest"
                   " cube level, 0 and 255 exact",
                   "palette as C13", "greys are indices 232-255"]

    def enumerated(self, tier):
        out = []
        step = 51 if tier == "quick" else 15
        grid = [[r, g, b] for r in range(0, 256, step) for g in range(0, 256, step)
                for b in range(0, 256, step)]
        for space in SPACES:
            for bg in (False, True):
                for n in range(256):
                    out.append({"space": space, "col": ["idx", n], "bg": bg, "derive": "", "up": 0})
                for n in range(16):
                    out.append({"space": space, "col": ["std", n], "bg": bg, "derive": "", "up": 0})
                for n in range(256):
                    if not (bg or 30 <= n <= 37 or 40 <= n <= 49 or n == 4 or 90 <= n <= 107
                            or n in (98, 99)):
                        out.append({"space": space, "col": ["bare", n], "bg": bg, "derive": "",
                                    "up": 0})
                for c in grid:
                    out.append({"space": space, "col": ["rgb", *c], "bg": bg, "derive": "", "up": 1})
        return out

    def generate(self, rng, tier, index):
        return {"space": rng.choice(SPACES), "col": gen.colspec(rng), "bg": rng.random() < 0.5,
                "derive": rng.choice(["", "", "layer", "made", "made", "alpha", "blend", "complement", "hue"]),
                # results of blends are shared, so each is asked for once
                "frac": rng.random(),
                "up": rng.choice([0, 1, 1, 5, 30, 120]), "ch": rng.randrange(3)}

    def valid(self, case):
        return len(case["col"]) > 1

    def execute(self, case, obs):
        import slate
        from slate import Color, ColorSpace

        space, bg = case["space"], case["bg"]
        slate.terminal.color_space = ColorSpace(space)
        c = gen.build_color(case["col"], bg)
        d = case["derive"]
        kept = case["col"][0] in ("std", "idx", "bare") and d in ("", "made")
        if d == "made":  # made with an alpha at once
            alpha = round(case["frac"], 3)
            if case["col"][0] in ("std", "idx", "ansirgb"):
                n = case["col"][1]
                code = ";".join(map(str, ("48" if bg else "38", "2", *case["col"][1:])))
                if case["col"][0] != "ansirgb":
                    code = f"{48 if bg else 38};5;{n}" if case["col"][0] == "idx" else str(
                        (30 + n if n < 8 else 82 + n) + 10 * bg)
                c = Color.from_ansi(f"{code};{alpha:.3f}")
            else:
                c = Color(tuple(c.rgb), is_background=bg, alpha=alpha)
            obs.n("made with an alpha")
        if d == "layer":
            c = c.as_background(not bg).as_background(bg)
        elif d == "alpha":
            c = c.as_alpha(0.5)
        elif d == "blend":
            c = c.blend(Color((10, 200, 90)), case["frac"])
        elif d == "complement":
            c = c.complement
        elif d == "hue":
            c = c.hue_shift(0.21)
        obs.n("derived colours", bool(d))
        obs.n("backgrounds", bg)
        rgb = tuple(c.rgb)
        col = self.judge(c, rgb, space, bg, case, kept, obs)
        obs.state("codes", (space, c.ansi))
        if not kept and case.get("up") and space in ("eight_bit", "no_color"):
            k = case.get("ch", 0)
            higher = list(rgb)
            higher[k] = min(255, higher[k] + case["up"])
            c2 = Color(tuple(higher), is_background=bg)
            col2 = self.judge(c2, tuple(higher), space, bg, case, False, obs)
            obs.n("monotone pairs")
            if space == "eight_bit":
                a, b = to_rgb(col), to_rgb(col2)
                if b[k] < a[k] or any(a[i] != b[i] for i in range(3) if i != k):
                    raise Violation(f"monotone: {rgb} shows as {a}, {tuple(higher)} as {b}")
            elif col2[1] < col[1]:
                raise Violation(f"monotone: {rgb} is grey {col[1]}, the brighter {higher}"
                                f" {col2[1]}")

    def judge(self, c, rgb, space, bg, case, kept, obs):
        layer, col, bad = decode_color(c.ansi)
        obs.n("codes judged")
        obs.n(space)
        where = f"{case['col']} {case['derive']} in {space} emits {c.ansi!r}"
        if kept and (space == "true_color" or space == "eight_bit" or case["col"][0] == "std"
                     and space == "standard"):
            n = case["col"][1]
            given = f"{48 if bg else 38};5;{n}"
            if case["col"][0] == "std":
                given = str((30 + n if n < 8 else 82 + n) + 10 * bg)
            if c.ansi != given:
                raise Violation(f"not kept: {where}, made from {given}")
        if bad:
            raise Violation(f"invalid code: {where}: {bad}")
        if layer != ("bg" if bg else "fg"):
            raise Violation(f"layer: {where}, on the {layer} layer")
        shown = to_rgb(col)
        if space == "true_color":
            if shown != rgb:
                raise Violation(f"inexact: {where}, shows {shown}, the colour is {rgb}")
            return col
        if col[0] == "rgb":
            raise Violation(f"beyond the space: {where}")
        if space == "no_color":
            obs.n("grey steps judged")
            if not 232 <= col[1] <= 255:
                raise Violation(f"not a grey: {where}")
            if abs(col[1] - 232 - lightness(rgb) * 23) > 1.01:
                raise Violation(f"brightness: {where}, brightness {lightness(rgb):.3f}")
            return col
        if space == "eight_bit":
            if kept:
                obs.n("codes kept")
                if col[1] != case["col"][1]:
                    raise Violation(f"not kept: {where}")
            elif case["col"][0] in ("std", "idx") and shown == rgb:
                pass
            elif any(abs(a - b) > ALLOWED[b] for a, b in zip(shown, rgb)):
                raise Violation(f"far: {where}, shows {shown}, the colour is {rgb}")
            return col
        # standard
        plain = [p for p in c.ansi.split(";")]
        if len(plain) != 1 or col[1] > 15:
            raise Violation(f"beyond the space: {where}")
        if kept and case["col"][0] == "std":
            obs.n("codes kept")
            if col[1] != case["col"][1]:
                raise Violation(f"not kept: {where}")
            return col
        best = min(distance(rgb, p) for p in PALETTE[:16])
        obs.n("nearest judged")
        if distance(rgb, shown) > best * 1.004 + 0.5:
            raise Violation(f"not nearest: {where}, {shown} at {distance(rgb, shown):.1f}, nearest is"
                            f" at {best:.1f} of {rgb}")
        return col


CHECK = C14()
