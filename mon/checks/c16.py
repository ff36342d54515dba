"""C16: luminance, brightness and contrast of every colour (a case is one row of 256 colours)."""

import random

from common import Check, Violation

LIN = [v / 255 / 12.92 if v / 255 <= 0.04045 else ((v / 255 + 0.055) / 1.055) ** 2.4
       for v in range(256)]
LIGHT, DARK = (245, 245, 245), (35, 35, 35)


def luminance(rgb):
    return 0.2126 * LIN[rgb[0]] + 0.7152 * LIN[rgb[1]] + 0.0722 * LIN[rgb[2]]


def lightness(y):
    return (y * 24389 / 27 if y <= 216 / 24389 else y ** (1 / 3) * 116 - 16) / 100


def ratio(a, b):
    hi, lo = max(a, b), min(a, b)
    return (hi + 0.05) / (lo + 0.05)


class C16(Check):
    id = "C16"
    quick, thorough = 0, 0
    required = ("colours judged", "light contrasts", "dark contrasts", "custom pairs", "backgrounds",
                "translucent colours")
    rule = ("rows of 256 colours (fixed red and green, every blue); the thorough tier visits all 65536"
            " rows = all 16.7 million colours, the quick tier a seed-shifted sixteenth of the rows"
            " including every row with an extreme; contrast judged on every colour; non-trivial: all")
    assumptions = ["sRGB and CIE 1976 formulas; float tolerance 1e-6"]
    cap_quick, cap_thorough = 300.0, 3000.0

    def setup(self):
        import os
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def enumerated(self, tier):
        import os
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        rows = []
        for r in range(256):
            for g in range(256):
                if tier == "thorough" or (r * 256 + g * 7 + seed) % 13 == 0 or (
                        r in (0, 255) and g % 4 == 0) or (g in (0, 255) and r % 4 == 0):
                    rows.append({"r": r, "g": g})
        return rows

    def execute(self, case, obs):
        from slate import Color
        from slate.color import calculate_contrast

        r, g = case["r"], case["g"]
        bg = (r + g) % 2 == 1
        light = dark = 0
        mix = random.Random(r * 256 + g)
        whites = tuple(Color((mix.randrange(256), mix.randrange(256), mix.randrange(256)))
                       for _ in range(2))
        if r % 8 == 0:
            whites = Color((255, 255, 255)), Color((0, 0, 0))
        for b in range(256):
            rgb = (r, g, b)
            alpha = 1.0 if b % 3 else mix.choice([0.0, 0.1, 0.5, mix.random()])
            c = Color(rgb, is_background=bg, alpha=alpha)
            obs.n("translucent colours", alpha < 1)
            y = luminance(rgb)
            if abs(c.luminance - y) > 1e-6:
                raise Violation(f"luminance of {rgb} is {c.luminance}, should be {y}")
            if abs(c.brightness - lightness(y)) > 1e-6:
                raise Violation(f"brightness of {rgb} is {c.brightness}, should be {lightness(y)}")
            k = c.contrast
            t = tuple(k.rgb)
            if t not in (LIGHT, DARK) or k.is_background != bg:
                raise Violation(f"contrast of {rgb} is {k!r}")
            if ratio(y, luminance(t)) < 3.0:
                raise Violation(f"contrast of {rgb} reaches only {ratio(y, luminance(t)):.2f}:1")
            if abs(y - 0.179) > 1e-6 and (t == DARK) != (y > 0.179):
                raise Violation(f"contrast of {rgb} (luminance {y:.4f}) is {t}")
            light += t == LIGHT
            dark += t == DARK
            if b % 16 == r % 16:
                k = calculate_contrast(c, white=whites[0], black=whites[1])
                want = whites[1] if t == DARK else whites[0]
                if tuple(k.rgb) != tuple(want.rgb) or k.is_background != bg:
                    raise Violation(f"custom contrast of {rgb} is {k!r}, should be {want!r}")
                one = calculate_contrast(c, white=whites[0]) if t == LIGHT else calculate_contrast(
                    c, black=whites[1])
                if tuple(one.rgb) != tuple(want.rgb):
                    raise Violation(f"custom contrast of {rgb} is {one!r}, should be {want!r}")
                other = calculate_contrast(c, black=whites[1]) if t == LIGHT else calculate_contrast(
                    c, white=whites[0])
                if tuple(other.rgb) != t:
                    raise Violation(f"custom contrast of {rgb} is {other!r}, should be {t}")
                obs.n("custom pairs")
        obs.n("colours judged", 256)
        obs.n("light contrasts", light)
        obs.n("dark contrasts", dark)
        obs.n("backgrounds", bg)


CHECK = C16()
