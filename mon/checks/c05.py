"""C05: resizing, with an emulator whose picture is scrambled by the resize."""

import random

import gen
from common import Check, Violation
from lab import Session, palette_for, screen_case


class C05(Check):
    id = "C05"
    quick, thorough = 70000, 900000
    required = ("draws after a resize", "full draws after a resize", "kept cells", "grew", "shrank",
                "resizes with changes pending", "terminal resizes")
    rule = ("random histories with several resizes (explicit on a Screen, by changing the real size"
            " on a Terminal), drawn or not in between; after each resize the emulator's picture is"
            " junk; non-trivial: a write before a resize")
    assumptions = ["as C01", "terminal size comes from COLUMNS/LINES in Terminal cases"]

    def enumerated(self, tier):
        out = gen.large(10 if tier == "quick" else 60, 5)
        for case in out:
            rng = random.Random(case["w"])
            for _ in range(2):
                case["ops"].insert(rng.randrange(1, len(case["ops"])), {
                    "op": "rs", "w": max(1, case["w"] + rng.randint(-3, 3)),
                    "h": max(1, case["h"] + rng.randint(-3, 3)), "fill": " ", "keep": True})
        return out

    def generate(self, rng, tier, index):
        case = screen_case(rng)
        if case["w"] > 40:
            case["w"], case["h"] = rng.randint(1, 12), rng.randint(1, 6)
            case.pop("cursor", None)
        pal = palette_for(rng, case, hi=rng.choice([6, 12, 30]))
        case["ops"] = gen.history(rng, case["w"], case["h"], pal, rng.randint(3, 12), resize=0.3,
                                  draw=0.25, redraw=0.25, below=0.02, clear=0.03)
        return case

    def nontrivial(self, case):
        kinds = [o["op"] for o in case["ops"]]
        return "rs" in kinds and any(k in "wb" for k in kinds[: kinds.index("rs")])

    def valid(self, case):
        return case["w"] > 0 and case["h"] > 0 and all(
            o["op"] != "rs" or (o["w"] > 0 and o["h"] > 0) for o in case["ops"])

    def execute(self, case, obs):
        s = Session(case, obs)
        fresh, pending = True, False
        for op in case["ops"]:
            old = (s.w, s.h)
            blank = sum(c[4] is not None for row in s.model.cells for c in row)
            r = s.apply(op)
            if r["kind"] in "wb":
                pending |= bool(r["covered"])
            if r["kind"] == "rs" and r["changed"]:
                obs.n("resizes with changes pending", pending)
                obs.n("grew", s.w > old[0] or s.h > old[1])
                obs.n("shrank", s.w < old[0] or s.h < old[1])
                obs.n("terminal resizes", s.terminal is not None)
                obs.n("kept cells", sum(c[4] is not None for row in s.model.cells for c in row))
                fresh = True
            if r["kind"] == "d":
                painted = s.local(r["painted"])
                s.check_clean()
                s.check_inside(r["painted"])
                if fresh:
                    obs.n("full draws after a resize" if r["redraw"] else "draws after a resize")
                    missing = {(x, y) for x in range(s.w) for y in range(s.h)} - set(painted)
                    if missing:
                        raise Violation(
                            f"draw after a resize did not paint cell {min(missing)} of {s.w}x{s.h}")
                s.check_picture("after a resize" if fresh else "later")
                fresh = pending = False


CHECK = C05()
