"""C01 display fidelity: emulated picture versus reference model after every draw."""

import random

import gen
from common import Check, Violation
from lab import Session, palette_for, screen_case


class C01(Check):
    id = "C01"
    quick, thorough = 54000, 800000
    required = ("draws judged", "cells compared", "cells overwritten")
    rule = ("random histories of writes/bulk writes/clears/cursor moves/draws on Screen and Terminal,"
            " few texts/styles/colours per case so contents collide; non-trivial: at least two"
            " writes and a draw after them")
    assumptions = ["single-column printable characters", "terminals follow ECMA-48/xterm SGR and"
                   " cursor addressing as in mon/vt.py", "palette indices shown with the standard"
                   " VGA/xterm palette"]

    def enumerated(self, tier):
        return [gen.huge(random.Random(i)) for i in range(2 if tier == "quick" else 12)] + (
            gen.large(10 if tier == "quick" else 100, 1))

    def generate(self, rng, tier, index):
        case = screen_case(rng)
        pal = palette_for(rng, case, hi=rng.choice([6, 12, 40]))
        strings = case["kind"] == "terminal" and case.get("space") is None
        n = rng.randint(2, 14) if case["w"] < 50 else rng.randint(2, 6)
        case["ops"] = gen.history(rng, case["w"], case["h"], pal, n, strings=strings,
                                  resize=rng.choice([0, 0, 0.06]))
        return case

    def nontrivial(self, case):
        return sum(o["op"] in "wb" for o in case["ops"]) >= 2

    def valid(self, case):
        return case["w"] > 0 and case["h"] > 0 and all(
            o["op"] != "rs" or (o["w"] > 0 and o["h"] > 0) for o in case["ops"])

    def execute(self, case, obs):
        s = Session(case, obs)
        written = set()
        for op in case["ops"]:
            r = s.apply(op)
            if "covered" in r:
                obs.n("cells overwritten", len(written & r["covered"].keys()))
                written |= r["covered"].keys()
            if r["kind"] == "d":
                obs.n("draws judged")
                s.check_clean()
                s.check_inside(r["painted"])
                s.check_picture("after redraw" if r["redraw"] else "after draw")
                self.outside(s, obs)
                obs.state("pictures", s.model.picture())

    def outside(self, s, obs):
        """Cells around the screen are never touched (unless the terminal scrolled)."""

        if s.vt.scrolled:
            return
        ox, oy = s.origin[0] - 1, s.origin[1] - 1
        for y, row in enumerate(s.vt.grid):
            for x, cell in enumerate(row):
                if not (ox <= x < ox + s.w and oy <= y < oy + s.h) and cell != s.junk:
                    raise Violation(f"outside the screen: column {x} row {y} is {cell!r}")


CHECK = C01()
