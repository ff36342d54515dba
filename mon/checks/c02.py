"""C02: the same history drawn incrementally and with full redraws, compared."""

import random

import gen
from common import Check, Violation
from lab import Session, compare, palette_for, screen_case


class C02(Check):
    id = "C02"
    quick, thorough = 42000, 600000
    required = ("redraws compared", "incremental draws after a redraw", "cells compared",
                "origins moved")
    rule = ("twin executions of one random history: one drawn incrementally, one with full redraws"
            " at random points, each onto a terminal filled with other content; non-trivial: some"
            " write before a redraw")
    assumptions = ["as C01"]

    def enumerated(self, tier):
        out = [gen.huge(random.Random(100 + i)) for i in range(1 if tier == "quick" else 6)]
        for case in out:
            case["ops"][-1]["redraw"] = True
        return out + gen.large(10 if tier == "quick" else 60, 2)

    def generate(self, rng, tier, index):
        case = screen_case(rng)
        pal = palette_for(rng, case, hi=rng.choice([6, 12, 40]))
        strings = case["kind"] == "terminal" and case.get("space") is None
        n = rng.randint(2, 12) if case["w"] < 50 else rng.randint(2, 5)
        case["ops"] = gen.history(rng, case["w"], case["h"], pal, n, strings=strings, redraw=0.6,
                                  resize=0.05, draw=0.35)
        case["ops"].insert(-1, {"op": "d", "redraw": True})
        if rng.random() < 0.2:
            for op in case["ops"]:
                if op["op"] == "d" and op["redraw"] and rng.random() < 0.5:
                    op["at"] = [rng.randint(1, 8), rng.randint(1, 6)]
        return case

    def nontrivial(self, case):
        seen = False
        for o in case["ops"]:
            seen |= o["op"] in "wb"
            if seen and o["op"] == "d" and o["redraw"]:
                return True
        return False

    def valid(self, case):
        return case["w"] > 0 and case["h"] > 0 and all(
            o["op"] != "rs" or (o["w"] > 0 and o["h"] > 0) for o in case["ops"])

    def execute(self, case, obs):
        inc = Session(case, obs)
        # the emulator of the redrawn twin starts from different junk
        red = Session(case, obs, junk=("!", frozenset({"bold"}), ("idx", 5), None, ""))
        after_redraw = False
        for op in case["ops"]:
            if op["op"] != "d":
                inc.apply(op)
                red.apply(op)
                continue
            inc.draw(False)
            inc.check_clean()
            if op["redraw"]:
                if op.get("at"):
                    # from now on the screen is drawn somewhere else
                    red.origin = tuple(op["at"])
                    if red.terminal is not None:
                        red.terminal.origin = red.origin
                    obs.n("origins moved")
                red.vt = red.new_vt()  # arbitrary other content
                r = red.draw(True)
                missing = {(x, y) for x in range(red.w) for y in range(red.h)} - set(
                    red.local(r["painted"]))
                if missing:
                    raise Violation(f"redraw left cells unpainted: {sorted(missing)[:3]}")
                obs.n("redraws compared")
                after_redraw = True
            else:
                r = red.draw(False)
                obs.n("incremental draws after a redraw", after_redraw)
            red.check_clean()
            red.check_inside(r["painted"])
            obs.n("cells compared", red.w * red.h)
            compare(red.region(), inc.region(),
                    "after a full redraw" if op["redraw"] else "draw following a full redraw")
            if op["redraw"]:
                r = red.draw(False)
                if r["painted"]:
                    raise Violation(f"painted after a full redraw with nothing changed:"
                                    f" {r['painted'][:3]}")
                red.check_clean()
            obs.state("pictures", inc.region())


CHECK = C02()
