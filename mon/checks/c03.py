"""C03: painted cells and returned counts versus the cells the history changed."""

import gen
from common import Check, Violation
from lab import Session, palette_for, screen_case


class C03(Check):
    id = "C03"
    quick, thorough = 72000, 1000000
    required = ("counts judged", "forced counts judged", "repeated writes", "translucent repetitions", "cells painted",
                "idle draws", "draws judged")
    rule = ("random histories; after every write the returned count is bracketed by the cells whose"
            " look changed and those stored differently, every third write is repeated at once, every"
            " draw's painted cells are compared with the cells touched since the last; non-trivial:"
            " two or more writes")
    assumptions = ["as C01"]

    def enumerated(self, tier):
        return gen.large(10 if tier == "quick" else 60, 3)

    def generate(self, rng, tier, index):
        case = screen_case(rng)
        pal = palette_for(rng, case, hi=rng.choice([3, 6, 12]))
        if rng.random() < 0.04:
            def span():
                x = pal.span()
                for k in ("fg", "bg"):
                    if x[k] and rng.random() < 0.7:
                        x[k + "a"], x["ak"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99]), rng.randrange(4)
                return x
            case["twice"] = [{"pos": [rng.randrange(case["w"]), rng.randrange(case["h"])],
                              "spans": [span() for _ in range(rng.randint(1, 3))]}
                             for _ in range(rng.choice([1, 1, 2, 4]))]
            case["between"] = rng.random() < 0.5
            return case
        strings = case["kind"] == "terminal" and case.get("space") is None
        n = rng.randint(2, 12) if case["w"] < 50 else rng.randint(2, 5)
        case["ops"] = gen.history(rng, case["w"], case["h"], pal, n, strings=strings, force=0.15,
                                  redraw=0.1, below=0.02, clear=0.03)
        for op in case["ops"]:
            if op["op"] in "wb" and rng.random() < 0.3:
                op["again"] = True
        return case

    def twice(self, case, obs):
        """Translucent content, whose colours are mixed: the same again is no change."""

        s = Session(case, obs)
        build = lambda: [(tuple(i["pos"]), [gen.build_span(x) for x in i["spans"]])
                         for i in case["twice"]]
        write = lambda: (s.target.write_bulk(build()) if len(case["twice"]) > 1
                         else s.target.write(build()[0][1], cursor=build()[0][0]))
        first = write()
        if case.get("between"):
            s.draw()
        obs.n("repeated writes")
        again = write()
        if again:
            raise Violation(f"the same write again returned {again}, after {first}")
        s.draw()
        third = write()
        painted = s.draw()["painted"]
        if third or painted:
            raise Violation(f"the same write a third time returned {third} and painted {painted[:3]}")
        obs.n("translucent repetitions")

    def nontrivial(self, case):
        if "twice" in case:
            return True
        return sum(o["op"] in "wb" for o in case["ops"]) >= 2

    def valid(self, case):
        return case["w"] > 0 and case["h"] > 0

    def execute(self, case, obs):
        if "twice" in case:
            self.twice(case, obs)
            return
        s = Session(case, obs)
        everything = lambda: {(x, y) for x in range(s.w) for y in range(s.h)}
        touched = everything()
        must = everything()  # cells the next draw has to paint
        for op in case["ops"]:
            r = s.apply(op)
            if r["kind"] in "wb":
                force = r["force"]
                stored, seen = self.judge(s, r, obs)
                if r["scrolled"]:
                    touched = everything()
                touched |= stored
                if force:
                    must |= set(r["covered"])
                if op.get("again") and not r["scrolled"] and self.repeatable(op):
                    again = dict(op, force=False)
                    if (op["pos"] if op["op"] == "w" else op["items"][0]["pos"]) is None:
                        continue
                    r2 = s.apply(again)
                    if r2["scrolled"]:
                        touched = everything()
                        continue
                    obs.n("repeated writes")
                    if r2["count"] != 0:
                        raise Violation(f"the same write again returned {r2['count']}")
            elif r["kind"] == "c":
                touched = everything()
            elif r["kind"] == "d":
                obs.n("draws judged")
                painted = s.local(r["painted"])
                obs.n("cells painted", len(painted))
                extra = [p for p in painted if p not in touched]
                if not r["redraw"]:
                    if extra:
                        raise Violation(f"draw painted unchanged cell {extra[0]}")
                    if len(set(painted)) != len(painted):
                        twice = [p for p in painted if painted.count(p) > 1]
                        raise Violation(f"draw painted cell {twice[0]} more than once")
                    if must - set(painted):
                        raise Violation(f"forced cell {min(must - set(painted))} was not repainted")
                    # wherever the terminal's cursor is, even where a line feed would scroll
                    s.vt.feed(f"\x1b[{s.vt.height};1H")
                    before = [row[:] for row in s.vt.grid]
                    idle = s.draw(False)
                    obs.n("idle draws")
                    if s.vt.grid != before:
                        raise Violation("a draw with nothing changed changed the picture")
                    if idle["painted"]:
                        raise Violation(f"a draw with nothing changed painted {idle['painted'][0]}")
                touched, must = set(), set()

    def repeatable(self, op):
        return True

    def judge(self, s, r, obs):
        """Brackets the count; returns (cells stored differently, cells looking different)."""

        count, covered, before = r["count"], r["covered"], r["before"]
        if not isinstance(count, int) or isinstance(count, bool):
            raise Violation(f"write returned {count!r}, not a number of cells")
        if r["scrolled"]:
            n = min(r["scrolled"], s.h)
            blank = s.model.blank(" ")
            before = before[n:] + [[blank] * s.w for _ in range(n)]
        seen = {p for p, c in covered.items() if before[p[1]][p[0]][:4] != c[:4]}
        stored = {p for p, c in covered.items()
                  if before[p[1]][p[0]][:4] != c[:4] or self.inv(before[p[1]][p[0]]) != self.inv(c)}
        obs.n("counts judged")
        if r["force"]:
            obs.n("forced counts judged")
            if count != len(covered):
                raise Violation(f"forced write returned {count}, covers {len(covered)} cells")
            return set(covered), seen
        if not len(seen) <= count <= len(stored):
            raise Violation(f"write returned {count}; {len(seen)} cells changed look,"
                            f" {len(stored)} changed at all, {len(covered)} covered")
        obs.n("counts equal to visible changes", count == len(seen))
        return stored, seen

    @staticmethod
    def inv(cell):
        return cell[4] if cell[4] is not None else (False, False, (None, None))


CHECK = C03()
