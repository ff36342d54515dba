"""C06: one bulk write versus the same writes one after another (twin executions)."""

import gen
from common import Check, Violation
from lab import Session, compare, palette_for, screen_case


class C06(Check):
    id = "C06"
    quick, thorough = 48000, 700000
    required = ("bulks compared", "items", "overlapping cells", "string items", "counts judged", "items without a position",
                "cells painted", "lists of spans given again", "empty bulks")
    rule = ("on random prior content, a list of 0-8 positioned texts written in bulk on one screen and"
            " singly on its twin; through Terminal items are spans or ANSI strings; non-trivial: two"
            " items or more")
    assumptions = ["as C01", "opaque content"]

    def enumerated(self, tier):
        out = []
        for i, case in enumerate(gen.large(20 if tier == "quick" else 100, 6)):
            if i % 5 == 4:
                out.append({**case, "prior": case["ops"][:1], "items": case["ops"][2]["items"],
                            "force": i % 2 > 0})
        return out

    def generate(self, rng, tier, index):
        case = screen_case(rng)
        if case["w"] > 40 and rng.random() < 0.7:
            case["w"], case["h"] = rng.randint(1, 12), rng.randint(1, 6)
            case.pop("cursor", None)
        w, h = case["w"], case["h"]
        pal = palette_for(rng, case, hi=rng.choice([3, 6, 12]))
        strings = case["kind"] == "terminal" and case.get("space") is None
        case["prior"] = gen.history(rng, w, h, pal, rng.randint(0, 4), draw=0.2, below=0.03,
                                    strings=strings)
        case["items"] = [
            {"pos": gen.position(rng, w, h, below=0.04), "spans": pal.spans(3),
             "str": strings and rng.random() < 0.5}
            for _ in range(rng.randint(1, 8) if rng.random() < 0.97 else 0)]
        if len(case["items"]) > 1 and rng.random() < 0.4:
            # overlap for sure
            case["items"][-1]["pos"] = case["items"][0]["pos"]
        if rng.random() < 0.3:
            for i in case["items"]:
                if rng.random() < 0.4:
                    i["pos"] = None
        if len(case["items"]) > 1 and rng.random() < 0.3:
            # the same text again, maybe the very object
            for i in case["items"][1:]:
                if rng.random() < 0.6:
                    i["spans"], i["str"] = case["items"][0]["spans"], case["items"][0]["str"]
        for i in case["items"]:
            i["gen"] = rng.random() < 0.2
        if rng.random() < 0.3:
            case["tail"] = pal.spans(2)
        case["force"] = rng.random() < 0.08
        return case

    def nontrivial(self, case):
        return len(case["items"]) >= 2

    def valid(self, case):
        return case["w"] > 0 and case["h"] > 0

    def execute(self, case, obs):
        a, b = Session(case, obs), Session(case, obs)
        for op in case["prior"]:
            a.apply(op)
            b.apply(op)
        a.draw(), b.draw()
        r = a.apply({"op": "b", "items": case["items"], "force": case["force"]})
        if r["kind"] == "skip":
            return
        obs.n("empty bulks", not case["items"])
        hits = {}
        for i in case["items"]:
            # the twin always writes span by span objects
            rb = b.apply({"op": "w", "pos": i["pos"], "spans": i["spans"], "force": case["force"]})
            for p in rb["covered"]:
                hits[p] = hits.get(p, 0) + 1
            obs.n("items")
            obs.n("string items", bool(i.get("str")))
            obs.n("items without a position", i["pos"] is None)
        obs.n("overlapping cells", sum(n > 1 for n in hits.values()))
        if tuple(a.target.cursor) != tuple(b.target.cursor):
            raise Violation(f"cursor after bulk {a.target.cursor}, after single writes"
                            f" {b.target.cursor}")
        before = r["before"]
        if not r["scrolled"]:
            seen = {p for p, c in r["covered"].items() if before[p[1]][p[0]][:4] != c[:4]}
            obs.n("counts judged")
            if case["force"]:
                if r["count"] != len(r["covered"]):
                    raise Violation(f"forced bulk returned {r['count']}, covers"
                                    f" {len(r['covered'])}")
            elif not len(seen) <= r["count"] <= len(r["covered"]):
                raise Violation(f"bulk returned {r['count']}; {len(seen)} of {len(r['covered'])}"
                                " covered cells changed")
        da, db = a.draw(), b.draw()
        painted = a.local(da["painted"])
        obs.n("cells painted", len(painted))
        if len(painted) != len(set(painted)):
            raise Violation("a draw painted a cell of the bulk more than once")
        if not r["scrolled"] and len(painted) != r["count"]:
            raise Violation(f"bulk counted {r['count']} cells, the draw painted {len(painted)}")
        a.check_clean()
        a.check_inside(da["painted"])
        obs.n("bulks compared")
        obs.n("cells compared", a.w * a.h)
        compare(a.region(), b.region(), "bulk versus single writes")
        a.check_picture("after a bulk write")
        if case.get("tail"):
            op = {"op": "w", "pos": None, "spans": case["tail"]}
            a.apply(op), b.apply(op)
            a.draw(), b.draw()
            compare(a.region(), b.region(), "unpositioned write after bulk")
        obs.state("pictures", a.region())


CHECK = C06()
