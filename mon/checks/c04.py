"""C04: where text lands, what is clipped, where the cursor is."""

import gen
from common import Check, Violation
from lab import Session, screen_case


class C04(Check):
    id = "C04"
    quick, thorough = 90000, 1200000
    required = ("writes judged", "wrapped", "newlines", "started outside", "clipped at the bottom",
                "unpositioned writes", "scrolled", "clears", "cursor assignments",
                "scrollbacks compared")
    rule = ("random sequences of positioned and unpositioned writes, cursor assignments and clears on"
            " small and large screens, plus every (size, start, length) of small screens; cursor and"
            " characters are compared after every step; non-trivial: some text covers a cell")
    assumptions = ["as C01"]

    def enumerated(self, tier):
        out = []
        top = 4 if tier == "quick" else 6
        for w in range(1, top):
            for h in range(1, top - 1):
                for x in range(-1, w + 1):
                    for y in range(-1, h + 2):
                        for n in (1, w, w * h, w * h + 2):
                            t = ("abcdefghijklmnopqrstuvwxyz" * 2)[:n]
                            out.append({"kind": "screen", "w": w, "h": h, "ops": [
                                {"op": "w", "pos": [x, y], "spans": [plain(t)]},
                                {"op": "w", "pos": None, "spans": [plain("Z")]}]})
        for kind in ("screen", "terminal"):
            for n in (100, 257, 400, 520):  # more spans in one write than any cap would foresee
                spans = [plain(chr(97 + k % 26)) for k in range(n)]
                for k in range(0, n, 50):
                    spans[k]["s"] = ["bold"]
                out.append({"kind": kind, "w": 40, "h": 12, "ops": [
                    {"op": "w", "pos": [0, 0], "spans": spans},
                    {"op": "w", "pos": None, "spans": [plain("Z")]}]})
        return out + gen.large(10 if tier == "quick" else 60, 4, opaque=False)

    def generate(self, rng, tier, index):
        case = screen_case(rng, spaces=False)
        case.pop("margin", None)
        if rng.random() < 0.5:
            case["w"], case["h"] = rng.randint(1, 6), rng.randint(1, 4)
            case.pop("cursor", None)
        pal = gen.Palette(rng, hi=rng.choice([3, 8, 30]), opaque=False)
        n = rng.randint(1, 8) if case["w"] < 50 else rng.randint(1, 4)
        case["lazy"] = rng.random() < 0.5  # drawn only now and then
        case["ops"] = gen.history(rng, case["w"], case["h"], pal, n, force=0.03,
                                  draw=0.15 if case["lazy"] else 0.0, nopos=0.5,
                                  cur=0.08, strings=case["kind"] == "terminal", outside=0.15,
                                  below=0.08, resize=0.04)
        return case

    def nontrivial(self, case):
        return any(o["op"] in "wb" for o in case["ops"])

    def valid(self, case):
        return case["w"] > 0 and case["h"] > 0 and all(
            o["op"] != "rs" or (o["w"] > 0 and o["h"] > 0) for o in case["ops"])

    def execute(self, case, obs):
        s = Session(case, obs)
        self.scrolled, self.odd = 0, False
        self.cursor(s, "at start")
        for op in case["ops"]:
            if op["op"] == "d":
                self.look(s, obs)
                obs.n("several operations per draw")
                continue
            r = s.apply(op)
            self.cursor(s, f"after {op['op']}")
            if r["kind"] == "c":
                obs.n("clears")
                self.odd |= self.scrolled > 0
            elif r["kind"] == "rs":
                obs.n("resizes")
                self.odd = True
            elif r["kind"] == "b":
                self.scrolled += r["scrolled"]
            elif r["kind"] == "cur":
                obs.n("cursor assignments")
                continue
            elif r["kind"] == "w":
                obs.n("writes judged")
                t = "".join(x["t"] for x in op["spans"])
                rows = {y for _, y in r["covered"]}
                obs.n("wrapped", len(rows) > 1 and "\n" not in t)
                obs.n("newlines", "\n" in t)
                obs.n("started outside", not r["covered"])
                obs.n("clipped at the bottom",
                      bool(r["covered"]) and len(r["covered"]) < len(t.replace("\n", "")))
                obs.n("unpositioned writes", op["pos"] is None)
                obs.n("scrolled", r["scrolled"] > 0)
                self.scrolled += r["scrolled"]
                if not r["covered"] and not r["scrolled"] and r["count"] != 0:
                    raise Violation(f"a write outside the screen returned {r['count']}")
            if not case.get("lazy"):
                self.look(s, obs)
        self.look(s, obs)

    def look(self, s, obs):
        # rows leaving at the top enter the terminal's own scrollback
        old, kept = [[c[0] for c in row] for row in s.region()], len(s.vt.scrolled)
        s.draw(False)
        if s.origin[1] == 1 and not self.odd:
            left = [[c[0] for c in row[s.origin[0] - 1:]] for row in s.vt.scrolled[kept:]]
            want = old[:self.scrolled]
            obs.n("scrollbacks compared", self.scrolled > 0)
            if left[:len(want)] != want or (left and not want):
                raise Violation(f"{self.scrolled} rows scrolled out, the terminal's scrollback received"
                                f" {[''.join(x) for x in left]}, the rows shown there were"
                                f" {[''.join(x) for x in old]}")
        self.scrolled, self.odd = 0, False
        got = [[c[0] for c in row] for row in s.region()]
        want = [[c[0] for c in row] for row in s.model.cells]
        obs.n("cells compared", s.w * s.h)
        obs.state("layouts", want)
        if got != want:
            raise Violation("text is placed as %r, should be %r" % (
                ["".join(x) for x in got], ["".join(x) for x in want]))

    def cursor(self, s, when):
        got = s.target.cursor
        if tuple(got) != tuple(s.model.cursor):
            raise Violation(f"cursor {when}: {tuple(got)}, should be {s.model.cursor}")


def plain(t):
    return {"t": t, "s": [], "fg": None, "bg": None}


CHECK = C04()
