"""C23: resize announcements versus the sequence of sizes presented."""

import io
import os
import random

from common import Check, Violation
from vt import VT

JUNK = ("?", frozenset(), None, ("idx", 3), "")


class Boom(Exception):
    """Raised by a listener."""


class C23(Check):
    id = "C23"
    quick, thorough = 80000, 900000
    required = ("queries", "changes announced", "unchanged queries", "listener calls",
                "re-entrant queries", "listener draws", "back and forth", "exports",
                "listeners raising", "changes while listeners run", "changes nobody asked for")
    rule = ("random sequences of size changes and queries (size, width, height, export) on a Terminal"
            " with 0-4 listeners that query the size, write or draw, the last of which may raise, or during which the"
            " terminal changes once more; call logs and the emulated display"
            " are judged after every step; non-trivial: two changes or more")
    assumptions = ["the terminal size comes from COLUMNS/LINES"]

    def enumerated(self, tier):
        """Many changes, many listeners, large and extreme sizes."""

        out = []
        for seed in range(12 if tier == "quick" else 100):
            rng = random.Random(seed)
            sizes = [[1, 1], [500, 2], [2, 300], [132, 43], [80, 24], [81, 24], [80, 25], [24, 80]]
            ops = []
            for _ in range(rng.choice([30, 60])):
                ops.append(["set", *rng.choice(sizes)])
                ops.append([rng.choice(["size", "width", "height", "svg"])])
            out.append({"start": [80, 24], "ops": ops,
                        "listeners": [rng.choice(["log", "size", "height", "true"])
                                      for _ in range(rng.choice([1, 3, 40]))]})
        return out

    def generate(self, rng, tier, index):
        sizes = [[rng.randint(1, 14), rng.randint(1, 7)] for _ in range(rng.randint(2, 4))]
        if rng.random() < 0.3:
            sizes.append([sizes[0][0], rng.randint(1, 7)])
            sizes.append([sizes[0][1], sizes[0][0]])
        ops = []
        for _ in range(rng.randint(3, 20)):
            r = rng.random()
            if r < 0.4:
                ops.append(["set", *rng.choice(sizes)])
            elif r < 0.84:
                ops.append([rng.choice(["size", "size", "width", "height", "svg"])])
            elif r < 0.88:
                ops.append(["boom"])
            elif r < 0.92:
                ops.append([rng.choice(["meanwhile", "slip"]), rng.randrange(4), *rng.choice(sizes)])
            else:
                ops.append(["listen", rng.choice(["log", "size", "width", "write", "draw"])])
        return {"start": rng.choice(sizes),
                "listeners": [rng.choice(["log", "size", "height", "write", "draw", "true"])
                              for _ in range(rng.randint(0, 3))], "ops": ops}

    def nontrivial(self, case):
        return sum(o[0] == "set" for o in case["ops"]) >= 2

    def valid(self, case):
        return case["start"] and len(case["start"]) == 2 and min(case["start"]) > 0 and all(
            (o[0] != "set" or (len(o) == 3 and min(o[1:]) > 0))
            and (o[0] not in ("meanwhile", "slip") or (len(o) == 4 and min(o[2:]) > 0)) for o in case["ops"])

    def execute(self, case, obs):
        from slate import Terminal

        def put(w, h):
            os.environ["COLUMNS"], os.environ["LINES"] = str(w), str(h)

        actual = tuple(case["start"])
        put(*actual)
        stream = io.StringIO()
        term = Terminal(stream=stream)
        log, expected = [], []
        state = {"depth": 0, "drawn": 0, "boom": False, "meanwhile": None, "slip": None,
                 "slipped": False}

        def listen(kind, i):
            def listener(size):
                nonlocal actual
                log.append((i, tuple(size)))
                state["depth"] += 1
                if state["depth"] > 40:
                    raise Violation("resize listeners call each other without end")
                try:
                    if tuple(size) != actual:
                        return None  # the terminal has changed again meanwhile
                    if state["boom"] and i == len(kinds) - 1:
                        state["boom"] = False
                        raise Boom
                    if state["slip"] and state["slip"][0] == i:
                        # nobody asks for this one while listeners run
                        new, state["slip"] = tuple(state["slip"][1:]), None
                        if new != actual:
                            actual, state["slipped"] = new, True
                            put(*actual)
                            return None
                    if state["meanwhile"] and state["meanwhile"][0] == i:
                        new = tuple(state["meanwhile"][1:])
                        state["meanwhile"] = None
                        if new != actual:
                            actual = new
                            put(*actual)
                            got = tuple(term.size)
                            if got != actual:
                                raise Violation(f"size inside a listener is {got}, should be {actual}")
                            announced.append(actual)
                            missing = [k for k in range(len(kinds)) if (k, actual) not in log]
                            if missing:
                                raise Violation(f"listeners {missing} were not called for {actual},"
                                                " seen by a listener")
                            obs.n("changes while listeners run")
                            return None
                    if kind in ("size", "width", "height"):
                        obs.n("re-entrant queries")
                        got = getattr(term, kind)
                        want = {"size": actual, "width": actual[0], "height": actual[1]}[kind]
                        if (tuple(got) if kind == "size" else got) != want:
                            raise Violation(f"{kind} inside a listener is {got}, should be {want}")
                    elif kind in ("write", "draw"):
                        # the far corner exists already
                        n = term.write("Z", cursor=(actual[0] - 1, actual[1] - 1),
                                       force_overwrite=True)
                        if n != 1:
                            raise Violation(f"inside a listener the corner of {actual} is not there")
                        if kind == "draw":
                            vt = VT(*actual, fill=JUNK)
                            mark = len(stream.getvalue())
                            term.draw()
                            vt.feed(stream.getvalue()[mark:])
                            obs.n("listener draws")
                            first = not state["drawn"]
                            state["drawn"] = 1
                            if vt.anomalies or (first and JUNK in (c for r in vt.grid for c in r)):
                                raise Violation(f"a draw inside a listener at {actual} is wrong:"
                                                f" {vt.anomalies[:2]}")
                    return True if kind == "true" else None
                finally:
                    state["depth"] -= 1
            return listener

        kinds = []
        for k in case["listeners"]:
            term.on_resize += listen(k, len(kinds))
            kinds.append(k)
        seen = actual
        history = [actual]
        announced = []
        for kind, *args in case["ops"]:
            if kind == "set":
                actual = tuple(args)
                put(*actual)
                continue
            if kind == "listen":
                term.on_resize += listen(args[0], len(kinds))
                kinds.append(args[0])
                continue
            if kind == "boom":
                state["boom"], state["meanwhile"], state["slip"] = bool(kinds), None, None
                continue
            if kind == "meanwhile":
                state["boom"], state["meanwhile"], state["slip"] = False, args, None
                continue
            if kind == "slip":
                state["boom"], state["meanwhile"], state["slip"] = False, None, args
                continue
            state["drawn"] = 0
            announced.clear()
            asked = actual
            try:
                if kind == "svg":
                    term.export_svg()
                    obs.n("exports")
                    got = want = None
                else:
                    got = getattr(term, kind)
                    got = tuple(got) if kind == "size" else got
                    want = {"size": actual, "width": actual[0], "height": actual[1]}[kind]
            except Boom:
                got = want = None
                obs.n("listeners raising")
            obs.n("queries")
            if announced:
                # the question was asked before the last change
                got = want = None
                expected += [(i, size) for size in (asked, *announced) for i in range(len(kinds))]
                obs.n("changes announced", 1 + len(announced))
                history += [asked, *announced]
                seen = actual
                if sorted(log) != sorted(expected):
                    raise Violation(f"calls (listener, size) when the terminal changed to {asked} and"
                                    f" meanwhile {announced}: {log[-9:]}")
                expected = list(log)
            if state["slipped"]:
                # whoever asks next has it announced
                state["slipped"] = False
                got, want = tuple(term.size), actual
                expected += [(i, size) for size in (asked, actual) for i in range(len(kinds))]
                history += [asked, actual]
                seen = actual
                obs.n("changes announced", 2)
                obs.n("changes nobody asked for")
                if sorted(log) != sorted(expected):
                    raise Violation(f"calls (listener, size) when the terminal changed to {asked} and,"
                                    f" unasked, to {actual}: {log[-9:]}")
                expected = list(log)
            if got != want:
                raise Violation(f"{kind} is {got}, the terminal is {actual}")
            if actual != seen:
                expected += [(i, actual) for i in range(len(kinds))]
                obs.n("changes announced")
                obs.n("back and forth", len(history) > 1 and history[-2] == actual)
                history.append(actual)
                seen = actual
            else:
                obs.n("unchanged queries")
            if log != expected:
                raise Violation(f"calls (listener, size) after {kind} at {actual}: {log[-6:]}, should"
                                f" end with {expected[-6:]} ({len(log)} calls, should be"
                                f" {len(expected)})")
            # the surface has the new size
            if term.write("Q", cursor=(actual[0] - 1, actual[1] - 1), force_overwrite=True) != 1:
                raise Violation(f"the surface does not reach the corner of {actual}")
            if term.write("Q", cursor=(actual[0], 0), force_overwrite=True) != 0:
                raise Violation(f"the surface is wider than {actual}")
            mark = len(stream.getvalue())
            term.draw(redraw=True)
            vt = VT(*actual, fill=JUNK)
            vt.feed(stream.getvalue()[mark:])
            if vt.anomalies or any(c == JUNK for row in vt.grid for c in row):
                raise Violation(f"a redraw at {actual} does not fill the terminal: {vt.anomalies[:2]}")
        obs.n("listener calls", len(log))
        obs.state("histories", (tuple(history), tuple(kinds)))


CHECK = C23()
