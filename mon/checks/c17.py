"""C17: colour-space choice in every environment, overrides, notifications, ordering."""

import io
import itertools
import operator
import os

from common import Check, Violation

UNSET = None
SYS = [UNSET, "true_color", "TRUE_COLOR", "Eight_Bit", "eight_bit", "standard", "STANDARD", "no_color",
       "No_Color"]
NOCOLOR = [UNSET, "", "1", "0"]
COLORTERM = [UNSET, "", " ", "truecolor", "24bit", " TrueColor ", "24BIT", "256color", "256Color", "yes",
             "gnome-terminal"]
TERM = [UNSET, "", "xterm", "xterm-256color", "xterm-truecolor", "xterm-24bit", "dumb", "linux", "vt100",
        "xterm-color"]
ORDER = ["standard", "no_color", "eight_bit", "true_color"]


def reference(env):
    if env["SLATE_COLORSYS"] is not None:
        return env["SLATE_COLORSYS"].lower()
    if env["NO_COLOR"] is not None:
        return "no_color"
    what = (env["COLORTERM"] or "").strip().lower()
    if what == "":
        term = env["TERM"] or ""
        what = term[len("xterm-"):] if term.startswith("xterm-") else ""
    return {"24bit": "true_color", "truecolor": "true_color", "256color": "eight_bit"}.get(
        what, "standard")


class Boom(Exception):
    """Raised by a listener."""


class C17(Check):
    id = "C17"
    quick, thorough = 24000, 250000
    required = ("environments judged", "forced", "cleared overrides", "notifications",
                "comparisons", "listeners called", "queries by listeners", "listeners raising")
    rule = ("every combination of representative values of the four variables (exhaustive), random"
            " sequences of environment changes, overrides, clears and listeners on several terminals,"
            " and every comparison of every pair of spaces and names; non-trivial: all")
    assumptions = ["TERM announces through an xterm- prefix only"]

    def enumerated(self, tier):
        out = [{"env": list(e)} for e in itertools.product(SYS, NOCOLOR, COLORTERM, TERM)]
        out.append({"compare": True})
        return out

    def generate(self, rng, tier, index):
        ops = []
        for _ in range(rng.randint(2, 14)):
            k = rng.choice(["env", "force", "force", "clear", "listen", "query", "boom"])
            t = rng.randrange(3)
            if k == "env":
                ops.append([k, rng.choice(SYS), rng.choice(NOCOLOR), rng.choice(COLORTERM),
                            rng.choice(TERM)])
            elif k == "force":
                ops.append([k, t, rng.choice(ORDER)])
            else:
                ops.append([k, t])
        return {"ops": ops}

    def valid(self, case):
        return "ops" in case

    def set_env(self, values):
        env = dict(zip(("SLATE_COLORSYS", "NO_COLOR", "COLORTERM", "TERM"), values))
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        return env

    def execute(self, case, obs):
        saved = {k: os.environ.get(k) for k in ("SLATE_COLORSYS", "NO_COLOR", "COLORTERM", "TERM")}
        try:
            if "compare" in case:
                self.compare(obs)
            elif "env" in case:
                self.environment(case["env"], obs)
            else:
                self.history(case["ops"], obs)
        finally:
            for k, v in saved.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v

    def environment(self, values, obs):
        from slate import Terminal, get_color_space

        env = self.set_env(values)
        want = reference(env)
        if not hasattr(self, "terms"):
            self.terms = [Terminal(stream=io.StringIO())]
        for what, got in (("get_color_space()", get_color_space()),
                          ("terminal.color_space", self.terms[0].color_space)):
            if got.value != want:
                raise Violation(f"{what} in {env} is {got.value}, should be {want}")
        obs.n("environments judged")
        obs.state("environments", tuple(values))

    def history(self, ops, obs):
        from slate import ColorSpace, Terminal, get_color_space

        env = self.set_env([None, None, None, "xterm"])
        terms = [Terminal(stream=io.StringIO()) for _ in range(3)]
        forced = [None] * 3
        logs, expected = [[] for _ in terms], [[] for _ in terms]
        listeners = [0] * 3
        boom = [False]
        for kind, *args in ops:
            if kind == "boom":
                boom[0] = True
            elif kind == "env":
                env = self.set_env(args)
            elif kind in ("force", "clear"):
                t = args[0]
                new = ColorSpace(args[1]) if kind == "force" else None
                try:
                    terms[t].color_space = new
                except Boom:
                    obs.n("listeners raising")
                forced[t] = new
                obs.n("forced" if new else "cleared overrides")
                expected[t] += [(i, new and new.value) for i in range(listeners[t])]
            elif kind == "listen":
                t = args[0]
                i = listeners[t]
                listeners[t] += 1

                def listener(data, t=t, i=i):
                    logs[t].append((i, data and data.value))
                    used = terms[t].color_space.value
                    if used != (data.value if data is not None else reference(env)):
                        raise Violation(f"told of {data}, a listener finds {used} in use")
                    obs.n("queries by listeners")
                    if boom[0] and i == listeners[t] - 1:
                        boom[0] = False
                        raise Boom
                    return i % 2 == 0

                terms[t].on_color_space_set += listener
            for t, term in enumerate(terms):
                want = forced[t].value if forced[t] is not None else reference(env)
                got = term.color_space
                if got.value != want:
                    raise Violation(f"color space after {kind} {args} is {got.value}, should be {want}")
            if get_color_space().value != reference(env):
                raise Violation(f"get_color_space() is {get_color_space().value} in {env}")
            if logs != expected:
                raise Violation(f"listeners saw {logs}, should have seen {expected}")
            obs.n("notifications")
        obs.n("listeners called", sum(map(len, logs)))
        obs.state("histories", str(ops))

    def compare(self, obs):
        from slate import ColorSpace

        full = {">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne,
                "<": operator.lt, "<=": operator.le}
        for i, a in enumerate(ORDER):
            for j, b in enumerate(ORDER):
                for name, op in full.items():
                    pairs = [(ColorSpace(a), ColorSpace(b))]
                    if name in (">", ">=", "==", "!="):
                        pairs.append((ColorSpace(a), b))
                    if name in ("<", "<=", "==", "!="):
                        pairs.append((a, ColorSpace(b)))
                    for x, y in pairs:
                        obs.n("comparisons")
                        got = op(x, y)
                        if got is not op(i, j):
                            raise Violation(f"{x!r} {name} {y!r} is {got}")
            if len({ColorSpace(a), ColorSpace(a)}) != 1 or {ColorSpace(a): 1}.get(a) != 1:
                raise Violation(f"{a!r} is not one key of a dictionary")
            for other in (None, 0, 1.5, b"standard", (), object(), "", "foo", "true color",
                          a.upper(), a + " ", a[:-1]):
                obs.n("comparisons")
                if ColorSpace(a) == other or not ColorSpace(a) != other:
                    raise Violation(f"{a!r} equals {other!r}")


CHECK = C17()
