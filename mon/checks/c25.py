"""C25: event emission versus a list model."""

import functools

from common import Check, Violation

VALUES = [None, 0, "", False, (), (80, 24), "text", {"a": 1}, 3.5]


class Boom(Exception):
    pass


AGAIN = ["emitted by a listener of the same event"]
OBJECT, EVENT = object(), "an event with a listener, which is true"


class C25(Check):
    id = "C25"
    quick, thorough = 260000, 5000000
    required = ("emissions", "calls", "exceptions propagated", "refused", "clears",
                "registered more than once", "true results", "false results", "nested emissions",
                "events as listeners", "many listeners", "odd return values", "emitted while being emitted")
    rule = ("random histories of registrations (operator and method), clears, refused non-callables and"
            " emissions on three events; listeners are functions, bound methods, partials, classes,"
            " falsy callables and other events, returning every kind of value, raising, or emitting"
            " another event or the same one; non-trivial: an emission with two listeners or more")
    assumptions = ["listeners do not change the event while it is being emitted"]

    def enumerated(self, tier):
        out = []
        for n in (100, 300, 1100) if tier == "quick" else (100, 300, 1100, 5000, 20000):
            adds = [["add", "append"][i % 2] for i in range(n)]
            for mix in ((0,), (0, 1), (1, 0, 0, 2)):
                ops = [[k, 0, mix[i % len(mix)]] for i, k in enumerate(adds)]
                out.append({"ops": ops + [["emit", 0, 0], ["emit", 0, 3], ["clear", 0], ["emit", 0, 1]]})
        return out

    def generate(self, rng, tier, index):
        ops = []
        many = rng.random() < 0.03
        for _ in range(rng.randint(20, 60) if many else rng.randint(2, 16)):
            e = rng.randrange(3)
            k = rng.choice(["add", "add", "append", "append", "emit", "emit", "emit", "clear", "bad",
                            "badappend", "bool"])
            if many:
                e, k = 0, rng.choice(["add", "append", "add", "append", "add", "emit"])
            if k == "clear" and rng.random() < 0.5:
                k = "add"
            if k in ("add", "append"):
                ops.append([k, e, rng.randrange(len(RETURNS) + (3 if many else 4))])
                if many and ops[-1][2] == 6:
                    ops[-1][2] = 0
            elif k.startswith("bad"):
                ops.append([k, e, rng.randrange(5)])
            elif k == "emit":
                ops.append([k, e, rng.randrange(len(VALUES) + 3)])
            else:
                ops.append([k, e])
        return {"ops": ops}

    def nontrivial(self, case):
        return sum(o[0] in ("add", "append") for o in case["ops"]) > 1

    def execute(self, case, obs):
        from slate import Event

        log = []
        events = [Event(f"event {i % 2}") for i in range(3)]
        model = [[], [], []]

        def call(i, data):
            log.append((i, data))
            if i == NEST:
                # emits the last event, whose listeners never emit themselves
                got = events[2]("nested")
                log.append(("nested", bool(got)))
                return got
            if RETURNS[i] is Boom:
                raise Boom(i)
            if RETURNS[i] is EVENT:
                return inner
            return RETURNS[i]

        class Holder:
            def __init__(self, i):
                self.i = i

            def method(self, data):
                return call(self.i, data)

            def __eq__(self, other):  # all alike
                return isinstance(other, Holder)

            __hash__ = None

        class Falsy(Holder):
            def __call__(self, data):
                return call(self.i, data)

            def __bool__(self):
                return False

        def function(i):
            return lambda data: call(i, data)

        kinds = [function, lambda i: Holder(i).method, lambda i: functools.partial(call, i), Falsy]
        listeners = [kinds[i % len(kinds)](i) for i in range(len(RETURNS))]
        depth = 0

        def again(e):
            """A listener that emits its own event again, once or twice deep."""

            def listener(data):
                nonlocal depth
                log.append(("again", data))
                if depth > 1:
                    return False
                depth += 1
                try:
                    got = events[e](AGAIN)
                finally:
                    depth -= 1
                log.append(("nested", bool(got)))
                return got
            return listener

        agains = [again(e) for e in range(3)]
        inner = Event("inner")  # as a listener; has one listener itself
        inner += function(INNER)
        empty = Event("event 0")  # likewise; has none
        serial = 0

        def expect(e, data, want, deep=0):
            """What an emission should do; returns (raised, result)."""

            result = False
            for i in model[e]:
                if i == "empty":
                    continue
                if i == "again":
                    want.append(("again", data))
                    if deep > 1:
                        continue
                    obs.n("emitted while being emitted")
                    raised, res = expect(e, AGAIN, want, deep + 1)
                    if raised is not None:
                        return raised, None
                    want.append(("nested", res))
                    result = result or res
                    continue
                if i == "event":
                    want.append((INNER, data))
                    result = result or bool(RETURNS[INNER])
                    continue
                want.append((i, data))
                if i == NEST:
                    raised, res = expect(2, "nested", want, deep)
                    if raised is not None:
                        return raised, None
                    want.append(("nested", res))
                    result = result or res
                    continue
                if RETURNS[i] is Boom:
                    return i, None
                result = result or bool(RETURNS[i])
            return None, result

        for kind, e, *args in case["ops"]:
            log.clear()
            if kind in ("add", "append"):
                i = args[0]
                if i == NEST + 3:
                    if model[e].count("again") > 1:
                        continue
                    i, fn = "again", agains[e]
                elif i == NEST + 2:
                    i, fn = "empty", empty
                    obs.n("events as listeners")
                elif i > NEST or (i == NEST and e == 2):
                    i, fn = "event", inner
                    obs.n("events as listeners")
                else:
                    fn = listeners[i]
                    obs.n("odd return values", not isinstance(RETURNS[i], (bool, type(None), type)))
                if kind == "add":
                    before = events[e]
                    events[e] += fn
                    if events[e] is not before:
                        raise Violation("+= replaced the event")
                else:
                    got = events[e].append(fn)
                    if got is not fn:
                        raise Violation(f"append returned {got!r}")
                model[e].append(i)
            elif kind == "clear":
                events[e].clear()
                model[e].clear()
                obs.n("clears")
            elif kind.startswith("bad"):
                obs.n("refused")
                keep = events[e]
                bad = [None, 3, "x", [], object()][args[0]]
                try:
                    if kind == "bad":
                        events[e] += bad
                    else:
                        events[e].append(bad)
                except (ValueError, TypeError):
                    pass
                else:
                    raise Violation(f"a non-callable was accepted ({kind} {bad!r})")
                if events[e] is not keep:
                    raise Violation("a refused += replaced the event")
            elif kind == "emit":
                serial += 1
                data = VALUES[args[0]] if args[0] < len(VALUES) else ["data", serial]
                want = []
                raised, result = expect(e, data, want)
                obs.n("emissions")
                obs.n("many listeners", len(model[e]) > 12)
                obs.n("nested emissions", ("nested", True) in want or ("nested", False) in want)
                obs.n("registered more than once", len(set(model[e])) < len(model[e]))
                try:
                    got = events[e](data)
                except Boom as exc:
                    if exc.args[0] != raised:
                        raise Violation(f"emission raised for listener {exc.args[0]}, should have"
                                        f" for {raised}") from None
                    obs.n("exceptions propagated")
                else:
                    if raised is not None:
                        raise Violation("a listener's exception was swallowed")
                    if bool(got) is not result:
                        raise Violation(f"emission to {model[e]} returned {got!r}, should be {result}")
                    obs.n("true results" if result else "false results")
                obs.n("calls", len(log))
                if log != want:
                    raise Violation(f"listeners called: {log}, should be {want}")
                if any(a[1] is not b[1] for a, b in zip(log, want) if a[0] != "nested"):
                    raise Violation("a listener was given a copy of the emitted value")
                log.clear()
            if log:
                raise Violation(f"{kind} called listeners {log}")
            for i in range(3):
                if bool(events[i]) is not bool(model[i]):
                    raise Violation(f"event with {len(model[i])} listeners is {bool(events[i])}")
            if not inner:
                raise Violation("an event lost its listener")
        obs.state("final listeners", str(model))


# what each listener returns; number 6 raises, the last but one emits, the last is an event's own
RETURNS = [True, False, None, True, False, True, Boom, 1, 0, "yes", "", [], [0], OBJECT, EVENT, False,
           None, False]
INNER = len(RETURNS) - 3
NEST = len(RETURNS) - 1

CHECK = C25()
