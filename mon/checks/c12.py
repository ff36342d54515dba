"""C12: equality of values, and answers that do not depend on what was asked before.

Each case runs in two forked processes with cold caches: one asks shared objects in order
(every question twice), the other asks freshly built objects in another order.
"""

import json
import os
import random

import gen
from common import Check, Violation


def describe(value):
    """Plain data for any answer."""

    from slate import Color, Span

    if isinstance(value, Color):
        return ["color", list(value.rgb), value.alpha, value.is_background, value.hex, value.ansi]
    if isinstance(value, Span):
        return ["span", str(value), value.text, value.hyperlink]
    if isinstance(value, (list, tuple)):
        return [describe(v) for v in value]
    if isinstance(value, dict):
        return {k: describe(v) for k, v in value.items()}
    return value


def build(spec):
    if spec["what"] == "span":
        return gen.build_span(spec["span"])
    c = gen.build_color(spec["col"], spec["bg"])
    if spec.get("alpha") is not None:
        c = gen.with_alpha(c, spec["alpha"], spec.get("ak", 0))
    return c


def ask(obj, q, objs):
    kind, args = q[1], q[2:]
    if kind == "blend":
        return obj.blend(objs(args[0]), args[1])
    if kind == "blendlayer":
        return obj.blend(objs(args[0]), args[1], is_background=args[2])
    if kind in ("lighten", "darken"):
        return getattr(obj, kind)(args[0], args[1])
    if kind in ("hue_shift", "as_alpha", "as_background", "blend_complement"):
        return getattr(obj, kind)(args[0])
    if kind == "chars":
        return list(obj.get_characters(exclude_color=args[0], always_include_sequence=args[1]))
    if kind == "str":
        return str(obj)
    if kind == "slice":
        return obj[args[0]:args[1]]
    if kind == "svg":
        return obj.as_svg(inline_styles=True)
    if kind == "css":
        return obj.get_svg_styles()
    if kind == "split":
        return obj.split(args[0])
    if kind == "attrs":
        return obj.attrs
    return getattr(obj, kind)


def snapshot(obj):
    from slate import Span
    if isinstance(obj, Span):
        return describe([str(obj), obj.attrs, obj.reset_after])
    return describe([obj, obj.luminance, obj.brightness, list(obj.hls)])


def shared_run(case):
    objs = [build(s) for s in case["objs"]]
    before = [snapshot(o) for o in objs] if case["snap"] else None
    answers = []
    for q in case["queries"]:
        a = describe(ask(objs[q[0]], q, lambda i: objs[i]))
        b = describe(ask(objs[q[0]], q, lambda i: objs[i]))
        if a != b:
            return {"twice": [q, a, b]}
        answers.append(a)
    if before is not None:
        after = [snapshot(o) for o in objs]
        if after != before:
            return {"changed": [[b, a] for b, a in zip(before, after) if a != b][:1]}
    again = [describe(ask(objs[q[0]], q, lambda i: objs[i])) for q in case["queries"]]
    for q, a, b in zip(case["queries"], answers, again):
        if a != b:
            return {"twice": [q, a, b]}
    return {"answers": answers}


def fresh_run(case):
    order = list(range(len(case["queries"])))
    random.Random(case["order"]).shuffle(order)
    answers = [None] * len(order)
    for i in order:
        q = case["queries"][i]
        answers[i] = describe(ask(build(case["objs"][q[0]]), q, lambda k: build(case["objs"][k])))
    return {"answers": answers}


def forked(fn, case):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                import slate
                slate.terminal.color_space = slate.ColorSpace[case.get("space", "TRUE_COLOR")]
                out = fn(case)
            except Exception as exc:  # pylint: disable=broad-except
                out = {"raised": f"{type(exc).__name__}: {exc}"}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


class C12(Check):
    id = "C12"
    quick, thorough = 16000, 200000
    required = ("pairs of colours compared", "equal pairs", "pairs of spans compared",
                "equal spans", "questions asked", "blends", "character queries", "hashes compared")
    rule = ("pools of colours and spans close to each other (same value from different descriptions,"
            " same RGB on both layers, one attribute apart), all pairs compared; 5-30 questions asked"
            " of shared objects (thrice) and of fresh objects in another order, in processes with"
            " cold caches; non-trivial: two objects or more")
    assumptions = ["the colour space is set before any question and stays the same"]

    def setup(self):
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def enumerated(self, tier):
        """More objects than a cache would hold, asked again when it is full."""

        out = []
        for seed in range(8 if tier == "quick" else 60):
            rng = random.Random(seed)
            n = rng.choice([150, 300, 600, 1200])
            objs, queries = [], []
            for i in range(n):
                if rng.random() < 0.6:
                    objs.append({"what": "color", "col": ["rgb", i % 256, i // 256, rng.randrange(256)],
                                 "bg": rng.random() < 0.3})
                else:
                    objs.append({"what": "span", "span": {
                        "t": f"s{i}", "s": gen.styles(rng), "fg": ["rgb", i % 256, i // 256, 9],
                        "bg": None}})
            for i in rng.sample(range(n), n):
                k = (rng.choice(["ansi", "contrast", "complement", "hex", "triadic_group"])
                     if objs[i]["what"] == "color" else "chars")
                queries.append([i, k] + ([rng.random() < 0.5, rng.random() < 0.5]
                                         if k == "chars" else []))
            out.append({"objs": objs, "queries": queries, "order": seed, "snap": seed % 2 == 0,
                        "space": rng.choice(["TRUE_COLOR", "EIGHT_BIT", "STANDARD", "NO_COLOR"])})
        return out

    def generate(self, rng, tier, index):
        values = [gen.rgb(rng) for _ in range(rng.randint(1, 3))]
        values.append([(v + rng.choice([0, 1])) % 256 for v in values[0]])
        objs = []
        for _ in range(rng.randint(2, 6)):
            v = rng.choice(values)
            kind = rng.choice(["rgb", "hex", "ansirgb", "std", "idx", "name"])
            col = [kind, *v]
            if kind in ("std", "idx"):
                col = [kind, rng.randrange(16)]
                if rng.random() < 0.5:
                    col = ["rgb", *gen.PALETTE[col[1]]]
            elif kind == "name":
                col = ["name", rng.choice(["red", "tomato", "black", "gray", "grey"])]
                if rng.random() < 0.3:
                    col = ["hex", *gen.CSS[col[1]]]
            objs.append({"what": "color", "col": col, "bg": rng.random() < 0.4})
            if rng.random() < 0.3:
                objs[-1]["alpha"], objs[-1]["ak"] = rng.choice(
                    [0.0, 0.5, 0.25, 1.0, 0.501, 0.254, 0.999, 0.5 + 1e-5, 0.5 + 1e-9, 1 - 1e-9, 1e-9]), rng.randrange(4)
        ncol = len(objs)
        base = gen.Palette(rng, newline=False, hi=4).span()
        for _ in range(rng.randint(0, 4)):
            s = dict(base)
            r = rng.random()
            if r < 0.2:
                s["t"] = gen.text(rng, 0, 4)
            elif r < 0.45:
                s["s"] = gen.styles(rng)
            elif r < 0.55:
                s["fg"] = rng.choice([None, *(o["col"] for o in objs[:ncol])])
            elif r < 0.65:
                s["bg"] = rng.choice([None, *(o["col"] for o in objs[:ncol])])
            elif r < 0.75:
                s["noreset"] = not s.get("noreset")
            elif r < 0.82:
                s["link"] = "" if s.get("link") else "http://q"
            elif r < 0.9:
                s["opaque"] = not s.get("opaque")
            objs.append({"what": "span", "span": s})
        queries = []
        for _ in range(rng.randint(5, 30)):
            i = rng.randrange(len(objs))
            if i < ncol:
                k = rng.choice(["ansi", "contrast", "complement", "triadic_group", "analogous_group",
                                "tetradic_group", "blend", "blend", "blend", "blendlayer", "lighten",
                                "darken", "hue_shift", "as_alpha", "as_background",
                                "blend_complement", "hex", "luminance"])
                frac = rng.choice([0, 1, 0.0, 1.0, 0.5, 0.25, True])
                args = {"blend": [rng.randrange(ncol), frac],
                        "blendlayer": [rng.randrange(ncol), frac, rng.random() < 0.5],
                        "lighten": [rng.randint(0, 4), rng.choice([0.1, 0.25])],
                        "darken": [rng.randint(0, 4), rng.choice([0.1, 0.25])],
                        "hue_shift": [rng.choice([0.5, 1 / 3, 0.1])], "as_alpha": [frac],
                        "as_background": [rng.random() < 0.5], "blend_complement": [frac]}.get(k, [])
            else:
                k = rng.choice(["str", "chars", "chars", "chars", "slice", "svg", "css", "split",
                                "attrs"])
                args = {"chars": [rng.random() < 0.5, rng.random() < 0.5],
                        "slice": [rng.choice([None, 0, 1]), rng.choice([None, 1, -1])],
                        "split": [" "]}.get(k, [])
            queries.append([i, k, *args])
        return {"objs": objs, "queries": queries, "order": rng.randrange(1 << 30),
                "snap": rng.random() < 0.5,
                "space": rng.choice(["TRUE_COLOR", "TRUE_COLOR", "EIGHT_BIT", "EIGHT_BIT",
                                     "STANDARD", "NO_COLOR"])}

    def nontrivial(self, case):
        return len(case["objs"]) > 1

    def execute(self, case, obs):
        shared, fresh = forked(shared_run, case), forked(fresh_run, case)
        for which, out in (("shared", shared), ("fresh", fresh)):
            if "raised" in out:
                raise Violation(f"raised ({which} objects): {out['raised']}")
            if "twice" in out:
                raise Violation(f"unstable answer: {out['twice']}")
            if "changed" in out:
                raise Violation(f"an object changed: {out['changed']}")
        for q, a, b in zip(case["queries"], shared["answers"], fresh["answers"]):
            obs.n("questions asked")
            obs.n("blends", q[1].startswith("blend"))
            obs.n("character queries", q[1] == "chars")
            if a != b:
                raise Violation(f"answer depends on earlier questions: {q} of"
                                f" {case['objs'][q[0]]} gave {a} and, asked fresh, {b}")
        obs.state("colour spaces", case.get("space", "TRUE_COLOR"))
        obs.state("answers", json.dumps(shared["answers"]))
        if len(case["objs"]) < 100:
            self.equality(case, obs)

    def equality(self, case, obs):
        objs = [(s, build(s)) for s in case["objs"]]
        for sa, a in objs:
            for sb, b in objs:
                if sa["what"] != sb["what"]:
                    if a == b:
                        raise Violation(f"{a!r} equals {b!r}")
                    continue
                if a == b:
                    obs.n("hashes compared", a is not b)
                    if hash(a) != hash(b) or b not in {a}:
                        raise Violation(f"{sa} and {sb} are equal, but not the same key of a set")
                if sa["what"] == "color":
                    obs.n("pairs of colours compared")
                    want = (gen.spec_rgb(sa["col"]), 1.0 if sa.get("alpha") is None else sa["alpha"]) \
                        == (gen.spec_rgb(sb["col"]), 1.0 if sb.get("alpha") is None else sb["alpha"])
                    obs.n("equal pairs", want)
                else:
                    obs.n("pairs of spans compared")
                    keys = ("t", "s", "fg", "bg", "link", "noreset", "opaque")
                    same = all((sa["span"].get(k) or None) == (sb["span"].get(k) or None)
                               for k in keys)
                    col = lambda s, k: gen.spec_rgb(s["span"][k])
                    if not same and all(
                            (sa["span"].get(k) or None) == (sb["span"].get(k) or None)
                            if k not in ("fg", "bg") else col(sa, k) == col(sb, k) for k in keys):
                        continue  # same colours differently described: either answer
                    want = same
                    obs.n("equal spans", want)
                if (a == b) is not want or (a != b) is want:
                    raise Violation(f"equality of {sa} and {sb} is {a == b}, != is {a != b}")
            for other in (None, 3, "x", (1, 2, 3), sa.get("col") and tuple(gen.spec_rgb(sa["col"]))):
                if (a == other) is not False or (a != other) is not True:
                    raise Violation(f"{a!r} equals {other!r}")


CHECK = C12()
