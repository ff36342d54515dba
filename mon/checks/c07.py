"""C07: stacks of translucent layers in one bulk write, judged by interval propagation."""

import gen
from common import Check, Violation
from lab import Model, Session


MORE = 0.1  # a layer covers up to a tenth more than its alpha


class C07(Check):
    id = "C07"
    quick, thorough = 180000, 2500000
    required = ("cells judged", "translucent layers", "bleeding characters", "opaque blanks",
                "hidden stacks", "translucent text", "stacks of three or more",
                "single translucent layers on the terminal background", "scrolled stacks")
    rule = ("bulk writes of 1-6 overlapping layers (opaque, translucent, without background; blanks,"
            " text, opaque-marked blanks; random colours and alphas) over random prior content and"
            " terminal backgrounds, plus a grid of two-layer stacks; every cell's colours must lie in"
            " the interval its layers allow; non-trivial: a translucent layer over another")
    assumptions = ["true color", "tolerance of one channel step per blend (integer colours)",
                   "two equal layers in a row may count as one"]

    def enumerated(self, tier):
        out = []
        cols = ([0, 0, 0], [255, 255, 255], [200, 30, 90], [17, 180, 44])
        alphas = (0.0, 0.05, 0.5, 0.9, 0.95)
        for base in (None, *cols):
            for c in cols:
                for a in alphas:
                    for t in ("A", " "):
                        for fg in (None, [250, 10, 10]):
                            out.append({"w": 3, "h": 1, "tbg": [20, 60, 200], "prior": [], "items": [
                                {"pos": [0, 0], "spans": [{"t": "xy", "s": [], "fg": fg and ["rgb", *fg],
                                                          "bg": base and ["rgb", *base]}]},
                                {"pos": [0, 0], "spans": [{"t": t * 3, "s": [], "fg": None,
                                                          "bg": ["rgb", *c], "bga": a}]}]})
        return out

    def generate(self, rng, tier, index):
        w, h = rng.randint(1, 7), rng.randint(1, 3)
        cols = [["rgb", *gen.rgb(rng)] for _ in range(rng.randint(2, 4))]
        alphas = [rng.choice([0.0, 0.1, 0.25, 0.5, 0.75, 0.89, 0.9, 0.91, 0.99,
                              round(rng.random(), 3)]) for _ in range(2)]
        texts = [" " * rng.randint(1, 4), gen.text(rng, 1, 4), "a b", "  x"]

        def span():
            s = {"t": rng.choice(texts), "s": rng.choice([[], [], ["bold"], ["underline", "dim"]]),
                 "fg": rng.choice([None, *cols]), "bg": None, "ak": rng.randrange(4)}
            r = rng.random()
            if r < 0.6:
                s["bg"], s["bga"] = rng.choice(cols), rng.choice(alphas)
            elif r < 0.85:
                s["bg"] = rng.choice(cols)
            if s["fg"] and rng.random() < 0.3:
                s["fga"] = rng.choice(alphas)
            if rng.random() < 0.15:
                s["opaque"] = True
            return s

        items = [{"pos": [rng.choice([0, 0, rng.randrange(w)]), rng.choice([0, rng.randrange(h)])],
                  "spans": [span() for _ in range(rng.randint(1, 2))]}
                 for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.01:
            # as many layers as one likes, all of which still show
            n = rng.randint(10, 80)
            items = [{"pos": [0, 0], "spans": [
                {"t": rng.choice(texts), "s": [], "fg": rng.choice([None, *cols]), "ak": 0,
                 "bg": rng.choice(cols[:2] if k < n // 2 else cols[1:]),
                 "bga": rng.choice([0.1, 0.15, 0.2, 0.3])}]} for k in range(n)]
            if rng.random() < 0.8:
                del items[0]["spans"][0]["bga"]
        if rng.random() < 0.1:
            # below the last row: the screen scrolls in the middle of the bulk
            items[rng.randrange(len(items))]["pos"][1] = h + rng.randrange(2)
        prior = [{"pos": [0, 0], "spans": [
            {"t": gen.text(rng, 1, w * h), "s": [], "fg": None, "bg": rng.choice([None, *cols])}]}
        ] if rng.random() < 0.5 else []
        case = {"w": w, "h": h, "tbg": gen.rgb(rng), "prior": prior, "items": items}
        if rng.random() < 0.25:
            case["kind"] = "terminal"
        if len(items) == 1 and rng.random() < 0.7:
            case["single"] = True  # through write() instead of write_bulk()
        return case

    def nontrivial(self, case):
        return len(case["items"]) > 1 and any(
            s.get("bga") is not None for i in case["items"][1:] for s in i["spans"])

    def valid(self, case):
        return case["w"] > 0 and case["h"] > 0 and len(case["tbg"]) == 3 and len(case["items"]) > 0

    def execute(self, case, obs):
        from slate import Color

        s = Session({"w": case["w"], "h": case["h"], "kind": case.get("kind", "screen")}, obs)
        kwargs = {}
        tbg = tuple(case["tbg"])
        if s.terminal is None:
            kwargs["terminal_background"] = Color(tbg, is_background=True)
        else:
            tbg = s.terminal.background_color.rgb
        for i in case["prior"]:
            s.target.write([gen.build_span(x) for x in i["spans"]], cursor=tuple(i["pos"]), **kwargs)
        if case["prior"]:
            s.draw()
        data = [(tuple(i["pos"]), [gen.build_span(x) for x in i["spans"]]) for i in case["items"]]
        if case.get("single") and len(data) == 1:
            s.target.write(data[0][1], cursor=data[0][0], **kwargs)
        else:
            s.target.write_bulk(data, **kwargs)
        stacks = {}
        m = Model(case["w"], case["h"])
        for i in case["items"]:
            chars = [(ch, x) for x in i["spans"] for ch in x["t"]]
            covered, n = m.place(tuple(i["pos"]), chars)
            if n:
                stacks = {(x, y - n): v for (x, y), v in stacks.items() if y >= n}
                obs.n("scrolled stacks", bool(stacks))
            for p, layer in covered.items():
                stacks.setdefault(p, []).append(layer)
        s.draw()
        s.check_clean()
        region = s.region()
        for (x, y), layers in stacks.items():
            self.judge(region[y][x], layers, tbg, obs, f"cell {x},{y}")

    def judge(self, got, layers, tbg, obs, where):
        obs.n("cells judged")
        ch, styles, fg, bg = got
        state = None
        for char, sp in layers:
            alpha = sp.get("bga")
            translucent = sp["bg"] is not None and alpha is not None and alpha != 1.0
            if state is None or not translucent:
                if state and state["stack"]:
                    obs.n("hidden stacks")
                state = {"char": char, "sp": sp, "stack": [], "bleed": False, "since": 0,
                         "base": gen.spec_rgb(sp["bg"]), "alpha": alpha if translucent else 1.0}
            else:
                obs.n("translucent layers")
                state["stack"].append((gen.spec_rgb(sp["bg"]), alpha))
                if char.strip() == "" and not sp.get("opaque"):
                    state["bleed"] = True
                else:
                    obs.n("opaque blanks", char.strip() == "")
                    state.update(char=char, sp=sp, bleed=False, since=len(state["stack"]))
        base, stack, sp = state["base"], state["stack"], state["sp"]
        obs.n("stacks of three or more", len(layers) >= 3)
        if ch != state["char"]:
            raise Violation(f"{where} shows {ch!r}, should show {state['char']!r}")
        if styles != frozenset(sp["s"]):
            raise Violation(f"{where} has styles {sorted(styles)}, should have {sp['s']}")

        # -- background
        if base is None and not stack:
            if bg is not None:
                raise Violation(f"{where} has background {bg}, none was written")
        elif base is not None and state["alpha"] == 1.0 and not stack:
            if bg != base:
                raise Violation(f"{where} has background {bg}, the opaque layer is {base}")
        else:
            if bg is None:
                raise Violation(f"{where} lost its translucent background")
            # the bottom translucent layer may count as opaque where others lie over it
            several = len(set(stack) - {(base, state["alpha"])}) > (base is None)
            for k in range(3):
                if base is None:
                    lo = hi = tbg[k]
                elif state["alpha"] == 1.0:
                    lo = hi = base[k]
                else:
                    lo, hi = move(tbg[k], tbg[k], base[k], state["alpha"],
                                  1.0 if several else state["alpha"] + MORE)
                    obs.n("single translucent layers on the terminal background", not stack and k == 0)
                previous = (base, state["alpha"]) if base is not None else None
                for i, (c, a) in enumerate(stack):
                    lo, hi = move(lo, hi, c[k], 0.0 if (c, a) == previous else a,
                                  1.0 if several and base is None and i == 0 else a + MORE)
                    previous = (c, a)
                tol = 1
                if not lo - tol <= bg[k] <= hi + tol:
                    raise Violation(f"{where} background {bg} is out of range [{lo:.1f}, {hi:.1f}] in"
                                    f" channel {k}: base {base} alpha {state['alpha']} on {tbg},"
                                    f" layers {stack}")

        # -- foreground
        own, fga = gen.spec_rgb(sp["fg"]), sp.get("fga")
        if state["char"].strip() == "":
            return
        if state["bleed"]:
            obs.n("bleeding characters")
            if fg is None and own is None:
                if len({*stack, (base, state["alpha"])}) > 1:
                    raise Violation(f"{where} text shows through {stack} without a colour")
                return
            if fg is None:
                raise Violation(f"{where} lost its text colour {own} under {stack}")
            for k in range(3):
                lo = hi = (own or (255, 255, 255))[k]
                previous = (base, state["alpha"]) if base is not None else None
                for i, (c, a) in enumerate(stack):
                    # layers below the character may or may not count
                    low = i < state["since"] or (c, a) == previous
                    lo, hi = move(lo, hi, c[k], 0.0 if low else a, a + MORE)
                    previous = (c, a)
                if fga is not None:
                    lo, hi = move(lo, hi, bg[k], 0.0, 1.0)
                tol = 1
                if not lo - tol <= fg[k] <= hi + tol:
                    raise Violation(f"{where} text colour {fg} is out of range [{lo:.1f}, {hi:.1f}]"
                                    f" in channel {k}: own {own}, layers {stack}")
        elif own is None:
            if fg is not None:
                raise Violation(f"{where} has text colour {fg}, none was written")
        elif fga is None or fga == 1.0:
            if fg != own:
                raise Violation(f"{where} has text colour {fg}, written was {own}")
        elif bg is not None:
            obs.n("translucent text")
            for k in range(3):
                want = bg[k] + (own[k] - bg[k]) * fga
                if fg is None or abs(fg[k] - want) > 1.5:
                    raise Violation(f"{where} translucent text {own} alpha {fga} on {bg} is {fg}")
        elif fg is None:
            raise Violation(f"{where} lost its text colour")
        obs.state("results", got)


def move(lo, hi, target, least, most):
    """Where a channel in [lo, hi] can be after moving towards target by a fraction in [least, most]."""

    ends = [v + (target - v) * f for v in (lo, hi) for f in (least, min(most, 1.0))]
    # and to within rounding
    return min(ends) - 1, max(ends) + 1


CHECK = C07()
