"""C10: measured width versus cells printed by the emulator and covered on a screen."""

import random

import gen
from checks.c09 import code
from common import Check, Violation
from vt import VT


def serialize(tokens):
    out = ""
    for kind, *args in tokens:
        if kind == "t":
            out += args[0]
        elif kind == "link":
            out += (f"\x1b]8;{args[1] if len(args) > 1 else ''};{args[0]}"
                    + ("\a" if len(args) > 2 and args[2] else "\x1b\\"))
        elif kind == "osc":
            out += f"\x1b]{args[0]}"
        elif kind == "csi":
            out += f"\x1b[{args[0]}"
        elif kind == "gfx":
            out += f"\x1b_G{args[0]}\x1b\\"
        elif kind == "cup":
            out += f"\x1b[{args[0]}H"
        else:
            out += f"\x1b[{';'.join(args)}m"
    return out


class C10(Check):
    id = "C10"
    quick, thorough = 480000, 5000000
    required = ("widths judged", "spans judged", "screen widths judged", "cursor sequences",
                "graphics payloads", "links", "other sequences")
    rule = ("random strings of text, SGR, cursor-position, OSC 8, graphics and other control sequences, and random"
            " spans; non-trivial: at least one sequence and one visible character")
    assumptions = ["single-column printable characters, no newline"]

    def setup(self):
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def enumerated(self, tier):
        out = []
        for n in (500, 1500, 5000):
            out.append({"tokens": [["sgr", "1"], ["t", "ab"], ["sgr", "0"], ["t", "c"]] * n})
            out.append({"tokens": [["link", "https://e.org", ""], ["t", "x"], ["link", "", ""]] * n})
        for seed in range(60 if tier == "quick" else 1000):
            rng = random.Random(seed)
            tokens = []
            for _ in range(rng.randint(1, 300)):
                r = rng.random()
                tokens.append(["t", gen.text(rng, 1, 8)] if r < 0.5 else ["sgr", *code(rng)]
                              if r < 0.8 else ["link", "h" * rng.choice([0, 5, 3000]), ""]
                              if r < 0.9 else ["gfx", "a=T;" + "mH;=" * rng.choice([1, 100, 2000])])
            if seed % 2:
                tokens = [t for t in tokens if t[0] != "gfx"]
                tokens.append(["t", gen.text(rng, 100, 3000)])
            out.append({"tokens": tokens})
            out.append({"span": {"t": gen.text(rng, 100, 20000), "s": ["bold"], "fg": None,
                                 "bg": ["idx", 3]}})
        return out

    def generate(self, rng, tier, index):
        if rng.random() < 0.3:
            pal = gen.Palette(rng, newline=False, hi=rng.choice([2, 12, 60]))
            s = pal.span()
            if rng.random() < 0.05:
                s["t"] = ""
            return {"span": s}
        tokens = []
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            if r < 0.5:
                tokens.append(["t", gen.text(rng, 1, 8)])
            elif r < 0.75:
                seq = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    seq += code(rng)
                tokens.append(["sgr", *seq])
            elif r < 0.83:
                tokens.append(["cup", rng.choice(["", "1;1", "3;7", "24;80", "2"])])
            elif r < 0.86:
                tokens.append(["csi", rng.choice([
                    "2J", "K", "1K", "3A", "12B", "C", "5D", "2E", "F", "7G", "2;5f", "4d", "?25l",
                    "?25h", "?1049h", "?2026l", "2 q", "!p", ">c", "6n", "c", "1;5r", "s", "u", "3L",
                    "M", "4P", "2X", "@", "5b", "14t", "22;0t", "1~"])])
            elif r < 0.88:
                tokens.append(["osc", rng.choice(["0;a title\a", "2;mH\x1b\\", "11;?\x1b\\",
                                                  "52;c;aGk=\a"])])
            elif r < 0.93:
                tokens.append(["link", rng.choice(["", "https://e.org/a?b=1&c=[d]m", "x;y", "H"]),
                               rng.choice(["", "", "id=1"]), rng.random() < 0.3])
            else:
                tokens.append(["gfx", rng.choice(["a=T,f=100;aGVsbG8=", "a=d", "i=1;mHm==", ""])])
        return {"tokens": tokens}

    def nontrivial(self, case):
        if "span" in case:
            return bool(case["span"]["t"])
        return len({t[0] for t in case["tokens"]}) > 1

    def valid(self, case):
        return "span" in case or all(
            len(t) > 1 and (t[0] != "osc" or t[1].endswith(("\a", "\x1b\\")))
            and (t[0] != "csi" or t[1] and "@" <= t[1][-1] <= "~") for t in case["tokens"])

    def execute(self, case, obs):
        from slate import Screen, width

        if "span" in case:
            span = gen.build_span(case["span"])
            want = len(case["span"]["t"])
            obs.n("spans judged")
            for what, got in (("the span", width(span)), ("its printed form", width(str(span))),
                              ("its length", len(span))):
                if got != want:
                    raise Violation(f"width of {what} is {got}, {span!r} occupies {want} cells")
            items = [span]
        else:
            line = serialize(case["tokens"])
            want = sum(len(t[1]) for t in case["tokens"] if t[0] == "t")
            vt = VT(max(100, want), 30)
            vt.feed(serialize([t for t in case["tokens"] if t[0] not in ("csi", "osc")]))
            vt.finish()
            if len(vt.painted) != want or vt.anomalies:
                raise AssertionError(f"emulator: {vt.anomalies} {len(vt.painted)} {want}")
            got = width(line)
            obs.n("widths judged")
            for t in case["tokens"]:
                obs.n({"cup": "cursor sequences", "gfx": "graphics payloads", "link": "links",
                       "csi": "other sequences", "osc": "other sequences"}.get(
                    t[0], "other tokens"))
            if got != want:
                raise Violation(f"width({line!r}) is {got}, it occupies {want} cells")
            if any(t[0] in ("gfx", "csi", "osc") for t in case["tokens"]):
                return
            from slate import Span
            items = list(Span.yield_from(line))
            if sum(map(width, items)) != want:
                raise Violation(f"the spans of {line!r} have width {sum(map(width, items))}")
        screen = Screen(want + 3, 1)
        covered = screen.write(items, cursor=(1, 0), force_overwrite=True)
        obs.n("screen widths judged")
        if covered != want:
            raise Violation(f"{want} cells wide, but covers {covered} cells of a screen")
        if want and tuple(screen.cursor) != (1 + want, 0):
            raise Violation(f"{want} cells wide, but moves the cursor to {screen.cursor}")
        obs.state("widths", want)


CHECK = C10()
