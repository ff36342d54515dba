"""C09: parsed spans versus an independent SGR / OSC 8 interpreter."""

import random

import gen
from common import Check, Violation
from vt import VT, Attrs, to_rgb

UNKNOWN = ([str(n) for n in (*range(10, 22), *range(50, 90), 98, 108, 109, 120, 256, 1000, 3000)]
           + ["x", "1x", "-1", "1.5", " 1", "bold", "!p", "?25", "1:2"])


def interpret(tokens):
    """Per character: (char, styles, fg, bg, link, opaque) a terminal would show."""

    attrs, link, opaque, out, bad = Attrs(), "", False, [], []
    for kind, *args in tokens:
        if kind == "t":
            out += [(ch, attrs.styles, to_rgb(attrs.fg), to_rgb(attrs.bg), link, opaque)
                    for ch in args[0]]
        elif kind == "link":
            link = args[0]
        elif kind == "cup":
            pass
        else:
            for a in attrs.sgr(";".join(args), bad):
                opaque = (opaque and a != 0) or a == 99
    assert not bad, bad
    return out


def serialize(tokens):
    out = ""
    for kind, *args in tokens:
        if kind == "t":
            out += args[0]
        elif kind == "link":
            out += f"\x1b]8;{args[2] if args[2:] else ''};{args[0]}" + (
                "\a" if args[1:] and args[1] else "\x1b\\")
        elif kind == "cup":
            out += f"\x1b[{args[0]}H"
        else:
            out += f"\x1b[{';'.join(args)}m"
    return out


def flatten(spans):
    out = []
    for s in spans:
        st = frozenset(n for n in gen.STYLES if getattr(s, n))
        for c, layer in ((s.foreground, False), (s.background, True)):
            if c is not None and c.is_background != layer:
                raise Violation(f"{c!r} is on the wrong layer")
        fg, bg = (c and tuple(c.rgb) for c in (s.foreground, s.background))
        out += [(ch, st, fg, bg, s.hyperlink, bool(s.opaque)) for ch in s.text]
    return out


def code(rng):
    """One SGR item, as a list of numbers."""

    r = rng.random()
    if r < 0.32:
        return [str(rng.randint(1, 9))]
    if r < 0.36:
        return ["99"]
    if r < 0.52:
        return [str(rng.choice([22, 23, 24, 25, 27, 28, 29, 39, 49]))]
    if r < 0.6:
        return [rng.choice(["0", "0", ""])]
    if r < 0.76:
        n = rng.randrange(8)
        return [str(rng.choice([30, 40, 90, 100]) + n)]
    lead = rng.choice(["38", "48"])
    if r < 0.88:
        return [lead, "5", str(rng.choice([rng.randrange(256), rng.choice([0, 1, 4, 7, 9, 22, 38, 48,
                                                                           99, 255])]))]
    return [lead, "2", *(str(v) for v in gen.rgb(rng))]


class C09(Check):
    id = "C09"
    quick, thorough = 320000, 3500000
    required = ("strings parsed", "characters compared", "style-off codes", "resets",
                "adjacent sequences", "leading text", "links", "rejections", "round trips",
                "multi-code sequences", "positions", "spans without reset")
    rule = ("token strings (text, SGR sequences of 1-4 codes, positions, hyperlinks ended either way) and printed forms of random"
            " span lists, parsed and compared per character with an independent interpreter; strings"
            " with one unknown code must raise ValueError; non-trivial: a sequence and text")
    assumptions = ["codes 26 and truncated or unsupported 38/48 forms are not generated",
                   "palette indices denote the standard VGA/xterm palette", "true color"]

    def setup(self):
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR

    def enumerated(self, tier):
        out = []
        codes = [[str(n)] for n in (*range(1, 10), 22, 23, 24, 25, 27, 28, 29, 39, 49, 99, 0,
                                    *range(30, 38), *range(40, 48), *range(90, 98),
                                    *range(100, 108))] + [[""]]
        everything = ["sgr", *(str(n) for n in range(1, 10)), "31", "42"]
        for c in codes:
            out.append({"tokens": [["sgr", *c], ["t", "a"]]})
            out.append({"tokens": [everything, ["t", "a"], ["sgr", *c], ["t", "b"]]})
            out.append({"tokens": [["t", "x"], everything, ["sgr", *c], ["t", "b"]]})
            for d in codes:
                out.append({"tokens": [["sgr", *c, *d], ["t", "m"]]})
        for n in range(256):
            for lead in ("38", "48"):
                out.append({"tokens": [["sgr", lead, "5", str(n)], ["t", "a"]]})
                out.append({"tokens": [["sgr", "1", lead, "5", str(n), "4"], ["t", "a"]]})
        for u in UNKNOWN:
            out.append({"tokens": [["sgr", u], ["t", "a"]], "bad": True})
            out.append({"tokens": [["t", "a"], ["sgr", "1", u], ["t", "a"]], "bad": True})
            out.append({"tokens": [["sgr", "31"], ["t", "a"], ["sgr", "38", "2", "1", "2", "3", u]],
                        "bad": True})
        return out + [self.long(seed) for seed in range(60 if tier == "quick" else 1000)]

    def long(self, seed):
        """Hundreds of sequences, codes or characters."""

        rng = random.Random(seed)
        if seed % 3 == 0:
            return {"tokens": [["sgr", *(c for _ in range(rng.randint(30, 300)) for c in code(rng))],
                               ["t", gen.text(rng, 50, 5000)], ["sgr", *code(rng)], ["t", "x"]]}
        if seed % 3 == 1:
            pal = gen.Palette(rng, newline=False)
            return {"spans": [dict(pal.span(), noreset=False) for _ in range(rng.randint(50, 500))]}
        tokens = []
        for _ in range(rng.randint(50, 600)):
            r = rng.random()
            tokens.append(["t", gen.text(rng, 1, 30)] if r < 0.5 else ["sgr", *code(rng)] if r < 0.95
                          else ["link", rng.choice(["", "u" * rng.randint(1, 3000)])])
        return {"tokens": tokens}

    def generate(self, rng, tier, index):
        r = rng.random()
        if r < 0.06:
            pal = gen.Palette(rng, newline=False)
            return {"spans": [dict(pal.span(), noreset=rng.random() < 0.5)
                              for _ in range(rng.randint(2, 6))], "bleed": True}
        if r < 0.35:
            pal = gen.Palette(rng, newline=rng.random() < 0.2)
            if rng.random() < 0.3:
                pal.links = False
            return {"spans": [dict(pal.span(), noreset=False) for _ in range(rng.randint(1, 6))]}
        tokens = []
        for _ in range(rng.randint(1, 9)):
            r = rng.random()
            if r < 0.45:
                tokens.append(["t", gen.text(rng, 1, 6, newline=rng.random() < 0.1)])
            elif r < 0.92:
                seq = []
                for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
                    seq += code(rng)
                tokens.append(["sgr", *seq])
            elif r < 0.94:
                tokens.append(["cup", rng.choice(["", "1;1", "24;80", "3", "1;31", "10;50"])])
            else:
                tokens.append(["link", rng.choice(["", "", "https://e.org/a?b=1&c=[d]m", "x",
                                                   "file:///a;b"]),
                               rng.random() < 0.3, rng.choice(["", "", "id=7"])])
        case = {"tokens": tokens}
        if rng.random() < 0.12:
            k = rng.randrange(len(tokens) + 1)
            seq = [c for _ in range(rng.randint(0, 2)) for c in code(rng)] + [rng.choice(UNKNOWN)]
            tokens.insert(k, ["sgr", *seq])
            case["bad"] = True
        return case

    def nontrivial(self, case):
        if "spans" in case:
            return True
        return {"t", "sgr"} <= {t[0] for t in case["tokens"]}

    def valid(self, case):
        if "spans" in case:
            return True
        if case.get("bad"):
            return any(a in UNKNOWN for t in case["tokens"] if t[0] == "sgr" for a in t[1:])
        try:
            interpret(case["tokens"])
        except Exception:
            return False
        return all(len(t) > 1 for t in case["tokens"])

    def execute(self, case, obs):
        from slate import Span

        if "spans" in case:
            spans = [gen.build_span(s) for s in case["spans"]]
            line = "".join(map(str, spans))
            want = [(ch, frozenset(s["s"]), gen.spec_rgb(s["fg"]), gen.spec_rgb(s["bg"]),
                     s.get("link", ""), bool(s.get("opaque"))) for s in case["spans"]
                    for ch in s["t"]]
            obs.n("round trips")
            if case.get("bleed"):
                # spans that do not reset style those after them: as the emulator shows it
                obs.n("spans without reset")
                vt = VT(max(len(want), 1), 1)
                vt.feed(line)
                if vt.anomalies or "".join(c[0] for c in vt.grid[0])[:len(want)] != "".join(
                        c[0] for c in want):
                    raise Violation(f"{line!r} is shown as {vt.grid[0]}")
                want = [(c, st, to_rgb(fg), to_rgb(bg), link) for c, st, fg, bg, link in
                        vt.grid[0][:len(want)]]
                got = [c[:-1] for c in flatten(Span.yield_from(line))]
                if got != want:
                    raise Violation(f"{line!r} parsed to {got}, a terminal shows {want}")
                return
        else:
            line = serialize(case["tokens"])
            if case.get("bad"):
                obs.n("rejections")
                try:
                    got = list(Span.yield_from(line))
                except ValueError:
                    return
                raise Violation(f"{line!r} has an unknown code but gave {got!r}")
            tokens = case["tokens"]
            want = interpret(tokens)
            obs.n("leading text", tokens[0][0] == "t")
            obs.n("positions", sum(t[0] == "cup" for t in tokens))
            obs.n("links", sum(t[0] == "link" for t in tokens))
            obs.n("style-off codes", sum(a in ("22", "23", "24", "25", "27", "28", "29")
                                         for t in tokens if t[0] == "sgr" for a in t[1:]))
            obs.n("resets", sum(a in ("0", "") for t in tokens if t[0] == "sgr" for a in t[1:]))
            obs.n("adjacent sequences", sum(a[0] == b[0] == "sgr" for a, b in zip(tokens, tokens[1:])))
            obs.n("multi-code sequences", sum(len(t) > 2 for t in tokens if t[0] == "sgr"))
        spans = list(Span.yield_from(line))
        got = flatten(spans)
        obs.n("strings parsed")
        obs.n("characters compared", len(want))
        if got != want:
            gt, wt = "".join(c[0] for c in got), "".join(c[0] for c in want)
            if gt != wt:
                raise Violation(f"text: {line!r} parsed to text {gt!r}, shows {wt!r}")
            for a, b in zip(got, want):
                if a != b:
                    raise Violation(f"style: {line!r} parsed to {a}, a terminal shows {b}")
        first = Span.first_from(line)
        if (first is None) != (not spans) or (spans and flatten([first]) != flatten(spans[:1])):
            raise Violation(f"first_from({line!r}) is {first!r}, the spans are {spans!r}")
        # what the spans print shows the same again
        if "\n" not in line:
            again = flatten(Span.yield_from("".join(map(str, spans))))
            if again != want:
                raise Violation(f"second trip: {line!r} printed and parsed again changed")
        obs.state("parses", got)


CHECK = C09()
