"""C11: the exported SVG, parsed and rasterised to cells, versus the emulated display."""

import io
import os
import random
import re
import xml.etree.ElementTree as ET

import gen
from common import Check, Violation
from lab import Session, screen_case

CHAR_W, CHAR_H = 0.60167, 1.265
NS = "{http://www.w3.org/2000/svg}"


def css_rules(text):
    """{class: {property: value}} of a simple stylesheet."""

    out = {}
    for sel, body in re.findall(r"([^{}]+)\{([^{}]*)\}", re.sub(r"/\*.*?\*/", "", text, flags=re.S)):
        for s in sel.split(","):
            s = s.strip()
            if s.startswith("."):
                out.setdefault(s[1:], {}).update(declarations(body))
    return out


def declarations(body):
    out = {}
    for d in body.split(";"):
        if ":" in d:
            k, v = d.split(":", 1)
            out[k.strip()] = v.strip()
    return out


def preserves(props, el):
    """Whether an element says that its white space counts."""

    return (el.get("{http://www.w3.org/XML/1998/namespace}space") == "preserve"
            or props.get("white-space", "").startswith(("pre", "break-spaces")))


def runs(elements, rules, font_size, origin, preserving=False):
    """[(row, column, text, styles, fill, background)] of <rect>/<text> elements."""

    cw, ch = font_size * CHAR_W, font_size * CHAR_H
    out = []
    rects = []
    for el in elements:
        tag = el.tag.replace(NS, "")
        if tag == "rect":
            rects.append(el)
            continue
        if tag != "text":
            raise Violation(f"unexpected element <{tag}>")
        x, y = float(el.get("x")), float(el.get("y")) - font_size
        props = {"fill": el.get("fill")}
        for cls in (el.get("class") or "").split():
            if cls not in rules:
                raise Violation(f"class {cls} has no rule")
            props.update(rules[cls])
        props.update(declarations(el.get("style") or ""))
        text = el.text or ""
        if not preserving and not preserves(props, el) and (
                text.strip(" ") != text or re.search(r" {2}|[\t\n\r]", text)):
            raise Violation(f"run {text!r} has blanks that SVG drops or merges")
        text = text.replace("\xa0", " ")
        if len(el):
            raise Violation("markup inside a text run")
        col, row = (x - origin[0]) / cw, (y - origin[1]) / ch
        if abs(col - round(col)) * cw > 0.2 or abs(row - round(row)) > 0.2:
            raise Violation(f"run {text!r} is at column {col:.2f} row {row:.2f}")
        back = None
        for r in rects:
            if abs(float(r.get("x")) - x) < 0.05 and abs(float(r.get("y")) - y) < ch / 2:
                back = r
        if text and back is None:
            raise Violation(f"run {text!r} has no background")
        if text:
            rw, rh = float(back.get("width")), float(back.get("height"))
            if not -0.1 * cw <= rw - len(text) * cw <= cw * 0.9 + 0.5:
                raise Violation(f"background of {text!r} is {rw} wide, the text {len(text) * cw}")
            if not 0.9 * ch <= rh <= 1.5 * ch:
                raise Violation(f"background of {text!r} is {rh} high")
            top = float(back.get("y")) - y
            if not -0.3 * font_size <= top <= 0.02 or top + rh < 1.1 * font_size:
                raise Violation(f"background of {text!r} is {top} from the row's top and {rh} high:"
                                " it does not cover the text")
        st = set()
        if props.get("font-weight") == "bold":
            st.add("bold")
        if props.get("font-style") == "italic":
            st.add("italic")
        if float(props.get("opacity", "1")) < 1:
            st.add("dim")
        for d in props.get("text-decoration", "").split():
            st.add({"line-through": "strike"}.get(d, d))
        out.append((round(row), round(col), text, frozenset(st), color(props["fill"]),
                    color(back.get("fill")) if back is not None else None))
    return out


def color(value):
    if not re.fullmatch(r"#[0-9A-Fa-f]{6}", value or ""):
        raise Violation(f"{value!r} is not a colour")
    return tuple(bytes.fromhex(value[1:]))


def expected(cell, dfg, dbg):
    ch, styles, fg, bg = cell
    fg, bg = fg or dfg, bg or dbg
    if "invert" in styles:
        fg, bg = bg, fg
    return (ch, styles & {"bold", "italic", "dim", "underline", "strike"}, fg, bg)


def parse(doc):
    try:
        return ET.fromstring(doc)
    except ET.ParseError as exc:
        raise Violation(f"not well-formed XML: {exc}") from None


# text that looks escaped already, or like markup
ENTITIES = ["&lt;", "&amp;", "&#160;", "&nbsp;", "<b>", "]]>", "</text>", "<!--", "&amp;lt;", "a", " ",
            "{i}", "%s", "'"]


class C11(Check):
    id = "C11"
    quick, thorough = 44000, 500000
    required = ("exports judged", "terminal exports", "screen exports", "span exports", "cells judged",
                "XML-special characters", "inverted cells", "merged runs", "inline exports",
                "one default given")
    rule = ("random histories drawn and exported (Terminal.export_svg, Screen.export_svg_with_styles),"
            " and single spans exported; the SVG is parsed, classes resolved, runs mapped to cells and"
            " compared with the emulated display; non-trivial: some styled or coloured text")
    assumptions = ["true color", "the font's cell is 0.60167 x 1.265 em, as the export assumes",
                   "blink and conceal have no SVG form"]

    def enumerated(self, tier):
        out = []
        for i, case in enumerate(gen.large(10 if tier == "quick" else 60, 11)):
            rng = random.Random(i)
            if i % 5 == 3:
                # a different style in every cell
                case["w"], case["h"] = 40, 6
                case["ops"] = [{"op": "w", "pos": [0, 0], "spans": [
                    {"t": rng.choice("abc"), "s": gen.styles(rng), "bg": None,
                     "fg": ["rgb", *gen.rgb(rng)]} for _ in range(240)]}]
            if i % 5 == 4:
                # one long run, specials and all
                case["w"], case["h"] = 300, 2
                case["ops"] = [{"op": "w", "pos": [0, 0], "spans": [
                    {"t": "".join(rng.choice("ab<&>\"' c") for _ in range(300)), "s": ["bold"],
                     "bg": None, "fg": None},
                    {"t": "".join(rng.choice("<&>xyz;") for _ in range(290)), "s": [], "bg": None,
                     "fg": None}]}]
            out.append({**case, "mode": "screen", "size": 15, "at": [0, 0], "use_defaults": i % 2 > 0,
                        "defaults": [[1, 2, 3], [4, 5, 6]], "only": None})
        return out

    def generate(self, rng, tier, index):
        if rng.random() < 0.3:
            pal = gen.Palette(rng, newline=False, opaque=False)
            span = pal.span()
            if rng.random() < 0.05:
                span["t"] = "".join(rng.choice(ENTITIES) for _ in range(3))
            return {"mode": "span", "span": span, "size": rng.choice([8, 10, 15, 16, 33]),
                    "origin": [rng.choice([0, 7.25, 100]), rng.choice([0, 3.5, 40])],
                    "inline": rng.random() < 0.6, "cls": rng.random() < 0.5,
                    "only": rng.choice([None, None, "fg", "bg"]),
                    "defaults": [gen.rgb(rng), gen.rgb(rng)] if rng.random() < 0.6 else None}
        case = screen_case(rng, spaces=False)
        if case["w"] > 40 and rng.random() < 0.6:
            case["w"], case["h"] = rng.randint(1, 12), rng.randint(1, 6)
            case.pop("cursor", None)
        case["mode"] = "screen"
        pal = gen.Palette(rng, hi=rng.choice([3, 8, 20]))
        case["ops"] = gen.history(rng, case["w"], case["h"], pal, rng.randint(1, 7), draw=0.05,
                                  resize=0.03, strings=case["kind"] == "terminal")
        if rng.random() < 0.05:
            case["ops"].append({"op": "w", "pos": [0, 0], "spans": [
                {**pal.span(), "t": "".join(rng.choice(ENTITIES) for _ in range(3))}]})
        case["size"] = rng.choice([8, 10, 15, 15, 20, 33])
        case["at"] = [rng.choice([0, 0, 16, 7.5]), rng.choice([0, 0, 16, 2.25])]
        case["defaults"] = [gen.rgb(rng), gen.rgb(rng)]
        case["use_defaults"] = rng.random() < 0.6
        case["only"] = rng.choice([None, None, "fg", "bg"])
        if rng.random() < 0.1:
            case["defaults"] = [[0, 0, 0], [255, 255, 255]]
        return case

    def nontrivial(self, case):
        if case["mode"] == "span":
            return bool(case["span"]["t"])
        return any(o["op"] in "wb" for o in case["ops"])

    def valid(self, case):
        if case.get("size", 0) < 5 or not all(len(d) == 3 for d in case.get("defaults") or []):
            return False
        return case["mode"] == "span" or (case["w"] > 0 and case["h"] > 0 and all(
            o["op"] != "rs" or (o["w"] > 0 and o["h"] > 0) for o in case["ops"]))

    def execute(self, case, obs):
        if case["mode"] == "span":
            return self.span(case, obs)
        return self.screen(case, obs)

    def span(self, case, obs):
        import slate
        from slate import Color
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR
        sp = case["span"]
        span = gen.build_span(sp)
        kwargs = {"font_size": case["size"], "origin": tuple(case["origin"])}
        if case["size"] == 15:
            del kwargs["font_size"]
        if case["origin"] == [0, 0]:
            del kwargs["origin"]
        dfg, dbg = (221, 221, 221), (33, 33, 33)
        if case["defaults"]:
            dfg, dbg = map(tuple, case["defaults"])
            kwargs.update(default_foreground=Color(dfg), default_background=Color(dbg))
            if case.get("only") == "fg":
                del kwargs["default_background"]
                dbg = (33, 33, 33)
            elif case.get("only") == "bg":
                del kwargs["default_foreground"]
                dfg = (221, 221, 221)
        if case["inline"]:
            kwargs["inline_styles"] = True
        if case["cls"]:
            kwargs["cls"] = "k"
        root = parse(f"<g>{span.as_svg(**kwargs)}</g>")
        rules = {"k": span.get_svg_styles()} if case["cls"] else {}
        got = runs(list(root), rules, case["size"], case["origin"])
        obs.n("span exports")
        obs.n("inline exports", case["inline"])
        if len(got) != 1:
            raise Violation(f"a span exported as {len(got)} text runs")
        row, col, text, st, fill, back = got[0]
        want = expected((None, frozenset(sp["s"]), gen.spec_rgb(sp["fg"]), gen.spec_rgb(sp["bg"])),
                        dfg, dbg)
        if text != sp["t"] or (row, col) != (0, 0):
            raise Violation(f"span text {sp['t']!r} exported as {text!r} at {col},{row}")
        if (fill, back) != want[2:]:
            raise Violation(f"span colours exported as {fill} on {back}, should be {want[2:]}")
        if (case["inline"] or case["cls"]) and st != want[1]:
            raise Violation(f"span styles exported as {sorted(st)}, should be {sorted(want[1])}")
        # the CSS form itself
        css = span.get_svg_styles()
        if "invert" not in sp["s"] and sp["fg"] and color(css.get("fill")) != gen.spec_rgb(sp["fg"]):
            raise Violation(f"CSS fill {css.get('fill')} for {sp['fg']}")
        if "invert" in sp["s"] and sp["bg"] and color(css.get("fill")) != gen.spec_rgb(sp["bg"]):
            raise Violation(f"CSS fill {css.get('fill')} for {sp['bg']}, inverted")
        obs.n("cells judged", len(text))

    def screen(self, case, obs):
        from slate import Color

        s = Session(case, obs)
        for op in case["ops"]:
            s.apply(op)
        s.draw(True)
        region = s.region()
        size = case["size"]
        dfg, dbg = map(tuple, case["defaults"])
        if s.terminal is not None:
            obs.n("terminal exports")
            if case["use_defaults"]:
                given = {"default_foreground": Color(dfg), "default_background": Color(dbg)}
                if case.get("only") == "fg":
                    del given["default_background"]
                    dbg = tuple(s.terminal.background_color.rgb)
                elif case.get("only") == "bg":
                    del given["default_foreground"]
                    dfg = tuple(s.terminal.foreground_color.rgb)
                obs.n("one default given", len(given) == 1)
                doc = s.terminal.export_svg(font_size=size, **given)
            else:
                doc = s.terminal.export_svg(**({} if size == 15 else {"font_size": size}))
                dfg = tuple(s.terminal.foreground_color.rgb)
                dbg = tuple(s.terminal.background_color.rgb)
            root = parse(doc)
            width, height = float(root.get("width")), float(root.get("height"))
            view = [float(v) for v in root.get("viewBox").split()]
            if view != [0, 0, width, height]:
                raise Violation(f"viewBox {view} for an image of {width} x {height}")
            need = s.w * CHAR_W * size, s.h * CHAR_H * size
            for got, n in zip((width, height), need):
                if not n <= got <= n + 40:
                    raise Violation(f"image is {width} x {height}, the terminal needs {need}")
            group = root.find(NS + "g")
            move = re.fullmatch(r"translate\(\s*([\d.]+)[\s,]+([\d.]+)\s*\)", group.get("transform") or
                                "translate(0, 0)")
            if not move:
                raise Violation(f"the screen is transformed by {group.get('transform')!r}")
            for off, n, got in zip(map(float, move.groups()), need, (width, height)):
                if off + n > got + 0.01:
                    raise Violation(f"the screen, {need} large at {move.groups()}, does not fit the image"
                                    f" of {width} x {height}")
            full = [r for r in root.findall(NS + "rect")]
            if not full or float(full[0].get("width")) < width - 0.01 or float(
                    full[0].get("height")) < height - 0.01 or color(full[0].get("fill")) != dbg:
                raise Violation("the image's background is not the terminal's")
            sheet = "".join(e.text or "" for e in root.findall(NS + "style"))
            fonts = re.findall(r"font-size:\s*([\d.]+)px", sheet)
            if [float(f) for f in fonts] != [size]:
                raise Violation(f"font size {fonts} in an export of size {size}")
            rules = css_rules("".join(e.text or "" for e in root.findall(NS + "style")))
            elements, origin = list(group), (0, 0)
            preserving = any(
                e.get("{http://www.w3.org/XML/1998/namespace}space") == "preserve"
                for e in (root, group)) or re.search(r"white-space:\s*(pre|break-spaces)", sheet)
        else:
            obs.n("screen exports")
            origin = tuple(case["at"])
            svg, sheet = s.screen.export_svg_with_styles(
                font_size=size, origin=origin, default_foreground=Color(dfg),
                default_background=Color(dbg))
            elements = list(parse(f"<g>{svg}</g>"))
            rules = css_rules(sheet)
        got = runs(elements, rules, size, origin, s.terminal is not None and preserving)
        obs.n("exports judged")
        rows = {}
        for row, col, text, st, fill, back in got:
            if not text:
                continue
            line = rows.setdefault(row, [])
            if col != len(line):
                raise Violation(f"row {row}: run {text!r} is at column {col}, the row has"
                                f" {len(line)} cells before it")
            line += [(ch, st, fill, back) for ch in text]
            obs.n("merged runs", len(text) > 1)
        for y in range(s.h):
            want = [expected(c, dfg, dbg) for c in region[y]]
            line = rows.pop(y, [])
            obs.n("cells judged", len(want))
            obs.n("XML-special characters", sum(c[0] in "<>&'\"" for c in want))
            obs.n("inverted cells", sum("invert" in c[1] for c in region[y]))
            if line != want:
                if [c[0] for c in line] != [c[0] for c in want]:
                    raise Violation("row %d spells %r, the terminal shows %r" % (
                        y, "".join(c[0] for c in line), "".join(c[0] for c in want)))
                k = next(i for i, (a, b) in enumerate(zip(line, want)) if a != b)
                raise Violation(f"cell {k},{y} exported as {line[k]}, the terminal shows {want[k]}")
        if rows:
            raise Violation(f"rows {sorted(rows)} are outside the screen")
        obs.state("pictures", region)


CHECK = C11()
