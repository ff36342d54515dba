"""Writes /verif/seeded/<id>/ from this list, confirming each in a scratch copy (build, tests, demo)."""
import json, os, shutil, subprocess, sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
from mutate import test, PY

ROOT = Path(__file__).resolve().parent.parent / "seeded"
PRE = '''import io, os, sys
sys.path.insert(0, os.getcwd())
os.environ["COLUMNS"], os.environ["LINES"] = "10", "4"
import slate
from slate import *
slate.terminal.color_space = ColorSpace.TRUE_COLOR
'''
SEEDS = {}


def seed(id, prop, file, changes, demo, needs, what):
    SEEDS[id] = (prop, file, changes, demo, needs, what)


seed("row-join", "C01", "screen",
     [("if previous_x is not None and (x == previous_x + 1 and y == previous_y):",
       "if previous_x is not None and x == previous_x + 1:")],
     '''
s = Screen(4, 3); s.render(origin=(1, 1))
s.write([Span("a")], cursor=(1, 0)); s.write([Span("b")], cursor=(2, 1))
assert "\\x1b[2;3H" in s.render(origin=(1, 1))
''', "changed cells in two rows, the second one starting in the column after the first row's last",
     "the second row's cells are drawn on the first row")

seed("blank-uncounted", "C03", "screen",
     [("                    changes += 1\n", "                    changes += plain_count(char)\n"),
      ("        changes = 0\n\n        for y, line in enumerate(write_matrix):",
       "        changes = 0\n\n        def plain_count(char: str) -> int:\n            return int(char != \" \")\n\n        for y, line in enumerate(write_matrix):")],
     '''
s = Screen(4, 1); s.write([Span("abcd")], cursor=(0, 0)); s.render()
n = s.write([Span("a  d")], cursor=(0, 0))
assert n == 2, n
''', "overwriting characters with plain blanks", "cells that were changed to blanks are not counted")

seed("bulk-inherit", "C06", "screen",
     [("                    final_fg = foreground\n", "                    final_fg = foreground or write_matrix[y][x][1]\n")],
     '''
red = color((200, 0, 0))
a, b = Screen(3, 1), Screen(3, 1)
items = [((0, 0), [Span("ab", foreground=red)]), ((1, 0), [Span("cd")])]
a.write_bulk(items)
for pos, spans in items:
    b.write(spans, cursor=pos)
assert a.render(origin=(1, 1), redraw=True) == b.render(origin=(1, 1), redraw=True)
''', "a bulk write in which uncoloured text covers part of an earlier coloured item",
     "the covering text takes the colour of the text it covers")

seed("redraw-pending", "C02", "screen",
     [('''                y += 1

            self._change_buffer.clear()

            return buffer
''', '''                y += 1

            return buffer
''')],
     '''
s = Screen(4, 2); s.write([Span("ab")], cursor=(0, 0))
s.render(origin=(1, 1), redraw=True)
out = s.render(origin=(1, 1))
assert out.replace("\\x1b[0m", "") == "", repr(out)
''', "a full redraw followed by an incremental draw", "cells already painted by a redraw are painted again")

seed("wrap-column", "C04", "screen",
     [("                        next_y += 1\n                        next_x = 0\n",
       "                        next_y += 1\n                        next_x = cursor[0] if cursor and len(line) > 1 else 0\n")],
     '''
s = Screen(4, 3)
s.write([Span("ab", bold=True), Span("cd")], cursor=(2, 0))
assert s.cursor == (2, 1), s.cursor
out = s.render(origin=(1, 1))
rows = [[None] * 4 for _ in range(3)]
import re
x = y = 0
for m in re.finditer(r"\\x1b\\[(\\d+);(\\d+)H|\\x1b\\[[\\d;]*m|(.)", out, re.S):
    if m[1]: y, x = int(m[1]) - 1, int(m[2]) - 1
    elif m[3]:
        if x < 4: rows[y][x] = m[3]
        x += 1
assert rows[1] == ["c", "d", " ", " "], rows
''', "a write of several spans, starting right of the first column, that wraps",
     "wrapped text continues at the start column instead of the first one")

seed("resize-row-alias", "C05", "screen",
     [("                for x, (char, fore, back) in enumerate(row):\n                    if x >= width:\n                        break\n",
       "                for x, (char, fore, back) in enumerate(row):\n                    if x >= width - (width < len(row)):\n                        break\n")],
     '''
s = Screen(6, 2); s.write([Span("abcdef")], cursor=(0, 0)); s.render()
s.resize((3, 2))
assert "abc" in s.render(origin=(1, 1)).replace("\\x1b[0m", ""), "kept column lost"
s = Screen(3, 2); s.write([Span("abc")], cursor=(0, 0)); s.resize((3, 5))
assert "abc" in s.render(origin=(1, 1)).replace("\\x1b[0m", "")
''', "a resize that makes the screen narrower", "the last kept column is blanked")

seed("opaque-blank", "C07", "screen",
     [('empty = RE_ANSI.sub("", char).strip() == "" and not span.opaque',
       'empty = RE_ANSI.sub("", char).strip() == ""')],
     '''
s = Screen(3, 1)
red = color((200, 0, 0)).as_background()
glass = color((0, 0, 200, 0.5)).as_background()
s.write_bulk([((0, 0), [Span("X", background=red)]), ((0, 0), [Span(" ", background=glass, opaque=True)])])
assert "X" not in s.render(origin=(1, 1))
''', "a translucent layer whose span is marked opaque, over a character, in one bulk write",
     "the character below shows through a blank that should hide it")

seed("opaque-lost", "C08", "span",
     [('            "opaque": self.opaque,\n', '')],
     '''
a = Span("a b c", opaque=True, bold=True)
assert a[1:].opaque and all(p.opaque for p in a.split()) and a.as_italic().opaque
''', "slicing or restyling a span that is marked opaque", "derived spans lose the opaque attribute")

seed("bright-white", "C09", "span",
     [("        if 90 <= index <= 97 or 100 <= index <= 107:\n", "        if 90 <= index <= 97 or 100 <= index < 107:\n")],
     '''
parts = list(Span.yield_from("\\x1b[107;1mx\\x1b[0my"))
assert parts[0].background is not None and parts[0].bold, parts
''', "text with the bright white background (code 107)", "the background and the codes after it are lost")

seed("width-clipped", "C10", "core",
     [('    return len(RE_ANSI.sub("", text))\n', '    return len(RE_ANSI.sub("", text, 64))\n')],
     '''
from slate.core import width
s = "".join(str(Span("a", bold=True)) for _ in range(40))
assert width(s) == 40, width(s)
''', "text with more than 64 escape sequences", "the sequences after the 64th count as visible text")

seed("svg-invert", "C11", "span",
     [('            if not self.invert and key == "foreground" and isinstance(value, Color):\n',
       '            if key == "foreground" and isinstance(value, Color):\n')],
     '''
s = Span("x", foreground=color("#ff0000"), invert=True)
assert s.get_svg_styles().get("fill", "").lower() != "#ff0000", s.get_svg_styles()
''', "inverted text with a foreground but no background", "the style sheet paints inverted text in its foreground on the same colour")

seed("ansi-memo", "C12", "color",
     [('''        lead = 38 + 10 * self.is_background

        origin''', '''        lead = 38 + 10 * self.is_background

        if self.hex in _CODES.get(terminal.color_space.value, {}):
            return _CODES[terminal.color_space.value][self.hex]

        origin'''),
      ('            return f"{lead};5;{index}"\n\n        if terminal.color_space is ColorSpace.STANDARD:',
       '            _CODES.setdefault("eight_bit", {})[self.hex] = f"{lead};5;{index}"\n            return f"{lead};5;{index}"\n\n        if terminal.color_space is ColorSpace.STANDARD:'),
      ('WHITE = Color((255, 255, 255))\n', '_CODES: dict[str, dict[str, str]] = {}\n\nWHITE = Color((255, 255, 255))\n')],
     '''
slate.terminal.color_space = ColorSpace.EIGHT_BIT
fresh = color((1, 2, 3)).as_background().ansi
a = color((40, 80, 120)).ansi
b = color((40, 80, 120)).as_background().ansi
assert a.startswith("38;5;") and b.startswith("48;5;"), (a, b)
''', "256-colour space and the same RGB asked for as a foreground and then as a background",
     "the background's code is the foreground's, remembered from another object")

seed("hex-alpha", "C13", "color",
     [("alpha = int(description[-2:], base=16) / 255", "alpha = int(description[-2:], base=16) / 256")],
     '''
assert color("#102030ff").alpha == 1.0, color("#102030ff").alpha
''', "a colour given as #RRGGBBAA", "alpha is off, so that fully opaque colours count as translucent")

seed("standard-seven", "C14", "color",
     [("            if index > 7:\n                index += 82", "            if index >= 7:\n                index += 82")],
     '''
slate.terminal.color_space = ColorSpace.STANDARD
from slate.color_info import COLOR_TABLE
c = tuple(COLOR_TABLE[7])
code = int(color(c).ansi)
assert 30 <= code <= 37 or 90 <= code <= 97, code
''', "16-colour space and a colour whose nearest entry is number 7", "an invalid code is emitted")

seed("darken-steps", "C15", "color",
     [("return self.blend(Color.black(), alpha=shade_count * step_size)",
       "return self.blend(Color.black(), alpha=(shade_count % 10) * step_size)")],
     '''
c = color((200, 100, 50))
assert c.darken(3).rgb == (140, 70, 35), c.darken(3)
assert c.darken(10).rgb == (0, 0, 0), c.darken(10)
''', "darkening by ten shades or more", "the colour is not darkened, or too little")

seed("dark-luminance", "C16", "color",
     [("            return val / 12.92", "            return val / 12.29")],
     '''
assert abs(color((5, 5, 5)).luminance - 5 / 255 / 12.92) < 1e-6, color((5, 5, 5)).luminance
''', "very dark colours (a channel of 10 or less)", "luminance and brightness are wrong")

seed("colorterm-blank", "C17", "core",
     [('    if color_term == "":\n        color_term = term.split("xterm-")[-1]\n',
       '    if color_term not in ("24bit", "truecolor"):\n        color_term = term.split("xterm-")[-1]\n')],
     '''
from slate.core import get_color_space
for k in ("SLATE_COLORSYS", "NO_COLOR"): os.environ.pop(k, None)
os.environ["COLORTERM"], os.environ["TERM"] = "256color", "xterm-truecolor"
assert get_color_space() is ColorSpace.EIGHT_BIT, get_color_space()
os.environ["COLORTERM"] = ""
assert get_color_space() is ColorSpace.TRUE_COLOR
''', "COLORTERM announcing 256 colours while TERM announces something else", "TERM overrides COLORTERM")

seed("mouse-modifiers", "C18", "core",
     [('''    "shift_ctrl_",
    "ctrl_option_",
''', '''    "ctrl_option_",
    "shift_ctrl_",
''')],
     '''
from slate.core import parse_mouse_event
assert parse_mouse_event("\\x1b[<20;3;4M") == "mouse:shift_ctrl_left_click@3;4"
assert parse_mouse_event("\\x1b[<24;3;4M") == "mouse:ctrl_option_left_click@3;4"
''', "a mouse event with shift and ctrl, or ctrl and option, held", "the modifiers are reported wrongly")

seed("split-utf8", "C19", "core",
     [("            char = os.read(stream.fileno(), 1)\n", "            char = os.read(stream.fileno(), 256)\n")],
     '''
import tty, termios, threading, time
m, s = os.openpty(); tty.setraw(s)
stream = os.fdopen(s, "r", encoding="utf-8")
os.write(m, b"a\\xc3"); time.sleep(0.1)
t = threading.Timer(0.5, os.write, (m, b"\\xa9z")); t.start()
got = ""
while "z" not in got:
    got += str(getch(stream=stream, raw=True))
assert got == "a\\u00e9z", got
''', "a multi-byte character whose bytes arrive in two pieces, after another character",
     "the first bytes of the character are lost and the rest is mangled")

seed("feed-newline", "C20", "core",
     [("feeder_stream = StringIO()", "feeder_stream = StringIO(newline=None)")],
     '''
import tty
m, s = os.openpty(); tty.setraw(s)
stream = os.fdopen(s, "r", encoding="utf-8")
feed("a\\rb")
assert str(getch(stream=stream, raw=True)) == "a\\rb"
''', "feeding text that contains a carriage return", "the fed text is changed (\\r becomes \\n)")

seed("alarm-left", "C21", "core",
     [('''        yield

    except TimeoutException:
        pass

    finally:
        signal.alarm(0)
''', '''        yield
        signal.alarm(0)

    except TimeoutException:
        pass

    finally:
''')],
     '''
import signal
from slate.core import timeout
try:
    with timeout(30):
        raise KeyError("x")
except KeyError:
    pass
left = signal.getitimer(signal.ITIMER_REAL)
signal.setitimer(signal.ITIMER_REAL, 0)
assert left == (0.0, 0.0), left
''', "a block under a timeout that raises an exception of its own", "the alarm stays pending and later kills or interrupts the process")

seed("batch-exception", "C22", "terminal",
     [('''        try:
            self.write_control(BEGIN_SYNCHRONIZED_UPDATE)

            yield

        finally:
            self.write_control(END_SYNCHRONIZED_UPDATE)
''', '''        try:
            self.write_control(BEGIN_SYNCHRONIZED_UPDATE)

            yield

        except Exception:
            self.write_control(END_SYNCHRONIZED_UPDATE)
            raise

        else:
            self.write_control(END_SYNCHRONIZED_UPDATE)
''')],
     '''
out = io.StringIO(); t = Terminal(stream=out)
try:
    with t.batch():
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert out.getvalue().endswith("\\x1b[?2026l"), repr(out.getvalue())
''', "an interrupt (not an ordinary exception) inside a batch", "the terminal is left in synchronized-update mode")

seed("width-unannounced", "C23", "terminal",
     [("        return self.size[0]\n", "        return get_terminal_size()[0]\n")],
     '''
t = Terminal(stream=io.StringIO()); seen = []
t.on_resize += lambda s: seen.append(tuple(s))
os.environ["COLUMNS"] = "17"
assert t.width == 17 and seen == [(17, 4)], seen
''', "a resize first noticed by asking for the width", "listeners are not called and the screen is not adapted")

seed("control-flush", "C24", "terminal",
     [("        if flush:  # no-cov\n", "        if flush and sequence.startswith(\"\\x1b\"):  # no-cov\n")],
     '''
class S(io.StringIO):
    n = 0
    def flush(self):
        self.n += 1
s = S(); t = Terminal(stream=s); n = s.n
t.bell()
assert s.n > n
''', "a control sequence that does not begin with an escape character", "it is not flushed")

seed("event-once", "C25", "event",
     [("        for callback in self._listeners:\n", "        for callback in dict.fromkeys(self._listeners):\n")],
     '''
e = Event("e"); seen = []
def one(d): seen.append(1); return False
def two(d): seen.append(2); return True
e += one
e += two
e += one
assert e(0) is True and seen == [1, 2, 1], seen
''', "one listener registered twice", "it is called once per emission instead of once per registration")

seed("colour-low-byte", "C26", "core",
     [("        rgb.append(part[:2])\n", "        rgb.append(part[-2:])\n")],
     '''
import tty, threading, termios
m, s = os.openpty(); tty.setcbreak(s)
os.dup2(s, 0); sys.stdin = os.fdopen(0, "r", closefd=False)
class Out(io.StringIO):
    def isatty(self):
        return True
    def write(self, d):
        if "]11;?" in d:
            os.write(m, b"\\x1b]11;rgb:12ab/34cd/56ef\\x1b\\\\")
        return super().write(d)
from slate.core import get_default_color
c = get_default_color("11", stream=Out())
assert c.hex.lower() == "#123456", c.hex
''', "a terminal that reports colours with more than 8 bits per channel", "the low byte of each channel is taken")

seed("getch-names", "C27", "__main__",
     [("""    print(" | ".join(map(lambda k: repr(k) if raw or len(k) == 1 else k, key.possible_values)))\n""",
       """    print(" | ".join(repr(k) if raw or len(k) == 1 else k for k in sorted({k[:9] for k in key})))\n""")],
     '''
import pty, select, subprocess, time
m, s = os.openpty()
p = subprocess.Popen([sys.executable, "-B", "-m", "slate", "getch"], stdin=s, stdout=s, env={
    **os.environ, "PYTHONPATH": os.getcwd()})
out, typed, end = b"", False, time.time() + 40
while time.time() < end:
    if select.select([m], [], [], 0.05)[0]:
        new = os.read(m, 9999)
        out += new
        for q in (b"10", b"11"):
            if b"]" + q + b";?" in new:
                os.write(m, b"\\x1b]" + q + b";rgb:1111/2222/3333\\x1b\\\\")
    if b"Waiting" in out and not typed:
        time.sleep(0.5)
        os.write(m, b"\\x1b[1;2D")
        typed = True
    if p.poll() is not None:
        break
p.kill(); p.wait()
assert b"shift-left" in out, out
''', "a key whose name is longer than nine characters", "the name is cut off")

seed("blend-unbounded", "C28", "color",
     [("from functools import cached_property, lru_cache\n", "from functools import cache as lru_cache, cached_property\n")],
     '''
import gc, tracemalloc
tracemalloc.start()
marks = []
for w in range(4):
    for i in range(6000):
        Color((w, i // 256, i % 256)).blend(Color((1, 2, 3)), 0.5)
    gc.collect()
    marks.append(tracemalloc.get_traced_memory()[0])
assert marks[3] - marks[2] < 60000 or marks[2] - marks[1] < 60000, marks
''', "many different colours blended over a long time", "every blend ever made is kept in memory")


def main():
    only = set(sys.argv[1:])
    env = {"PATH": os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8", "TERM": "xterm"}
    for id, (prop, file, changes, demo, needs, what) in SEEDS.items():
        if only and id not in only:
            continue
        copy = Path(f"/tmp/slate-seed-{os.getpid()}")
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("__pycache__"))
        d = ROOT / id
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.sh").write_text("#!/bin/bash\nexec timeout 60 /opt/venv/bin/python -B - <<'PYEND'\n"
                                   + PRE + demo.strip("\n") + "\nPYEND\n")
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs,
                                                 "what_it_breaks": what}, indent=1) + "\n")
        p = copy / "slate" / f"{file}.py"
        src = p.read_text()
        ok0 = subprocess.run(["bash", str(d / "demo.sh")], cwd=copy, env=env, capture_output=True,
                             text=True, stdin=subprocess.DEVNULL)
        new = src
        for a, b in changes:
            assert new.count(a) == 1, (id, new.count(a), a)
            new = new.replace(a, b)
        p.write_text(new)
        diff = subprocess.run(["git", "-C", str(copy), "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        ok1 = subprocess.run(["bash", str(d / "demo.sh")], cwd=copy, env=env, capture_output=True,
                             text=True, stdin=subprocess.DEVNULL)
        tests = test(copy, {**env, "PYTHONPATH": str(copy)})
        print(f"{id:20} {prop} clean={ok0.returncode} patched={ok1.returncode} tests={tests}"
              f" {(ok0.stderr or '')[-200:] if ok0.returncode else ''} {ok1.stderr.strip().splitlines()[-1:]}")
        shutil.rmtree(copy)


main()
