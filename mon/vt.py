"""A small VT emulator: the observer of everything Slate sends to a terminal.

It interprets output the way a terminal does and records what happened, so monitors judge
effects (cells, colours, modes, titles, painted cells) and never the bytes themselves.
Anything it does not understand is appended to `anomalies`.
"""

from __future__ import annotations

STYLE_ON = {
    1: "bold", 2: "dim", 3: "italic", 4: "underline", 5: "blink", 6: "fast_blink",
    7: "invert", 8: "conceal", 9: "strike",
}
STYLE_OFF = {
    22: ("bold", "dim"), 23: ("italic",), 24: ("underline",), 25: ("blink", "fast_blink"),
    26: ("fast_blink",), 27: ("invert",), 28: ("conceal",), 29: ("strike",),
}
# 99 is Slate's private "opaque" marker; terminals ignore unknown SGR numbers.
IGNORED_SGR = {99}

_LEVELS = (0, 95, 135, 175, 215, 255)
PALETTE = [
    (0, 0, 0), (170, 0, 0), (0, 170, 0), (170, 85, 0),
    (0, 0, 170), (170, 0, 170), (0, 170, 170), (170, 170, 170),
    (85, 85, 85), (255, 85, 85), (85, 255, 85), (255, 255, 85),
    (85, 85, 255), (255, 85, 255), (85, 255, 255), (255, 255, 255),
]
PALETTE += [(r, g, b) for r in _LEVELS for g in _LEVELS for b in _LEVELS]
PALETTE += [(8 + 10 * i,) * 3 for i in range(24)]
assert len(PALETTE) == 256


class Attrs:
    """Current rendition. Colours are None, ('idx', n) or ('rgb', r, g, b)."""

    __slots__ = ("styles", "fg", "bg")

    def __init__(self):
        self.reset()

    def reset(self):
        self.styles = frozenset()
        self.fg = None
        self.bg = None

    @property
    def is_default(self):
        return not self.styles and self.fg is None and self.bg is None

    def sgr(self, body: str, anomalies: list):
        """Applies an SGR body. Returns the codes applied (colour parameters left out)."""

        applied: list[int] = []
        if body.strip("0123456789;") != "":
            anomalies.append(f"malformed SGR {body!r}")
            return applied

        parts = [int(p) if p else 0 for p in body.split(";")]
        i = 0
        while i < len(parts):
            p = parts[i]
            applied.append(p)
            if p == 0:
                self.reset()
            elif p in STYLE_ON:
                self.styles = self.styles | {STYLE_ON[p]}
            elif p in STYLE_OFF:
                self.styles = self.styles - set(STYLE_OFF[p])
            elif 30 <= p <= 37:
                self.fg = ("idx", p - 30)
            elif 90 <= p <= 97:
                self.fg = ("idx", p - 82)
            elif 40 <= p <= 47:
                self.bg = ("idx", p - 40)
            elif 100 <= p <= 107:
                self.bg = ("idx", p - 92)
            elif p == 39:
                self.fg = None
            elif p == 49:
                self.bg = None
            elif p in (38, 48):
                col = None
                if parts[i + 1:i + 2] == [5] and len(parts) > i + 2 and parts[i + 2] < 256:
                    col = ("idx", parts[i + 2])
                    i += 2
                elif parts[i + 1:i + 2] == [2] and len(parts) > i + 4 and all(
                    v < 256 for v in parts[i + 2:i + 5]
                ):
                    col = ("rgb", *parts[i + 2:i + 5])
                    i += 4
                if col is None:
                    anomalies.append(f"bad extended colour in SGR {body!r}")
                    return applied
                if p == 38:
                    self.fg = col
                else:
                    self.bg = col
            elif p not in IGNORED_SGR:
                anomalies.append(f"unknown SGR code {p} in {body!r}")
            i += 1
        return applied


def to_rgb(col):
    """None or an (r, g, b) triplet for an emulator colour."""

    if col is None:
        return None
    if col[0] == "idx":
        return PALETTE[col[1]]
    return tuple(col[1:])


def decode_color(code: str):
    """Interprets an SGR colour body. Returns (layer, colour, anomalies)."""

    a = Attrs()
    anomalies: list[str] = []
    a.sgr(code, anomalies)
    if a.styles:
        anomalies.append(f"{code!r} sets styles")
    if (a.fg is None) == (a.bg is None):
        anomalies.append(f"{code!r} does not set exactly one layer")
        return None, None, anomalies
    return ("fg", a.fg, anomalies) if a.fg is not None else ("bg", a.bg, anomalies)


BLANK = (" ", frozenset(), None, None, "")


class VT:
    """The terminal: a grid plus modes, title and title stack."""

    def __init__(self, width, height, fill=BLANK, title="initial", title_stack=()):
        self.width, self.height = width, height
        self.grid = [[fill] * width for _ in range(height)]
        self.x = self.y = 0
        self.pending_wrap = False
        self.attrs = Attrs()
        self.link = ""
        self.modes: dict[int, bool] = {25: True}
        self.title = title
        self.title_stack = list(title_stack)
        self.title_underflow = 0
        self.anomalies: list[str] = []
        self.painted: list[tuple[int, int]] = []
        self.scrolled: list[list] = []
        self.queries: list[str] = []
        self.control_log: list[str] = []
        self._buf = ""

    # -- helpers ---------------------------------------------------------------
    def resize(self, width, height, fill=BLANK):
        """Resizes and scrambles: terminals reflow or crop as they like."""

        self.width, self.height = width, height
        self.grid = [[fill] * width for _ in range(height)]
        self.x = min(self.x, width - 1)
        self.y = min(self.y, height - 1)
        self.pending_wrap = False

    def take_painted(self):
        out, self.painted = self.painted, []
        return out

    def _line_feed(self):
        if self.y == self.height - 1:
            self.scrolled.append(self.grid.pop(0))
            self.grid.append([(" ", frozenset(), None, self.attrs.bg, "")] * self.width)
        else:
            self.y += 1

    def _print(self, ch):
        if self.pending_wrap:
            self.x = 0
            self._line_feed()
            self.pending_wrap = False
        a = self.attrs
        self.grid[self.y][self.x] = (ch, a.styles, a.fg, a.bg, self.link)
        self.painted.append((self.x, self.y))
        if self.x == self.width - 1:
            self.pending_wrap = True
        else:
            self.x += 1

    # -- input -----------------------------------------------------------------
    def feed(self, data: str):
        data = self._buf + data
        self._buf = ""
        i, n = 0, len(data)
        while i < n:
            ch = data[i]
            if ch == "\x1b":
                j = self._escape(data, i)
                if j is None:
                    self._buf = data[i:]
                    return
                i = j
                continue
            if ch == "\n":
                self.pending_wrap = False
                self._line_feed()
            elif ch == "\r":
                self.pending_wrap = False
                self.x = 0
            elif ch == "\b":
                self.x = max(0, self.x - 1)
            elif ch == "\a":
                self.control_log.append("BEL")
            elif ch < " " or ch == "\x7f":
                self.anomalies.append(f"control character {ch!r}")
            else:
                self._print(ch)
            i += 1

    def finish(self):
        if self._buf:
            self.anomalies.append(f"unterminated sequence {self._buf!r}")
            self._buf = ""

    def _escape(self, data, i):
        n = len(data)
        if i + 1 >= n:
            return None
        kind = data[i + 1]
        if kind == "[":
            j = i + 2
            while j < n and not "@" <= data[j] <= "~":
                if data[j] < " ":
                    self.anomalies.append(f"broken CSI {data[i:j + 1]!r}")
                    return j
                j += 1
            if j >= n:
                return None
            self._csi(data[i + 2:j], data[j])
            return j + 1
        if kind in "]_P":
            j = i + 2
            while j < n:
                if data[j] == "\a" and kind == "]":
                    self._string(kind, data[i + 2:j])
                    return j + 1
                if data[j] == "\x1b" and j + 1 < n and data[j + 1] == "\\":
                    self._string(kind, data[i + 2:j])
                    return j + 2
                j += 1
            return None
        self.anomalies.append(f"unknown escape {data[i:i + 2]!r}")
        return i + 2

    def _csi(self, body, final):
        if final == "m":
            self.attrs.sgr(body, self.anomalies)
            return
        if final in "Hf":
            try:
                row, col = (int(p) if p else 1 for p in (body.split(";") + [""])[:2])
            except ValueError:
                self.anomalies.append(f"bad cursor position {body!r}")
                return
            row, col = max(row, 1), max(col, 1)
            if row > self.height or col > self.width:
                self.anomalies.append(
                    f"cursor position {body!r} outside {self.width}x{self.height}"
                )
            self.y, self.x = min(row, self.height) - 1, min(col, self.width) - 1
            self.pending_wrap = False
            return
        if final in "hl" and body.startswith("?") and "$" not in body:
            for p in body[1:].split(";"):
                if not p.isdigit():
                    self.anomalies.append(f"bad mode {body!r}")
                    continue
                self.modes[int(p)] = final == "h"
                self.control_log.append(f"{'+' if final == 'h' else '-'}{p}")
            return
        if final == "p" and body.startswith("?") and body.endswith("$"):
            self.queries.append("mode" + body[1:-1])
            return
        if final == "t":
            if body in ("22;0", "22;2", "22"):
                self.title_stack.append(self.title)
                self.control_log.append("title-push")
            elif body in ("23;0", "23;2", "23"):
                if self.title_stack:
                    self.title = self.title_stack.pop()
                else:
                    self.title_underflow += 1
                self.control_log.append("title-pop")
            elif body == "14":
                self.queries.append("pixels")
            else:
                self.anomalies.append(f"unknown window op {body!r}")
            return
        if final in "JKX" and body.isdigit() | (body == ""):
            self._erase(final, int(body or 0))
            return
        if final in "ABCDEFGd`" and body.isdigit() | (body == ""):
            n = max(int(body or 1), 1)
            x, y = self.x, self.y
            if final in "AF":
                y -= n
            elif final in "BE":
                y += n
            elif final == "C":
                x += n
            elif final == "D":
                x -= n
            elif final in "G`":
                x = n - 1
            else:
                y = n - 1
            if final in "EF":
                x = 0
            self.x, self.y = min(max(x, 0), self.width - 1), min(max(y, 0), self.height - 1)
            self.pending_wrap = False
            return
        self.anomalies.append(f"unknown CSI {body!r} {final!r}")

    def _erase(self, final, how):
        """ED, EL and ECH: blanks in the current background."""

        here = self.y * self.width + self.x
        start, end = (0, self.width * self.height) if final == "J" else (
            self.y * self.width, (self.y + 1) * self.width)
        if final == "X":
            start, end = here, min(end, here + max(how, 1))
        elif how == 0:
            start = here
        elif how == 1:
            end = here + 1
        for k in range(start, end):
            y, x = divmod(k, self.width)
            self.grid[y][x] = (" ", frozenset(), None, self.attrs.bg, "")
            self.painted.append((x, y))

    def _string(self, kind, body):
        if kind == "]":
            if body.startswith("8;"):
                self.link = body.split(";", 2)[2] if body.count(";") >= 2 else ""
                return
            if body[:2] in ("0;", "2;"):
                self.title = body[2:]
                self.control_log.append("title-set")
                return
            if body in ("10;?", "11;?"):
                self.queries.append("osc" + body[:2])
                return
        if kind == "_" and body.startswith("G"):
            return
        self.anomalies.append(f"unknown string sequence {kind!r} {body!r}")

    # -- observation -----------------------------------------------------------
    def cell(self, x, y):
        """(char, styles, fg rgb or None, bg rgb or None)."""

        ch, styles, fg, bg, _ = self.grid[y][x]
        return ch, styles, to_rgb(fg), to_rgb(bg)

    def region(self, x0, y0, w, h):
        return [[self.cell(x0 + x, y0 + y) for x in range(w)] for y in range(h)]
