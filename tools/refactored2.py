"""A second behaviour-preserving rewrite of a scratch copy in /tmp/refac (see refactored.py): other data
structures throughout, private names changed, system calls exchanged for equivalent ones."""
R='/tmp/refac/slate/'
def sub(f, *prs):
    p=R+f+'.py'; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
def cut(f, start, end, new):
    p=R+f+'.py'; s=open(p).read()
    i=s.index(start); j=s.index(end,i)
    open(p,'w').write(s[:i]+new+s[j:])

# --- screen: a set of stale positions instead of rendered strings, layers kept per cell
cut('screen','class ChangeBuffer','class Screen:','''class _Stale:
    """The positions that the terminal does not show as they are stored."""

    def __init__(self):
        self._rows = {}

    def mark(self, x, y):
        self._rows.setdefault(y, set()).add(x)

    def mark_all(self, width, height):
        self._rows = {y: set(range(width)) for y in range(height)}

    def take(self):
        rows, self._rows = self._rows, {}

        for y in sorted(rows):
            for x in sorted(rows[y]):
                yield x, y


def _paint(cells, stale, left, top):
    """Yields the strings that bring the stale positions up to date."""

    here = None

    for x, y in stale:
        if here != (x, y):
            yield f"\\x1b[{y + top};{x + left}H"

        yield _format_cell(*cells[y][x])
        here = (x + 1, y)


''')
cut('screen','        self._cells: list[list[tuple[str, Color | None, Color | None]]] = []\n        self._change','    def resize','''        self._cells = []
        self._stale = _Stale()
        self.cursor = cursor
        self._top = 0
        self._feeds = 0
        self.resize((width, height), fillchar)

''')
cut('screen','        width, height = size\n','    def clear(self, fillchar: str = " ") -> None:\n        """Clears the screen','''        self.width, self.height = size
        empty = (fillchar, None, None)
        kept = self._cells if keep_original else []
        cells = [[empty] * self.width for _ in range(self.height)]

        for new, old in zip(cells, kept):
            common = min(len(new), len(old))
            new[:common] = old[:common]

        self._cells = cells
        self._stale.mark_all(self.width, self.height)

''')
cut('screen','        self.resize((self.width, self.height), fillchar, keep_original=False)','    def write(','''        self.resize((self.width, self.height), fillchar, keep_original=False)
        self.cursor = (0, 0)
        self._top = 0

    def _advance(self, rows):
        """Moves everything up by so many rows."""

        self._top += rows
        rows = min(rows, self.height)
        self._feeds += rows

        for _ in range(rows):
            self._cells.append([(" ", None, None)] * self.width)
            del self._cells[0]

        self._stale.mark_all(self.width, self.height)

        return rows

''')
cut('screen','        blank = (" ", None, terminal_background, False, False)','    def export_svg_with_styles','''        pending = {}

        for position, spans in data:
            x, y = position if position is not None else self.cursor
            spans = list(spans)
            excess = y - self._top - (self.height - 1)

            if excess > 0 and spans and 0 <= x < self.width:
                moved = self._advance(excess)
                pending = {
                    (px, py - moved): value
                    for (px, py), value in pending.items()
                    if py >= moved
                }

            y -= self._top

            for span in spans:
                x, y = self._layer(pending, span, x, y)

            self.cursor = (x, y + self._top)

        count = 0

        for (x, y), cell in pending.items():
            look = self._look(cell, terminal_background)

            if not force_overwrite and look == self._cells[y][x]:
                continue

            self._cells[y][x] = look
            self._stale.mark(x, y)
            count += 1

        return count

    def _inside(self, x, y):
        return 0 <= x < self.width and 0 <= y < self.height

    def _layer(self, pending, span, x, y):
        """Puts a span on top of the pending cells, and returns where it ends."""

        back = span.background
        glass = back is not None and back.alpha != 1.0
        marked = span.get_characters(exclude_color=True, always_include_sequence=True)

        for plain, char in zip(span.text, marked):
            if not self._inside(x, y):
                break

            if plain == "\\n":
                y += 1
                continue

            under = pending.get((x, y))

            if under is None or not glass:
                pending[x, y] = (char, span.foreground, back, [], False)

            else:
                panes = under[3] + [back]

                if plain.isspace() and not span.opaque:
                    pending[x, y] = (under[0], under[1], under[2], panes, char != under[0])
                else:
                    pending[x, y] = (char, span.foreground, under[2], panes, False)

            x += 1

            if x == self.width:
                x, y = 0, y + 1

        return x, y

    def _look(self, cell, terminal_background):
        """Flattens a cell."""

        char, fore, back, panes, through = cell
        previous = back

        for pane in panes:
            if pane != previous:
                back = _get_blended(back, pane, alpha_addition=0.1)

                if through:
                    fore = _get_blended(fore or Color.white(), pane, alpha_addition=0.1)

            previous = pane

        if back is not None and back.alpha < 1.0:
            back = _get_blended(terminal_background, back, is_background=True, alpha_addition=0.1)

        if fore is not None and fore.alpha < 1.0:
            fore = _get_blended(back, fore, is_background=False)

        return char, fore, back

    def render(self, origin: tuple[int, int] = (0, 0), redraw: bool = False) -> str:
        """Collects all buffered changes and returns them as a single string."""

        left, top = origin
        parts = []

        if self._feeds:
            parts.append(f"\\x1b[{top + self.height - 1};{left}H")
            parts.append(self._feeds * "\\n")
            self._feeds = 0

        if redraw:
            self._stale.mark_all(self.width, self.height)

        parts.extend(_paint(self._cells, self._stale.take(), left, top))

        if not redraw and not parts[-1:] or not parts[-1].endswith("\\x1b[0m"):
            parts.append("\\x1b[0m" * (not redraw))

        return "".join(parts)

''')
sub('screen',('from slate.core import RE_ANSI\n\n',''))
# --- event: listeners in a tuple
sub('event',('    _listeners: list[Callable[[T], bool]] = field(default_factory=list)\n','    _callbacks: tuple = ()\n'),
 ('        return len(self._listeners) > 0','        return self._callbacks != ()'),
 ('        for callback in self._listeners:\n            output |= bool(callback(data))\n\n        return output','        for callback in self._callbacks:\n            if callback(data):\n                output = True\n\n        return output'),
 ('        self._listeners.append(callback)','        self._callbacks = (*self._callbacks, callback)'),
 ('        self._listeners.clear()','        self._callbacks = ()'))
# --- core
sub('core',('    result = select([file], [], [], timeout)\n    return len(result[0]) > 0','''    waiting = poll()
    waiting.register(file, POLLIN)

    return bool(waiting.poll(None if timeout is None else timeout * 1000))'''),
 ('from select import select\n','from select import POLLIN, poll, select\n'),
 ('    os.system("stty " + ("echo" if value else "-echo"))','''    settings = termios.tcgetattr(sys.stdin.fileno())

    if value:
        settings[3] |= termios.ECHO
    else:
        settings[3] &= ~termios.ECHO

    termios.tcsetattr(sys.stdin.fileno(), termios.TCSADRAIN, settings)'''),
 ('''    resp = [""]

''',''),
 ('''    # Not all terminals reply
    def _read():
        resp[0] = getch_timeout(1.0, default="")

    t = threading.Thread(target=_read)
    t.start()

''',''),
 ('''    t.join()

    reply = str(resp[0])
''','''
    # Not all terminals reply
    reply = str(getch_timeout(1.0, default=""))
'''),
 ('feeder_stream = StringIO()\nfeeder_lock = threading.RLock()\n','_fed: deque[str] = deque()\n_fed_lock = threading.Lock()\n'),
 ('from codecs import','from collections import deque\nfrom codecs import'),
 ('''    with feeder_lock:
        feeder_stream.write(text)

        if os''','''    with _fed_lock:
        _fed.append(text)

        if os'''),
 ('''        fed_content = feeder_stream.getvalue()

        if fed_content:
            feeder_stream.truncate(0)
            feeder_stream.seek(0)

        return fed_content
''','''        taken = "".join(_fed)
        _fed.clear()

        return taken
'''),
 ('    with feeder_lock:\n        with','    with _fed_lock:\n        with'),
 ('    os.register_at_fork(after_in_child=_open_feeder_wakeup)','    os.register_at_fork(before=_fed_lock.acquire, after_in_parent=_fed_lock.release, after_in_child=lambda: (_fed_lock.release(), _open_feeder_wakeup()))'),
 ('''    color_term = os.getenv("COLORTERM", "").strip().lower()

    if color_term == "":
        color_term = term.split("xterm-")[-1]
''','''    color_term = os.getenv("COLORTERM", "").strip().lower() or term.rpartition("xterm-")[2]
'''),
 ('''        return COLOR_SPACE_CASCADE.index(other.value) < COLOR_SPACE_CASCADE.index(
            self.value
        )''','''        return not any(
            name == self.value
            for name in COLOR_SPACE_CASCADE[: COLOR_SPACE_CASCADE.index(other.value) + 1]
        )'''),
)
sub('core',("        decode = getincrementaldecoder(stream.encoding)().decode\n","        decoder = getincrementaldecoder(stream.encoding)()\n        decode = decoder.decode\n"))
# one read for all the bytes there are
cut('core','    def _read(count: int) -> str:','    if fed_content := _take_fed():','''    def _chunk() -> str:
        """Reads what is there."""

        out = ""

        for byte in os.read(stream.fileno(), 4096):
            try:
                out += decode(bytes([byte]))
            except UnicodeDecodeError:
                out += str(bytes([byte]))

        return out

''')
sub('core',('''        buff += _read(1)

        while _is_ready(stream):
            buff += _read(1)
''','''        buff = _chunk()

        # The rest of a character may still be on its way
        while _is_ready(stream, 0.0 if buff and not decoder.getstate()[0] else _remaining()):
            buff += _chunk()
'''))
# --- terminal: context managers as a class
cut('terminal','        try:\n            self.write_control(BEGIN_SYNC','    def set_title','''        with self._between(BEGIN_SYNCHRONIZED_UPDATE, END_SYNCHRONIZED_UPDATE):
            yield

    @contextmanager
    def _between(self, start, end):
        try:
            self.write_control(start)
            yield

        finally:
            self.write_control(end)

''')
sub('terminal',('        size = get_terminal_size()\n\n        previous, self._previous_size = self._previous_size, size\n\n        if previous is not None and size != previous:\n            self.on_resize(size)\n',
'''        size = get_terminal_size()
        changed = self._previous_size not in (None, size)
        self._previous_size = size

        if changed:
            self.on_resize(size)
'''),
 ('        changes = self._screen.write_bulk(\n            [\n                (cursor, Span.yield_from(item) if isinstance(item, str) else item)\n                for cursor, item in data\n            ],\n','''        items = []

        for cursor, item in data:
            if isinstance(item, str):
                item = [*Span.yield_from(item)]

            items.append((cursor, item))

        changes = self._screen.write_bulk(
            items,
'''),
)
# --- span: styles in a loop over a regular expression split
sub('span',('        return [*self._get_characters(exclude_color, always_include_sequence)]','        return list(self._get_characters(bool(exclude_color), bool(always_include_sequence)))'),
 ('    return all(9600 <= ord(char) <= 9631 for char in text)','    return not [char for char in text if not "\\u2580" <= char <= "\\u259f"]'),
 ('        return [self.mutate(text=part) for part in self.text.split(char)]','        return [replace(self, text=part) for part in self.text.split(char)]'),
 ('from dataclasses import dataclass, field, fields\n','from dataclasses import dataclass, field, fields, replace\n'),
)
# --- color
sub('color',('            red, green, blue = (x / 255 for x in self.rgb)\n','            red, green, blue = [x / 255 for x in self.rgb]\n'),
 ('''            index = min(
                range(16), key=lambda i: geometric_difference(rgb, COLOR_TABLE[i])
            )

            if index > 7:
                index += 82
            else:
                index += 30

            if self.is_background:
                index += 10

            return f"{index}"''','''            distances = [geometric_difference(rgb, entry) for entry in COLOR_TABLE[:16]]
            bright, index = divmod(distances.index(min(distances)), 8)

            return str((90 if bright else 30) + 10 * self.is_background + index)'''),
 ('    @lru_cache\n    def _blend(','    def _blend('),
 ('from functools import cached_property, lru_cache','from functools import cached_property'),
)
