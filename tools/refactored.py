import sys
R='/tmp/refac/slate/'
def sub(f, *prs):
    p=R+f+'.py'; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
def cut(f, start, end, new):
    p=R+f+'.py'; s=open(p).read()
    i=s.index(start); j=s.index(end,i)
    open(p,'w').write(s[:i]+new+s[j:])

# --- screen
cut('screen','''        x, y = origin

        # Let the terminal''','''    def export_svg_with_styles''','''        left, top = origin
        out = []

        if self._pending_scroll:
            out.append(f"\\x1b[{top + self.height - 1};{left}H")
            out.append("\\n" * self._pending_scroll)
            self._pending_scroll = 0

        if redraw:
            out.append("\\x1b[0m")
            for i, row in enumerate(self._cells):
                out.append(f"\\x1b[{top + i};{left}H")
                out.extend(_format_cell(*cell) for cell in row)

            self._change_buffer.clear()

            return "".join(out)

        expected = None

        for position, text in self._change_buffer.gather():
            column, line = position[0] + left, position[1] + top

            if (column, line) != expected:
                out.append(f"\\x1b[{line};{column}f" if False else f"\\x1b[{line};{column}H")

            out.append(text)
            expected = (column + 1, line)

        self._change_buffer.clear()
        out.append("\\x1b[0m")

        return "".join(out)

''')
cut('screen','''    color = ";".join(color.ansi for color''','''class ChangeBuffer''','''    start = "".join(
        f"\\x1b[{item.ansi}m" for item in (back, fore) if item is not None
    )

    if not start and not char.startswith("\\x1b"):
        return char

    if not start and char.endswith("\\x1b[0m"):
        return char

    return start + char + "\\x1b[0m"


''')
cut('screen','''        for y in range(height):
            row: list''','''        self.width = width
''','''        old = self._cells if keep_original else []

        for y in range(height):
            previous = old[y][:width] if y < len(old) else []
            row = previous + [(fillchar, None, None)] * (width - len(previous))

            for x, cell in enumerate(row):
                change_buffer((x, y), _format_cell(*cell))

            cells_append(row)

''')
sub('screen',('''        for y, line in enumerate(write_matrix):
            for x, cell in enumerate(line):
                if cell is blank:
                    continue

                try:
                    alpha_stack = alpha_matrix[y][x]
                except:
                    alpha_stack = {}

                char, fg, bg, last, bleedthrough = cell
                blent = bg

                last = bg

                for i, color in enumerate(alpha_stack):
                    if color == last:
                        continue

                    last = color

                    blent = _get_blended(blent, color, alpha_addition=0.1)
                    if bleedthrough:
                        fg = _get_blended(
                            fg or Color.white(), color, alpha_addition=0.1
                        )

                if blent and blent.alpha != 1.0:
                    blent = _get_blended(
                        terminal_background,
                        blent,
                        is_background=True,
                        alpha_addition=0.1,
                    )

                bg = blent

                if fg is not None and fg.alpha != 1.0:
                    fg = _get_blended(bg, fg, is_background=False)

                new = (char, fg, bg)
''','''        for y, line in enumerate(write_matrix):
            for x, cell in enumerate(line):
                if cell is blank:
                    continue

                new = self._flatten(cell, alpha_matrix[y][x], terminal_background)
'''),('''    def render(self,''','''    @staticmethod
    def _flatten(cell, layers, terminal_background):
        """Returns the final look of a cell."""

        char, fg, base, _, shows_through = cell
        below = bg = base

        for layer in layers:
            if layer == below:
                continue

            bg = _get_blended(bg, layer, alpha_addition=0.1)

            if shows_through:
                fg = _get_blended(fg or Color.white(), layer, alpha_addition=0.1)

            below = layer

        if bg is not None and bg.alpha != 1.0:
            bg = _get_blended(
                terminal_background, bg, is_background=True, alpha_addition=0.1
            )

        if fg is not None and fg.alpha != 1.0:
            fg = _get_blended(bg, fg, is_background=False)

        return char, fg, bg

    def render(self,'''))
# --- event
sub('event',('''        output = False

        for callback in self._listeners:
            output |= bool(callback(data))

        return output''','''        results = [bool(callback(data)) for callback in self._listeners]

        return any(results)'''))
# --- span
cut('span','''        sequences = ""

        for fld in fields''','''    @property
    def attrs''','''        active = [code for name, code in SETTERS.items() if getattr(self, name)]
        colors = [
            item.ansi for item in (self.foreground, self.background) if item is not None
        ]

        def _sequence(codes: list[str]) -> str:
            return "\\x1b[" + ";".join(codes) + "m" if codes else ""

        return _sequence(active + colors), _sequence(active)

''')
cut('span','''        sequences = self._colorless_sequences if''','''    def get_svg_styles''','''        start = self._colorless_sequences if exclude_color else self._sequences
        length = len(self.text)
        chars = []

        for i, char in enumerate(self.text):
            lead = start if i == 0 or always_include_sequence else ""
            end = "\\x1b[0m" if start and self.reset_after and i == length - 1 else ""
            chars.append(lead + char + end)

        return tuple(chars)

''')
sub('span',('''    @lru_cache
    def _get_characters''','''    def _get_characters'''))
cut('span','''        line = line.rstrip("\\x1b")

        options''','''    @classmethod
    def first_from''','''        line = line.rstrip("\\x1b")
        options: dict[str, str | bool | Color | None] = {}
        rest = line

        while rest:
            mtch = RE_ANSI_STYLES.search(rest)

            if mtch is None:
                yield Span(rest, **options)  # type: ignore
                return

            plain, rest = rest[: mtch.start()], rest[mtch.end() :]

            if plain:
                yield Span(plain, **options)  # type: ignore

            if mtch[2] is not None:
                options["hyperlink"] = mtch[2]
                continue

            if mtch[0][-1] == "H":
                continue

            error_part = _parse_sequence(mtch[1], options)

            if error_part is not None:
                raise ValueError(f"Could not parse {error_part!r} in {line!r}.")

''')
cut('span','''        group = EMPTY_SPAN
        attrs =''','''    def get_characters(''','''        current = None
        key = None

        for char, fg, bg in line:
            span = (cls.first_from(char) or EMPTY_SPAN).mutate(
                foreground=fg, background=bg
            )
            span_key = {**span.attrs, "text": ""}

            if current is not None and span_key == key:
                current = current.mutate(text=current.text + span.text)
                continue

            if current is not None:
                yield current

            current, key = span, span_key

        if current is not None:
            yield current

''')
# --- color
sub('color',('''    @lru_cache
    def _blend(''','''    def _blend('''),
('''        red1, green1, blue1 = self.rgb
        red2, green2, blue2 = other.rgb

        return Color(
            (
                min(max(int(red1 + (red2 - red1) * alpha), 0), 255),
                min(max(int(green1 + (green2 - green1) * alpha), 0), 255),
                min(max(int(blue1 + (blue2 - blue1) * alpha), 0), 255),
            ),
            is_background=is_background,
        )''','''        channels = []

        for mine, others in zip(self.rgb, other.rgb):
            value = int((others - mine) * alpha + mine)
            channels.append(0 if value < 0 else 255 if value > 255 else value)

        return Color(tuple(channels), is_background=is_background)'''),
('''            # Normalize the color values
            red, green, blue = (x / 255 for x in self.rgb)

            # Calculate the eight-bit color index
            index = 16
            index += 36 * round(red * 5)
            index += 6 * round(green * 5)
            index += round(blue * 5)
''','''            red, green, blue = (round(5 * x / 255) for x in self.rgb)
            index = 16 + 36 * red + 6 * green + blue
'''),
('''            index = min(
                range(16), key=lambda i: geometric_difference(rgb, COLOR_TABLE[i])
            )
''','''            index, best = 0, float("inf")

            for i in range(16):
                difference = geometric_difference(COLOR_TABLE[i], rgb)

                if difference < best:
                    index, best = i, difference
'''))
# --- terminal
sub('terminal',('''        previous, self._previous_size = self._previous_size, size

        if previous is not None and size != previous:
            self.on_resize(size)

        return size''','''        return self._announce(size)

    def _announce(self, size):
        previous = self._previous_size
        self._previous_size = size

        if previous not in (None, size):
            self.on_resize(size)

        return size'''),
('''        try:
            set_echo(False)
            yield

        finally:
            set_echo(True)''','''        set_echo(False)

        try:
            yield

        finally:
            set_echo(True)''') if 0 else ('''    def show_cursor(self, value: bool = True) -> None:  # no-cov
        """Shows or hides the terminal's cursor."""

        if value:
            self.write_control(SHOW_CURSOR)

        else:
            self.write_control(HIDE_CURSOR)''','''    def show_cursor(self, value: bool = True) -> None:  # no-cov
        """Shows or hides the terminal's cursor."""

        self.write_control(SHOW_CURSOR if value else HIDE_CURSOR)'''),
('''            self.write_control("\\x1b[?1006h\\x1b[?1002h\\x1b[?1003h")

        else:
            self.write_control("\\x1b[?1006l\\x1b[?1002l\\x1b[?1003l")''','''            self.write_control("\\x1b[?1002;1003;1006h")

        else:
            for mode in (1006, 1003, 1002):
                self.write_control(f"\\x1b[?{mode}l")'''),
('''        ansi = self._screen.render(origin=self.origin, redraw=redraw)

        self.stream.write(ansi)
        self.stream.flush()''','''        self.write_control(self._screen.render(self.origin, redraw))'''))
# --- core
cut('core','''    # TODO: This is possible with the termios''','@@END','') if 0 else None
p=R+'core.py'; s=open(p).read()
i=s.index('    # TODO: This is possible with the termios module.')
s=s[:i]+'''    descriptor = sys.stdin.fileno()
    attributes = termios.tcgetattr(descriptor)

    if value:
        attributes[3] |= termios.ECHO
    else:
        attributes[3] &= ~termios.ECHO

    termios.tcsetattr(descriptor, termios.TCSADRAIN, attributes)
'''
open(p,'w').write(s)
sub('core',('''        while _is_ready(stream):
            buff += _read(1)

    finally''','''        while True:
            if not _is_ready(stream):
                break

            buff = buff + _read(1)

    finally'''),
('''feeder_stream = StringIO()''','''feeder_queue: list[str] = []'''),
('''        feeder_stream.write(text)''','''        feeder_queue.append(text)'''),
('''    with feeder_lock:
        with suppress(BlockingIOError):
            os.read(feeder_wakeup[0], 65536)

        fed_content = feeder_stream.getvalue()

        if fed_content:
            feeder_stream.truncate(0)
            feeder_stream.seek(0)

        return fed_content
''','''    feeder_lock.acquire()
    try:
        try:
            while len(os.read(feeder_wakeup[0], 512)) == 512:
                pass
        except BlockingIOError:
            pass

        fed_content, feeder_queue[:] = "".join(feeder_queue), []
    finally:
        feeder_lock.release()

    return fed_content
'''),
('''    def _remaining() -> float | None:
        """Returns how long we may still wait."""

        return None if deadline is None else max(deadline - monotonic(), 0.0)
''','''    def _remaining() -> float | None:
        """Returns how long we may still wait."""

        if deadline is None:
            return None

        left = deadline - monotonic()
        return left if left > 0 else 0
'''),
('''        ready: list[Any] = []

        # Something may also be fed while we wait
        while stream not in ready:
            ready = select([stream, feeder_wakeup[0]], [], [], _remaining())[0]

            if not ready:
                return None

            if feeder_wakeup[0] in ready and (fed_content := _take_fed()):
                return fed_content

        buff += _read(1)
''','''        while True:
            ready, _, _ = select([feeder_wakeup[0], descriptor], [], [], _remaining())

            if feeder_wakeup[0] in ready:
                fed_content = _take_fed()

                if fed_content:
                    return fed_content

            if descriptor in ready:
                break

            if not ready:
                return None

        buff += _read(1)
'''),
('''        while frame is not None:
            if frame.f_code is timeout.__wrapped__.__code__:  # type: ignore
                return

            frame = frame.f_back

        # Don't interrupt the clean-up after an earlier alarm
        error = sys.exc_info()[1]

        while error is not None:
            if isinstance(error, TimeoutException):
                return

            error = error.__context__
''','''        if _runs_in(frame, timeout.__wrapped__.__code__):  # type: ignore
            return

        # Don't interrupt the clean-up after an earlier alarm
        if any(isinstance(error, TimeoutException) for error in _chain(sys.exc_info()[1])):
            return
'''),('''@contextmanager
def timeout(''','''def _runs_in(frame, code):
    while frame is not None:
        if frame.f_code is code:
            return True

        frame = frame.f_back

    return False


def _chain(error):
    while error is not None:
        yield error
        error = error.__context__


@contextmanager
def timeout('''),
('''    key = _getch(stream, raw, duration)

    return default if key is None else key''','''    if (key := _getch(stream, raw, duration)) is not None:
        return key

    return default'''),
('''    _, red, green, blue = mtch.groups()

    rgb: list[str] = []
    for part in (red, green, blue):
        rgb.append(part[:2])

    return color("#" + "".join(rgb))''','''    return color("#" + "".join(part[:2] for part in mtch.groups()[1:]))'''),
('''    pressed = terminator == "M"

    event_name = MOUSE_EVENTS[event]

    if not pressed:
        event_name''','''    event_name = MOUSE_EVENTS[event]

    if terminator == "m":
        event_name'''))
