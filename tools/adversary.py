"""A second, larger list of plausible breakages; adversary.py [name...] runs tests and the property's check.

Each entry: (name, property, file, [(old, new), ...]). Works in scratch copies under /tmp.
"""
import os, shutil, subprocess, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).parent))
from mutate import test, PY
V = Path(__file__).resolve().parent.parent
L = []
def a(name, prop, file, *changes):
    L.append((name, prop, file, changes))

a("partial-reset", "C01", "screen", ('''        return f"\\x1b[{color}m{char}\\x1b[0m"''',
 '''        end = "\\x1b[39m" if back is None else "\\x1b[0m"
        return f"\\x1b[{color}m{char}{end}"'''))
a("blank-alike", "C01", "screen", ('''                if force_overwrite or new != self._cells[y][x]:''',
 '''                old = self._cells[y][x]
                same = new == old or (
                    RE_ANSI.sub("", char) == " " == RE_ANSI.sub("", old[0]) and bg == old[2]
                )
                if force_overwrite or not same:'''))
a("fg-ignored-when-same-bg", "C01", "screen", ('''                if force_overwrite or new != self._cells[y][x]:''',
 '''                old = self._cells[y][x]
                if force_overwrite or new[::2] != old[::2] or (fg is not None and fg != old[1]):'''))
a("redraw-skip-scroll", "C02", "screen", ('''        if self._pending_scroll:
            buffer''','''        if self._pending_scroll and not redraw:
            buffer'''))
a("redraw-trailing-blanks", "C02", "screen", ('''                    _format_cell(*cell) for cell in row
                )''','''                    _format_cell(*cell) for cell in row
                ).rstrip() if row[-1][2] is None else buffer + f"\\x1b[{y};{x}H" + "".join(_format_cell(*cell) for cell in row)'''))
a("redraw-no-clear-when-offset", "C02", "screen", ('''            self._change_buffer.clear()

            return buffer''','''            if origin == (1, 1):
                self._change_buffer.clear()

            return buffer'''))
a("count-pending-once", "C03", "screen", ('''                    self._change_buffer[x, y] = _format_cell(*new)

                    changes += 1''','''                    if (x, y) not in self._change_buffer._data:
                        changes += 1

                    self._change_buffer[x, y] = _format_cell(*new)'''))
a("force-only-same-width", "C03", "screen", ('''                    changes += 1''','''                    changes += 1 if char.strip() or not force_overwrite else 0'''))
a("styled-repeat", "C03", "screen", ('''                if force_overwrite or new != self._cells[y][x]:''',
'''                if force_overwrite or new != self._cells[y][x] or (fg is not None and fg.alpha != 1.0) or span.hyperlink:'''))
a("newline-after-wrap", "C04", "screen", ('''                    if plain == "\\n":
                        y += 1''','''                    if plain == "\\n":
                        y += 0 if i and x == 0 and chars_len > self.width else 1'''))
a("clip-cursor", "C04", "screen", ('''            self.cursor = (x, y + self._scrollback_offset)''',
'''            self.cursor = (x, min(y, self.height) + self._scrollback_offset)'''))
a("clear-offset", "C04", "screen", ('''        self.cursor = (0, 0)
        self._scrollback_offset = 0''','''        self.cursor = (0, 0)
        if self._pending_scroll == 0:
            self._scrollback_offset = 0'''))
a("overflow-off", "C04", "screen", ('''                for _ in range(min(overflow, self.height)):
                    del''','''                for _ in range(min(overflow, self.height - 1)):
                    del'''))
a("scroll-empty", "C04", "screen", ('''if overflow > 0 and line and 0 <= x < self.width:''','''if overflow > 0 and 0 <= x < self.width:'''))
a("resize-same", "C05", "screen", ('''        width, height = size

        cells:''','''        width, height = size

        if keep_original and self._cells and len(self._cells) == height and len(self._cells[0]) == width:
            return

        cells:'''))
a("resize-kept-blank", "C05", "screen", ('''                    cells[y][x] = char, fore, back
''','''                    if char == " " and back is None:
                        continue

                    cells[y][x] = char, fore, back
'''))
a("resize-scroll-left", "C05", "screen", ('''        self.width = width
        self.height = height

        self._cells = cells''','''        self.width = width
        self.height = height
        self._pending_scroll = min(self._pending_scroll, max(0, height - 1))

        self._cells = cells'''))
a("resize-cells-bleed", "C05", "screen", ('''                    change_buffer((x, y), _format_cell(char, fore, back))''',
'''                    change_buffer((x, y), _format_cell(char, fore, back) if back is not None or fore is None else f"\\x1b[{fore.ansi}m{char}")'''))
a("bulk-cursor-none", "C06", "screen", ('''        for (cursor, line) in data:
            x, y = self.cursor if cursor is None else cursor''','''        start = self.cursor

        for (cursor, line) in data:
            x, y = start if cursor is None else cursor'''))
a("bulk-first-str", "C06", "terminal", ('''(cursor, Span.yield_from(item) if isinstance(item, str) else item)''',
'''(cursor, [Span(item)] if isinstance(item, str) and "\\x1b[" not in item else Span.yield_from(item) if isinstance(item, str) else item)'''))
a("bulk-force-lost", "C06", "screen", ('''                char, fg, bg, last, bleedthrough = cell''','''                char, fg, bg, last, bleedthrough = cell
                if char == " " and fg is None and bg is None and len(data) > 1 and self._cells[y][x][2] is None:
                    char = self._cells[y][x][0] if self._cells[y][x][0] == " " else char
                    if self._cells[y][x][0].startswith("\\x1b[4m"):
                        continue'''))
a("nobg-not-hiding", "C07", "screen", ('''                    else:
                        alpha_matrix[y][x].clear()''','''                    elif background is not None:
                        alpha_matrix[y][x].clear()'''))
a("layer-dedupe", "C07", "screen", ('''                    if color == last:
                        continue

                    last = color
''','''                    if color in alpha_stack[:i]:
                        continue
'''))
a("text-on-raw-bg", "C07", "screen", ('''                if fg is not None and fg.alpha != 1.0:
                    fg = _get_blended(bg, fg,''','''                if fg is not None and fg.alpha != 1.0:
                    fg = _get_blended(cell[2], fg,'''))
a("bleed-once", "C07", "screen", ('''                    if bleedthrough:
                        fg''','''                    if bleedthrough and i == 0:
                        fg'''))
a("blank-bleed-style", "C07", "screen", ('''RE_ANSI.sub("", char).strip() == ""''','''char.strip() == ""'''))
a("empty-slice", "C08", "span", ('''        return self.mutate(text=self.text[sli])''','''        text = self.text[sli]
        return self.mutate(text=text) if text else EMPTY_SPAN'''))
a("split-noreset", "C08", "span", ('''        return [self.mutate(text=part) for part in self.text.split(char)]''',
'''        return [Span(**{**self.attrs, "text": part}) for part in self.text.split(char)]'''))
a("single-char-reset", "C08", "span", ('''            if sequences != "" and self.reset_after:
                last''','''            if remaining_sequences != "" and self.reset_after:
                last'''))
a("fastblink-off", "C09", "span", ('''                if key == "blink":''','''                if key == "blink" and len(parts) == 1:'''))
a("bright-bg-end", "C09", "span", ('''return body.startswith("4") or (body.startswith("10") and len(body) > 2)''',
'''return body.startswith("4") or body in ("100", "101", "102", "103", "104", "105", "106")'''))
a("reset-first-only", "C09", "span", ('''        if part in ["", "0"]:''','''        if part in ["", "0"] and i == 0:'''))
a("link-ends-style", "C09", "span", ('''                options["hyperlink"] = hyperlink
                continue''','''                options["hyperlink"] = hyperlink
                if not hyperlink:
                    options.pop("underline", None)
                continue'''))
a("zero-digit", "C09", "span", ('''            options.clear()
            options["hyperlink"] = hyperlink''','''            opaque = options.get("opaque", False)
            options.clear()
            options["hyperlink"] = hyperlink
            options["invert"] = options.get("invert", False) or opaque'''))
a("width-strip", "C10", "core", ('''    return len(RE_ANSI.sub("", text))''','''    return len(RE_ANSI.sub("", text).rstrip("\\x1b"))'''))
a("width-greedy", "C10", "core", ('''(?:\\x1b\\](.*?)\\x1b\\\\)''','''(?:\\x1b\\](.*)\\x1b\\\\)'''))
a("svg-class-clash", "C11", "screen", ('''                if previous_attrs != span.attrs:''','''                if previous_attrs is None or {**previous_attrs, "text": "", "dim": 0} != {**span.attrs, "text": "", "dim": 0}:'''))
a("svg-group-blank", "C11", "span", ('''            if new_attrs == attrs:
                group''','''            if new_attrs == attrs or (span.text == " " and bg == group.background and not span.invert and group.text):
                group'''))
a("svg-default-black", "C11", "terminal", ('''default_foreground=default_foreground or self.foreground_color''','''default_foreground=default_foreground if default_background else self.foreground_color'''))
a("svg-underline-strike", "C11", "span", ('''css[key] = f"{css[key]} {value}" if key in css else value''','''css[key] = value'''))
a("eq-hex", "C12", "color", ('''return self.rgb == other.rgb and self.alpha == other.alpha''','''return self.hex == other.hex and round(self.alpha, 2) == round(other.alpha, 2)'''))
a("blend-cache-layer", "C12", "color", ('''    def blend_complement(self''','''    def __hash__(self) -> int:
        return hash(self.rgb)

    def blend_complement(self'''))
a("hex-upper", "C13", "color", ('''            if len(description) == 9:
                alpha = int''','''            if len(description) == 9 and description[-2:] != "FF":
                alpha = int'''))
a("ansi-bg-bright", "C13", "color", ('''        is_background = parts[0].startswith("4")''','''        is_background = parts[0].startswith("4") or len(parts) > 3 and parts[0] == "48"'''))
a("nocolor-kept", "C14", "color", ('''        if terminal.color_space is ColorSpace.NO_COLOR:
            return''','''        if terminal.color_space is ColorSpace.NO_COLOR and not (self._constructor or "").startswith(("38;5;23", "48;5;23")):
            return'''))
a("std-bright-bg", "C14", "color", ('''            if self.is_background:
                index += 10

            return f"{index}"''','''            if self.is_background:
                index += 10 if index != 97 else 3

            return f"{index}"'''))
a("blend-layer-false", "C15", "color", ('''        if is_background is None:
            is_background = self.is_background

        red1''','''        is_background = is_background or self.is_background

        red1'''))
a("hue-negative", "C15", "color", ('''hls_to_rgb((hue + amount) % 1, lightness, saturation)''','''hls_to_rgb(hue + amount - int(hue + amount), lightness, min(saturation, 0.999) if amount < 0 else saturation)'''))
a("complement-grey", "C15", "color", ('''        hue, lightness, saturation = self.hls
        rgb = hls_to_rgb''','''        hue, lightness, saturation = self.hls
        if amount < 0:
            amount = -amount
        rgb = hls_to_rgb'''))
a("contrast-black-ignored", "C16", "color", ('''        return (black or DEFAULT_BLACK)''','''        return (black if black is not None and black.luminance < base.luminance else DEFAULT_BLACK)'''))
a("nocolor-empty", "C17", "core", ('''    if os.getenv("NO_COLOR") is not None:''','''    if os.getenv("NO_COLOR"):'''))
a("override-unchanged", "C17", "terminal", ('''        self._forced_color_space = new
        self.on''','''        if new is not None and self._forced_color_space is new:
            return

        self._forced_color_space = new
        self.on'''))
a("term-only-xterm", "C17", "core", ('''    if color_term == "":
        color_term''','''    if color_term not in ["24bit", "truecolor", "256color"]:
        color_term'''))
a("mouse-match", "C18", "core", ('''RE_MOUSE_EVENT.fullmatch(code)''','''RE_MOUSE_EVENT.match(code)'''))
a("mouse-release-drag", "C18", "core", ('''    if not pressed:
        event_name''','''    if not pressed and "drag" in event_name:
        return None

    if not pressed:
        event_name'''))
a("mouse-zero", "C18", "core", ('''    return f"mouse:{event_name}@{posx};{posy}"''','''    return f"mouse:{event_name}@{int(posx) % 65536};{posy}"'''))
a("burst-cap", "C19", "core", ('''        while _is_ready(stream):''','''        while len(buff) < 1024 and _is_ready(stream):'''))
a("restore-flush", "C19", "core", ('''        termios.tcsetattr(descriptor, termios.TCSADRAIN, old_settings)''','''        termios.tcsetattr(descriptor, termios.TCSAFLUSH, old_settings)'''))
a("restore-no-finally", "C19", "core", ('''    except KeyboardInterrupt:
        key = chr(3)''','''    except (KeyboardInterrupt, InterruptedError):
        key = chr(3)'''), ('''    finally:
        # reset terminal state, set echo on
        termios''','''    except BaseException as exc:
        if isinstance(exc, Exception):
            raise

        termios.tcsetattr(descriptor, termios.TCSADRAIN, old_settings)
        raise

    else:
        termios'''))
a("feed-unlocked", "C20", "core", ('''    with feeder_lock:
        feeder_stream.write(text)''','''    feeder_stream.write(text)'''))
a("feed-peek-unlocked", "C20", "core", ('''    with feeder_lock:
        if fed_content := feeder_stream.getvalue():
            feeder_stream.truncate(0)
            feeder_stream.seek(0)

            return fed_content''','''    if fed_content := feeder_stream.getvalue():
        with feeder_lock:
            feeder_stream.truncate(0)
            feeder_stream.seek(0)

            return fed_content'''))
a("handler-callable", "C21", "core", ('''        if previous_handler is not None:''','''        if callable(previous_handler):'''))
a("alarm-only-late", "C21", "core", ('''    except TimeoutException:
        pass

    finally:
        signal.alarm(0)
''','''    except TimeoutException:
        pass

    else:
        signal.alarm(0)

    finally:
'''))
a("timeout-base", "C21", "core", ('''    except TimeoutException:
        pass''','''    except (TimeoutException, TimeoutError):
        pass'''))
a("title-empty", "C22", "terminal", ('''        if new is None:
            if self''','''        if not new:
            if self'''))
a("alt-title-normal", "C22", "terminal", ('''            yield

        finally:
            self.write_control(END_ALT_BUFFER)
            self.set_title(None)
''','''            yield
            self.set_title(None)

        finally:
            self.write_control(END_ALT_BUFFER)
'''))
a("mouse-entry", "C22", "terminal", ('''        try:
            self.set_report_mouse(True)
            yield
''','''        self.set_report_mouse(True)

        try:
            yield
'''))
a("size-late", "C23", "terminal", ('''        previous, self._previous_size = self._previous_size, size

        if previous is not None and size != previous:
            self.on_resize(size)
''','''        previous = self._previous_size

        if previous is not None and size != previous:
            self._previous_size = size
            self.on_resize(size)

        elif previous is None:
            self._previous_size = size
'''))
a("size-shrink", "C23", "terminal", ('''        if previous is not None and size != previous:''','''        if previous is not None and (size[0] - previous[0], size[1] - previous[1]) != (0, 0) and sum(size) != sum(previous):'''))
a("size-surface-late", "C23", "terminal", ('''        self.on_resize += _on_resize
''','''        self.on_resize._listeners.append(_on_resize)
        _append = self.on_resize._listeners.append
'''))
a("draw-unflushed", "C24", "terminal", ('''        self.stream.write(ansi)
        self.stream.flush()''','''        self.stream.write(ansi)
        if redraw or "\\x1b[" in ansi[:-4]:
            self.stream.flush()'''))
a("event-unique", "C25", "event", ('''        self._listeners.append(callback)
        return''','''        if callback not in self._listeners:
            self._listeners.append(callback)
        return'''))
a("event-truthy", "C25", "event", ('''            output |= callback(data) or False''','''            output = bool(callback(data)) or output'''))
a("event-shared", "C25", "event", ('''        self._listeners.clear()''','''        self._listeners = []'''))
a("palette-any", "C26", "core", ('''    mtch = RE_PALETTE_REPLY.match(reply)
    if mtch is None:''','''    mtch = RE_PALETTE_REPLY.match(reply)
    if mtch is None or mtch[2] == mtch[3] == mtch[4] == "0000":'''))
a("res-swapped", "C26", "terminal", ('''            return (int(mtch[2]), int(mtch[1]))''','''            return (int(mtch[2]), int(mtch[1]) or self.resolution_fallback[1])'''))

# ---- third list
a("bg-is-terminals", "C01", "screen", ('''                bg = blent

''','''                bg = blent if blent != terminal_background else None

'''))
a("fmt-cache-eq", "C01", "screen", ('''def _format_cell(char''','''_FORMATTED: dict = {}


def _format_cell(char: str, fore: Color | None, back: Color | None) -> str:
    key = (char, fore and fore.rgb, back and back.rgb, fore and fore.is_background)
    if len(_FORMATTED) > 500:
        _FORMATTED.clear()
    if key not in _FORMATTED:
        _FORMATTED[key] = _do_format_cell(char, fore, back)
    return _FORMATTED[key] if len(char) > 1 else _FORMATTED[key]


def _do_format_cell(char'''))
a("skip-space-run", "C01", "screen", ('''            if previous_x is not None and (x == previous_x + 1 and y == previous_y):
                buffer += char''','''            if previous_x is not None and y == previous_y and 1 <= x - previous_x <= 2:
                buffer += "\\x1b[C" * (x - previous_x - 1) + char'''))
a("next-line-lf", "C01", "screen", ('''            if previous_x is not None and (x == previous_x + 1 and y == previous_y):
                buffer += char''','''            if previous_x is not None and (x == previous_x + 1 and y == previous_y):
                buffer += char
            elif previous_y is not None and x == origin[0] and y == previous_y + 1:
                buffer += "\\r\\n" + char'''))
a("redraw-crlf", "C02", "screen", ('''            for row in self._cells:
                buffer += f"\\x1b[{y};{x}H" + "".join(''','''            for i, row in enumerate(self._cells):
                buffer += (f"\\x1b[{y};{x}H" if i == 0 else "\\r\\n") + "".join('''))
a("redraw-skip-blank", "C02", "screen", ('''            for row in self._cells:
                buffer''','''            for row in self._cells:
                if all(cell == (" ", None, None) for cell in row):
                    y += 1
                    continue
                buffer'''))
a("redraw-pending-kept", "C02", "screen", ('''            buffer += f"\\x1b[{y + self.height - 1};{x}H" + "\\n" * self._pending_scroll
            self._pending_scroll = 0''','''            buffer += f"\\x1b[{y + self.height - 1};{x}H" + "\\n" * self._pending_scroll
            self._pending_scroll = 0 if not redraw else self._pending_scroll'''))
a("force-sticky", "C03", "screen", ('''        blank = (" ", None, terminal_background, False, False)''','''        self._force = force_overwrite = force_overwrite or getattr(self, "_force", False) and len(data) > 3
        blank = (" ", None, terminal_background, False, False)'''))
a("style-order-repeat", "C03", "screen", ('''        for (cursor, line) in data:
            x, y =''','''        if len(data) > 2:
            data = data[:1] + [item for item in data[1:] if item[0] is not None or item[1]]
            force_overwrite = force_overwrite or any(c is None for c, _ in data)
        for (cursor, line) in data:
            x, y ='''))
a("wrap-early", "C04", "screen", ('''                    if next_x >= self.width:''','''                    if next_x >= self.width and not (last and span is line[-1]):'''))
a("wrap-nl-col0", "C04", "screen", ('''                    if plain == "\\n":
                        y += 1
''','''                    if plain == "\\n":
                        y += 1
                        x = x if i else 0
'''))
a("scroll-off-x", "C04", "screen", ('''            if overflow > 0 and line and 0 <= x < self.width:''','''            if overflow > 0 and line:'''))
a("scroll-offset-pend", "C04", "screen", ('''        self._scrollback_offset += count
        count = min(count, self.height)''','''        count = min(count, self.height)
        self._scrollback_offset += count'''))
a("cursor-on-clip", "C04", "screen", ('''            self.cursor = (x, y + self._scrollback_offset)''','''            if 0 <= x < self.width:
                self.cursor = (x, y + self._scrollback_offset)'''))
a("resize-cursor", "C04", "terminal", ('''            self._screen.resize(data)

''','''            self._screen.resize(data)
            self._screen.cursor = (0, 0)

'''))
a("resize-shared-row", "C05", "screen", ('''                    cells[y][x] = char, fore, back
                    change_buffer((x, y), _format_cell(char, fore, back))''','''                    cells[y][x] = char, fore, back
                    if (char, fore, back) != (fillchar, None, None):
                        change_buffer((x, y), _format_cell(char, fore, back))'''))
a("resize-norows", "C05", "screen", ('''                if y >= height:
                    break
''','''                if y >= height or not row[:width]:
                    break

                if width < self.width and all(cell == row[0] for cell in row):
                    continue
'''))
a("resize-term-discard", "C05", "terminal", ('''            self._screen.resize(data)

''','''            self._screen.resize(data, keep_original=data[0] >= self._screen.width)

'''))
a("bulk-str-once", "C06", "terminal", ('''                (cursor, Span.yield_from(item) if isinstance(item, str) else item)''','''                (cursor, [Span.first_from(item) or Span("")] if isinstance(item, str) else item)'''))
a("bulk-sorted", "C06", "screen", ('''        for (cursor, line) in data:
            x, y =''','''        if all(cursor is not None for cursor, _ in data):
            data = sorted(data, key=lambda item: item[0][1])

        for (cursor, line) in data:
            x, y ='''))
a("bulk-dedup", "C06", "screen", ('''        for (cursor, line) in data:
            x, y =''','''        if all(cursor is not None for cursor, _ in data):
            data = [*{cursor: (cursor, line) for cursor, line in data}.values()]

        for (cursor, line) in data:
            x, y ='''))
a("bulk-cursor-none", "C06", "screen", ('''            x, y = self.cursor if cursor is None else cursor
            line''','''            x, y = cursor or start
            line'''), ('''        for (cursor, line) in data:''','''        start = self.cursor
        for (cursor, line) in data:'''))
a("alpha-stack-noscroll", "C07", "screen", ('''                    del write_matrix[0], alpha_matrix[0]
''','''                    del write_matrix[0]
'''), ('''                    alpha_matrix.append([[] for _ in range(self.width)])
''',''''''))
a("alpha0-opaque", "C07", "screen", ('''bg_has_alpha = background is not None and background.alpha != 1.0''','''bg_has_alpha = background is not None and background.alpha not in (0.0, 1.0)'''))
a("tbg-write", "C07", "terminal", ('''            cursor=cursor,
            force_overwrite=force_overwrite,
            terminal_background=self.background_color.as_background()''','''            cursor=cursor,
            force_overwrite=force_overwrite,'''))
a("tbg-bulk", "C07", "terminal", ('''                for cursor, item in data
            ],
            force_overwrite=force_overwrite,
            terminal_background=self.background_color.as_background()''','''                for cursor, item in data
            ],
            force_overwrite=force_overwrite,
            terminal_background=self.foreground_color.as_background()'''))
a("same-layer-anywhere", "C07", "screen", ('''                    if color == last:
                        continue
''','''                    if color == last or color in alpha_stack[:i]:
                        continue
'''))
a("opaque-flag-ignored-nonspace", "C07", "screen", ('''.strip() == "" and not span.opaque''','''.strip() == "" and not (span.opaque and foreground)'''))
a("fg-on-none", "C07", "screen", ('''                    fg = _get_blended(bg, fg, is_background=False)''','''                    fg = _get_blended(bg or terminal_background, fg, is_background=False, alpha_addition=0.1)'''))
a("split-limit", "C08", "span", ('''        return [self.mutate(text=part) for part in self.text.split(char)]''','''        return [self.mutate(text=part) for part in self.text.split(char) if part or char != " "]'''))
a("slice-clip", "C08", "span", ('''        return self.mutate(text=self.text[sli])''','''        if isinstance(sli, slice) and self.text[sli] == self.text:
            return self
        return self.mutate(text=self.text[sli], reset_after=True if sli == -1 else self.reset_after)'''))
a("chars-noreset", "C08", "span", ('''            if sequences != "" and self.reset_after:
                last''','''            if remaining_sequences != "" and self.reset_after:
                last'''))
a("parse-23-strike", "C09", "span", ('''                if key == "blink":
                    options["fast_blink"] = False''','''                if key == "blink":
                    options["fast_blink"] = False

                if key == "underline":
                    options["strike"] = False'''))
a("parse-link-reset", "C09", "span", ('''            hyperlink = options.get("hyperlink", "")
            options.clear()
            options["hyperlink"] = hyperlink
            continue''','''            options.clear()
            continue'''))
a("width-tabs", "C10", "core", ('''    return len(RE_ANSI.sub("", text))''','''    return len(RE_ANSI.sub("", text).rstrip("\\x1b"))'''))
a("svg-apos", "C11", "span", ('''    return escape(text).replace(" ", "&#160;")''','''    return escape(text, quote=False).replace(" ", "&#160;") if "&" not in text else text.replace("&", "&amp;").replace("<", "&lt;").replace(" ", "&#160;")'''))
a("svg-round-x", "C11", "span", ('''        x = round(x, 2)
        y = round(y, 2)''','''        x = round(x)
        y = round(y, 2)'''))
a("svg-class-reuse", "C11", "screen", ('''                if previous_attrs != span.attrs:
                    i += 1''','''                if previous_attrs is None or {**previous_attrs, "text": ""} != {**span.attrs, "text": "", "bold": previous_attrs["bold"]}:
                    i += 1'''))
a("color-hash", "C12", "color", ('''        return self.rgb == other.rgb and self.alpha == other.alpha''','''        return self.hex == other.hex and round(self.alpha, 1) == round(other.alpha, 1)'''))
a("contrast-mutates", "C12", "color", ('''        if self.is_background == setting:
            return self
''','''        if self.is_background == setting:
            return self

        if self.alpha == 1.0 and setting:
            object.__setattr__(self, "is_background", True)
            self.__dict__.pop("ansi", None)
            return self
'''))
a("blend-key", "C12", "color", ('''    @lru_cache
    def blend(''','''    def blend(self, other: Color, alpha: float, is_background: bool | None = None) -> Color:
        key = (self.rgb, other.rgb, round(alpha, 2), is_background)
        if len(_BLENDS) > 64:
            _BLENDS.clear()
        if key not in _BLENDS:
            _BLENDS[key] = self._blend(other, alpha, is_background)
        return _BLENDS[key]

    def _blend('''),('''OFF_WHITE = ''','''_BLENDS: dict = {}
OFF_WHITE = '''))
a("hex-alpha", "C13", "color", ('''                alpha = int(description[-2:], base=16) / 255''','''                alpha = round(int(description[-2:], base=16) / 255, 2)'''))
a("hex-short", "C13", "color", ('''        hexstring = hexstring.lstrip("#")
''','''        hexstring = hexstring.lstrip("#").rstrip("0").ljust(6, "0") if len(hexstring) > 7 else hexstring.lstrip("#")
'''))
a("keep-higher", "C14", "color", ('''        if terminal.color_space >= origin and (''','''        if (terminal.color_space >= origin or origin is ColorSpace.EIGHT_BIT and self.alpha != 1.0) and ('''))
a("nocolor-floor", "C14", "color", ('''min(232 + self.brightness*23, 255):.0f''','''232 + int(self.brightness * 24):.0f'''))
a("lighten-clip", "C15", "color", ('''        return self.blend(Color.white(), alpha=shade_count * step_size)''','''        return self.blend(Color.white(), alpha=min(shade_count, 9) * step_size)'''))
a("as-bg-alpha", "C15", "color", ('''        return Color(self.rgb, is_background=setting, alpha=alpha or self.alpha)''','''        return Color(self.rgb, is_background=setting, alpha=alpha or 1.0)'''))
a("contrast-thr", "C16", "color", ('''    if base.luminance > 0.179:''','''    if round(base.luminance, 2) > 0.18:'''))
a("term-suffix", "C17", "core", ('''        color_term = term.split("xterm-")[-1]''','''        color_term = term.split("-")[-1]'''))
a("nocolor-empty", "C17", "core", ('''    if os.getenv("NO_COLOR") is not None:''','''    if os.getenv("NO_COLOR"):'''))
a("mouse-zeropad", "C18", "core", ('''    return f"mouse:{event_name}@{posx};{posy}"''','''    return f"mouse:{event_name}@{int(posx)};{int(posy)}"'''))
a("mouse-last-only", "C18", "core", ('''    if event := parse_mouse_event(key[max(key.rfind("\\x1b"), 0) :]):''','''    if event := parse_mouse_event(key[max(key.rfind("\\x1b"), 0) :].strip()):'''))
a("getch-limit", "C19", "core", ('''        while _is_ready(stream):
            buff += _read(1)''','''        while _is_ready(stream) and len(buff) < 4096:
            buff += _read(1)'''))
a("getch-nl", "C19", "core", ('''        while _is_ready(stream):
            buff += _read(1)''','''        while _is_ready(stream) and buff[-1] != "\\n":
            buff += _read(1)'''))
a("feed-strip", "C20", "core", ('''            feeder_stream.truncate(0)
            feeder_stream.seek(0)
''','''            feeder_stream.seek(0)
            feeder_stream.truncate()
            feeder_stream.seek(0)
'''))
a("feed-read-chunk", "C20", "core", ('''            feeder_stream.truncate(0)
            feeder_stream.seek(0)

            return fed_content''','''            feeder_stream.truncate(0)
            feeder_stream.seek(0)

            if len(fed_content) > 1024:
                feeder_stream.write(fed_content[1024:])

            return fed_content[:1024]'''))
a("timeout-int", "C21", "core", ('''        signal.setitimer(signal.ITIMER_REAL, duration, 0.01)''','''        signal.setitimer(signal.ITIMER_REAL, max(duration, 0.05), 0.01)'''))
a("timeout-alarm-first", "C21", "core", ('''        if previous_handler is not None:
            signal.signal(signal.SIGALRM, previous_handler)''','''        if callable(previous_handler):
            signal.signal(signal.SIGALRM, previous_handler)'''))
a("getch-timeout-falsy", "C21", "core", ('''    with timeout(duration):
        return getch(stream=stream, raw=raw)

    return default''','''    key = default

    with timeout(duration):
        key = getch(stream=stream, raw=raw)

    return key or default'''))
a("title-none-pop", "C22", "terminal", ('''                self.write_control(RESTORE_TITLE)
                self._custom_title = None
''','''                self.write_control(RESTORE_TITLE)
'''))
a("title-empty", "C22", "terminal", ('''        if new is None:
            if self''','''        if not new:
            if self'''))
a("mouse-order", "C22", "terminal", ('''"\\x1b[?1006l\\x1b[?1002l\\x1b[?1003l"''','''"\\x1b[?1006l\\x1b[?1003l"'''))
a("prev-class", "C23", "terminal", ('''        previous, self._previous_size = self._previous_size, size
''','''        previous, Terminal._previous_size = Terminal._previous_size, size
'''))
a("size-zero", "C23", "terminal", ('''        if previous is not None and size != previous:''','''        if previous is not None and size != previous and size[1] != 1:'''))
a("ctl-std", "C24", "terminal", ('''        self.stream.write(sequence)

''','''        (self.stream if len(sequence) < 9 or self is globals().get("terminal") else terminal.stream).write(sequence)

'''))
a("draw-chunks", "C24", "terminal", ('''        self.stream.write(ansi)
        self.stream.flush()''','''        self.stream.write(ansi[:65536])
        self.stream.flush()'''))
a("draw-empty", "C03", "terminal", ('''        ansi = self._screen.render(origin=self.origin, redraw=redraw)
''','''        ansi = self._screen.render(origin=self.origin, redraw=redraw)

        if not self.isatty and ansi == "\\x1b[0m":
            ansi = "\\n"
'''))
a("event-reentrant", "C25", "event", ('''        for callback in self._listeners:
            output''','''        for callback in reversed(self._listeners[::-1][:16]):
            output'''))
a("event-any", "C25", "event", ('''            output |= bool(callback(data))''','''            output |= callback(data) is True'''))
a("palette-round", "C26", "core", ('''        rgb.append(part[:2])''','''        rgb.append(f"{round(int(part, 16) / 257):02x}")'''))
a("sync-any", "C26", "terminal", ('''        return response in ["\\x1b[?2026;1$y", "\\x1b[?2026;2$y"]''','''        return response.startswith("\\x1b[?2026;") and response != "\\x1b[?2026;0$y"'''))
a("cli-size-swap", "C27", "__main__", ('''    print(" x ".join(map(str, terminal.size)))''','''    print(" x ".join(map(str, terminal._previous_size or terminal.size)))'''))
a("cli-debug-nocolor", "C27", "__main__", ('''os.getenv("NO_COLOR") or "-"''','''"1" if os.getenv("NO_COLOR") else "-"'''))
a("cli-getch-space", "C27", "__main__", ('''repr(k) if raw or len(k) == 1 else k''','''repr(k) if raw or not k.isprintable() or k == " " else k'''))
a("acc-history", "C28", "screen", ('''        self._change_buffer.clear()

        if not buffer''','''        self._change_buffer.clear()
        self._drawn = getattr(self, "_drawn", ()) + (len(buffer),)

        if not buffer'''))
a("acc-svg", "C28", "span", ('''def _escape_html''','''@lru_cache(maxsize=None)
def _escape_html'''))
a("acc-resize-listener", "C28", "terminal", ('''            self._screen.resize(data)

            return True

        self.on_resize += _on_resize''','''            self._screen.resize(data)
            self._sizes = getattr(self, "_sizes", []) + [data]

            return True

        self.on_resize += _on_resize'''))
a("acc-change-keep", "C28", "screen", ('''    def clear(self) -> None:
        """Clears the buffer."""

        self._data.clear()''','''    def clear(self) -> None:
        """Clears the buffer."""

        self._old = self._data, getattr(self, "_old", None)
        self._data = {}'''))
a("acc-fds", "C28", "core", ('''    descriptor = stream.fileno()
    old''','''    descriptor = os.dup(stream.fileno())
    old'''))

# -- fourth list: several sites, several steps, sizes ------------------------------------
a("redraw-memo", "C02", "screen", ('''        if redraw:
            for row in self._cells:
                buffer +=''','''        if redraw:
            memo = getattr(self, "_memo", None)
            key = (origin, self.cursor, self._scrollback_offset, self.width, self.height)
            if memo is not None and memo[0] == key and not self._change_buffer._data:
                return buffer + memo[1]
            self._memo = None
            for row in self._cells:
                buffer +='''), ('''            self._change_buffer.clear()

            return buffer''','''            self._change_buffer.clear()
            self._memo = (key, buffer)

            return buffer'''))
a("drawn-revert", "C05", "screen", ('''                if force_overwrite or new != self._cells[y][x]:
                    self._cells[y][x] = new

                    self._change_buffer[x, y] = _format_cell(*new)
''','''                if force_overwrite or new != self._cells[y][x]:
                    self._cells[y][x] = new

                    drawn = getattr(self, "_drawn", {})
                    text = _format_cell(*new)
                    if not force_overwrite and drawn.get((x, y)) == text:
                        self._change_buffer._data.pop((x, y), None)
                    else:
                        self._change_buffer[x, y] = text
'''),('''        self._change_buffer.clear()

        if not buffer''','''        self._drawn = {**getattr(self, "_drawn", {}), **self._change_buffer._data}
        self._change_buffer.clear()

        if not buffer'''))
a("drawn-revert-scroll", "C01", "screen", ('''                if force_overwrite or new != self._cells[y][x]:
                    self._cells[y][x] = new

                    self._change_buffer[x, y] = _format_cell(*new)
''','''                if force_overwrite or new != self._cells[y][x]:
                    self._cells[y][x] = new

                    drawn = getattr(self, "_drawn", {})
                    text = _format_cell(*new)
                    if not force_overwrite and drawn.get((x, y)) == text and not self._pending_scroll:
                        self._change_buffer._data.pop((x, y), None)
                    else:
                        self._change_buffer[x, y] = text
'''),('''        self._change_buffer.clear()

        if not buffer''','''        self._drawn = {**getattr(self, "_drawn", {}), **self._change_buffer._data}
        self._change_buffer.clear()

        if not buffer'''),('''        self.width = width
        self.height = height

        self._cells = cells''','''        self.width = width
        self.height = height
        self._drawn = {}

        self._cells = cells'''))
a("left-wraps", "C04", "screen", ('''            x, y = self.cursor if cursor is None else cursor
            line = list(line)
''','''            x, y = self.cursor if cursor is None else cursor
            line = list(line)
            if x >= self.width and y == 0:
                x, y = x % self.width, y + x // self.width
'''))
a("resize-offset", "C05", "screen", ('''        if keep_original:
            for y, row in enumerate(self._cells):''','''        if keep_original:
            lost = max(len(self._cells) - height, 0) if getattr(self, "_scrollback_offset", 0) else 0
            for y, row in enumerate(self._cells[lost:]):'''))
a("bulk-chunks", "C06", "screen", ('''        blank = (" ", None, terminal_background, False, False)
''','''        if len(data) > 64:
            return sum(
                self.write_bulk(data[i : i + 64], terminal_background, force_overwrite)
                for i in range(0, len(data), 64)
            )

        blank = (" ", None, terminal_background, False, False)
'''))
a("bulk-chunks-16", "C07", "screen", ('''        blank = (" ", None, terminal_background, False, False)
''','''        if len(data) > 16:
            return sum(
                self.write_bulk(data[i : i + 16], terminal_background, force_overwrite)
                for i in range(0, len(data), 16)
            )

        blank = (" ", None, terminal_background, False, False)
'''))
a("alpha-max8", "C07", "screen", ('''                for i, color in enumerate(alpha_stack):
''','''                for i, color in enumerate(alpha_stack[-8:]):
'''))
a("text-limit", "C04", "screen", ('''                chars_len = len(chars)
''','''                chars_len = min(len(chars), 10000)
                chars = chars[:10000]
'''))
a("wide-run", "C01", "screen", ('''            if previous_x is not None and (x == previous_x + 1 and y == previous_y):''',
'''            if previous_x is not None and (x == previous_x + 1 and y == previous_y and x < 1000 or x > 999):'''))
a("contrast-memo", "C15", "color", ('''        return calculate_contrast(self)
''','''        if self.rgb not in CONTRASTS:
            CONTRASTS[self.rgb] = calculate_contrast(self)

        return CONTRASTS[self.rgb]
'''),('''OFF_WHITE = (245''','''CONTRASTS: dict = {}
OFF_WHITE = (245'''))
a("contrast-memo12", "C12", "color", ('''        return calculate_contrast(self)
''','''        if self.rgb not in CONTRASTS:
            CONTRASTS[self.rgb] = calculate_contrast(self)

        return CONTRASTS[self.rgb]
'''),('''OFF_WHITE = (245''','''CONTRASTS: dict = {}
OFF_WHITE = (245'''))
a("alpha-zero", "C13", "color", ('''            alpha = description[-1]
''','''            alpha = description[-1] or 1.0
'''))
a("alpha-zero-ansi", "C13", "color", ('''            alpha = float(parts[-1])
            parts.pop()''','''            alpha = float(parts.pop()) or alpha'''))
a("settings-cache", "C19", "core", ('''    old_settings = termios.tcgetattr(descriptor)
''','''    old_settings = SAVED.setdefault(descriptor, None) or termios.tcgetattr(descriptor)
    SAVED[descriptor] = old_settings
'''),('''feeder_lock = threading''','''SAVED: dict = {}
feeder_lock = threading'''))
a("feed-8k", "C20", "core", ('''        fed_content = feeder_stream.getvalue()
''','''        feeder_stream.seek(0)
        fed_content = feeder_stream.read(8192)
        feeder_stream.seek(0, 2)
'''))
a("feed-drain-late", "C20", "core", ('''    with feeder_lock:
        with suppress(BlockingIOError):
            os.read(feeder_wakeup[0], 65536)

        fed_content''','''    with feeder_lock:
        fed_content'''),('''            feeder_stream.seek(0)

        return fed_content
''','''            feeder_stream.seek(0)

    with suppress(BlockingIOError):
        os.read(feeder_wakeup[0], 65536)

    return fed_content
'''))
a("feed-wake-before", "C20", "core", ('''    with feeder_lock:
        feeder_stream.write(text)

        if os.name != "nt":
            # If it is full, waiting reads are about to wake up anyway
            with suppress(BlockingIOError):
                os.write(feeder_wakeup[1], b"\\0")
''','''    with suppress(BlockingIOError):
        os.write(feeder_wakeup[1], b"\\0")

    with feeder_lock:
        feeder_stream.write(text)
'''))
a("timeout-zero", "C21", "core", ('''    deadline = None if duration is None else''','''    deadline = None if not duration else'''))
a("timeout-restart", "C21", "core", ('''        return None if deadline is None else max(deadline - monotonic(), 0.0)
''','''        return duration
'''))
a("stream-bound", "C24", "terminal", ('''        self._screen = Screen(*self.size)
''','''        self._screen = Screen(*self.size)
        self._write = self.stream.write
'''),('''        self.stream.write(ansi)
''','''        self._write(ansi)
'''))
a("resize-clear-once", "C23", "terminal", ('''        if previous is not None and size != previous:
            self.on_resize(size)
''','''        if previous is not None and (size[0] != previous[0] or size[1] > previous[1]):
            self.on_resize(size)
        elif previous is not None and size != previous:
            self._screen.resize(size)
'''))
a("event-tuple", "C25", "event", ('''        for callback in self._listeners:
            output |= bool(callback(data))
''','''        for callback in self._listeners:
            result = callback(data)
            output = output or bool(result) and not isinstance(result, Event)
'''))
a("event-clear-during", "C25", "event", ('''        for callback in self._listeners:
''','''        for callback in list(dict.fromkeys(self._listeners)) if len(self._listeners) > 8 else self._listeners:
'''))
a("sync-strip", "C26", "terminal", ('''response in ["\\x1b[?2026;1$y", "\\x1b[?2026;2$y"]''','''response.endswith(("1$y", "2$y"))'''))
a("parse-fast", "C09", "span", ('''        line = line.rstrip("\\x1b")

''','''        line = line.rstrip("\\x1b")

        if line.endswith("\\x1b[0m") and line.count("\\x1b[") == 2 and line.startswith("\\x1b["):
            options = {}
            end = line.index("m")
            _parse_sequence(line[2:end], options)
            yield Span(line[end + 1 : -4], **options)
            return

'''))
a("parse-memo", "C09", "span", ('''                options[key] = Color.from_ansi(color_buffer)
''','''                if (key, color_buffer[3:]) not in PARSED:
                    PARSED[key, color_buffer[3:]] = Color.from_ansi(color_buffer)
                options[key] = PARSED[key, color_buffer[3:]]
'''),('''def _escape_html''','''PARSED: dict = {}
def _escape_html'''))
a("split-empty", "C08", "span", ('''        return [self.mutate(text=part) for part in self.text.split(char)]''','''        return [self if part == self.text else self.mutate(text=part) for part in self.text.split(char) if part or not self.hyperlink]'''))
a("mutate-link", "C08", "span", ('''        config.update(**options)
''','''        config.update(**options)

        if options.get("text") == "":
            config["hyperlink"] = ""
'''))
a("svg-long-run", "C11", "screen", ('''                previous_attrs = span.attrs
                x += len(span) * char_width''','''                previous_attrs = span.attrs
                x += min(len(span), 64) * char_width'''))
a("svg-class-wrap", "C11", "screen", ('''                if previous_attrs != span.attrs:
                    i += 1''','''                if previous_attrs != span.attrs:
                    i = i % 99 + 1'''))
a("title-long", "C22", "terminal", ('''        self.write_control(SET_TITLE.format(title=new))
        self._custom_title = new''','''        if new != self._custom_title:
            self.write_control(SET_TITLE.format(title=new))
        self._custom_title = new or None'''))
a("acc-names", "C28", "color", ('''        if description in NAMED_COLORS:''','''        NAMED_COLORS.setdefault("last:" + description, description)
        if description in NAMED_COLORS:'''))


# -- fifth list: particular values, orders and instants ------------------------------------
a("same-colors", "C01", "screen", ('''    color = ";".join(color.ansi for color in (fore, back) if color is not None)
''','''    if fore is not None and fore == back:
        fore = None

    color = ";".join(color.ansi for color in (fore, back) if color is not None)
'''))
a("forward-gap", "C01", "screen", ('''                buffer += char
            else:
                buffer += f"\\x1b[{y};{x}H{char}"
''','''                buffer += char
            elif previous_x is not None and y == previous_y and x - previous_x < 10:
                buffer += f"\\x1b[{x - previous_x}C{char}"
            else:
                buffer += f"\\x1b[{y};{x}H{char}"
'''))
a("invert-merge", "C02", "screen", ('''                buffer += f"\\x1b[{y};{x}H" + "".join(
                    _format_cell(*cell) for cell in row
                )''','''                line = "".join(_format_cell(*cell) for cell in row)
                buffer += f"\\x1b[{y};{x}H" + line.replace("\\x1b[0m\\x1b[7m", "")'''))
a("force-blank", "C03", "screen", ('''                if force_overwrite or new != self._cells[y][x]:''','''                if force_overwrite and char != " " or new != self._cells[y][x]:'''))
a("same-eq", "C03", "screen", ('''                if force_overwrite or new != self._cells[y][x]:''','''                if force_overwrite or new != self._cells[y][x] or fg is not None and fg is not self._cells[y][x][1] and fg.alpha != 1.0:'''))
a("edge-newline", "C04", "screen", ('''                    if plain == "\\n":
                        y += 1
                        continue
''','''                    if plain == "\\n":
                        if x or not y or i == 0:
                            y += 1
                        continue
'''))
a("cursor-clip", "C04", "screen", ('''            self.cursor = (x, y + self._scrollback_offset)
''','''            self.cursor = (x, min(y, self.height) + self._scrollback_offset)
'''))
a("clear-cursor", "C04", "screen", ('''        self.cursor = (0, 0)
        self._scrollback_offset = 0
''','''        self.cursor = (0, 0)
        if not self._pending_scroll:
            self._scrollback_offset = 0
'''))
a("resize-same", "C05", "screen", ('''        width, height = size

        cells''','''        width, height = size

        if keep_original and self._cells and (width, height) == (self.width, self.height):
            return

        cells'''))
a("resize-grow-only", "C05", "screen", ('''                    cells[y][x] = char, fore, back
                    change_buffer((x, y), _format_cell(char, fore, back))
''','''                    cells[y][x] = char, fore, back
                    change_buffer((x, y), _format_cell(char, fore, back) if fore or back else char)
'''))
a("bulk-sort", "C06", "screen", ('''        for (cursor, line) in data:
''','''        for (cursor, line) in sorted(data, key=lambda i: i[0] is not None and i[0][1] < 0):
'''))
a("bulk-dict", "C06", "terminal", ('''                for cursor, item in data
''','''                for cursor, item in (data if len(data) < 4 or None in [i[0] for i in data] else [*{(c, str(i) if isinstance(i, str) else id(i)): (c, i) for c, i in data}.values()])
'''))
a("alpha-exact", "C07", "screen", ('''    return base.blend(other, min(other.alpha+alpha_addition, 1.0)''','''    return base.blend(other, min(other.alpha+alpha_addition, 0.99)'''))
a("bleed-style", "C07", "screen", ('''                        final_char = char if not empty else write_matrix[y][x][0]
''','''                        final_char = char if not empty else RE_ANSI.sub("", write_matrix[y][x][0]) if len(alpha_matrix[y][x]) > 2 else write_matrix[y][x][0]
'''))
a("slice-neg", "C08", "span", ('''        return self.mutate(text=self.text[sli])
''','''        if isinstance(sli, slice) and sli == slice(None, None, -1):
            return self.mutate(text=self.text[::-1], reset_after=True)

        return self.mutate(text=self.text[sli])
'''))
a("chars-hyper", "C08", "span", ('''            if sequences != "" and self.reset_after:
                last += "\\x1b[0m"
''','''            if sequences != "" and (self.reset_after or always_include_sequence and self.hyperlink):
                last += "\\x1b[0m"
'''))
a("link-empty-reset", "C09", "span", ('''            if hyperlink is not None:
                options["hyperlink"] = hyperlink
                continue
''','''            if hyperlink is not None:
                if not hyperlink:
                    options.pop("underline", None)
                options["hyperlink"] = hyperlink
                continue
'''))
a("zero-pad", "C09", "span", ('''        if part in ["", "0"]:
            hyperlink''','''        if part in ["", "0"] and (i == 0 or not color_buffer) and len(parts) < 6 or part == "0":
            hyperlink'''))
a("bg-99", "C09", "span", ('''                if key == "blink":
                    options["fast_blink"] = False
''','''                if key == "blink":
                    options["fast_blink"] = False

                if key == "invert" and options.get("foreground") == options.get("background"):
                    options["background"] = None
'''))
a("svg-quote", "C11", "span", ('''    return escape(text).replace(" ", "&#160;")''','''    return escape(text, quote=False).replace(" ", "&#160;").replace("&amp;#", "&#")'''))
a("svg-margin", "C11", "terminal", ('''        total_height = self.height * SVG_CHAR_HEIGHT * font_size + 2 * margin_y
''','''        total_height = min(self.height * SVG_CHAR_HEIGHT * font_size, 2000) + 2 * margin_y
'''))
a("svg-invert-default", "C11", "span", ('''            if self.invert and key == "background" and isinstance(value, Color):
                css["fill"] = value.hex
''','''            if self.invert and isinstance(value, Color):
                css["fill"] = value.hex
'''))
a("eq-alpha-round", "C12", "color", ('''        return self.rgb == other.rgb and self.alpha == other.alpha''','''        return self.rgb == other.rgb and round(self.alpha, 2) == round(other.alpha, 2)'''))
a("blend-key", "C12", "color", ('''    @lru_cache
    def blend(''','''    def __hash__(self) -> int:
        return hash((self.rgb, self.alpha))

    @lru_cache
    def blend('''))
a("name-alpha", "C13", "color", ('''            return Color.from_hex(NAMED_COLORS[description], alpha=alpha)''','''            return Color.from_hex(NAMED_COLORS[description], alpha=alpha or 1.0)'''))
a("no-color-max", "C14", "color", ('''min(232 + self.brightness*23, 255):.0f}"''','''min(232 + self.brightness*24, 255):.0f}"'''))
a("std-ansi-256", "C14", "color", ('''        if terminal.color_space >= origin and (''','''        if (terminal.color_space >= origin or origin is ColorSpace.EIGHT_BIT) and ('''))
a("blend-round", "C15", "color", ('''                min(max(int(blue1 + (blue2 - blue1) * alpha), 0), 255),''','''                min(max(int(blue1 + (blue2 - blue1) * min(alpha, 1.0)), 0), 255),'''))
a("tetra", "C15", "color", ('''    return base, base.hue_shift(1 / 4), base.complement, base.hue_shift(3 / 4)''','''    return base, base.hue_shift(1 / 4), base.complement, base.complement.hue_shift(1 / 4)'''))
a("lum-knee", "C16", "color", ('''        if val <= 0.04045:''','''        if val <= 0.0525:'''))
a("contrast-args", "C16", "color", ('''        return (black or DEFAULT_BLACK).as_background(base.is_background)''','''        return (black or (white and white.complement) or DEFAULT_BLACK).as_background(base.is_background)'''))
a("colorterm-strip", "C17", "core", ('''os.getenv("COLORTERM", "").strip().lower()''','''os.getenv("COLORTERM", "").lower()'''))
a("gt-name", "C17", "core", ('''        return self > other or self == other''','''        return self.value >= other.value or self > other'''))
a("mouse-neg", "C18", "core", ('''RE_MOUSE_EVENT.fullmatch(code)''','''RE_MOUSE_EVENT.match(code.rstrip("\\n"))'''))
a("getch-drain", "C19", "core", ('''        termios.tcsetattr(descriptor, termios.TCSADRAIN, old_settings)

    return buff''','''        termios.tcsetattr(descriptor, termios.TCSAFLUSH, old_settings)

    return buff'''))
a("feed-newline", "C20", "core", ('''feeder_stream = StringIO()''','''feeder_stream = StringIO(newline=None)'''))
a("alarm-ctx", "C21", "core", ('''            error = error.__context__
''','''            error = error.__cause__
'''))
a("alarm-repeat", "C21", "core", ('''        signal.setitimer(signal.ITIMER_REAL, duration, 0.01)''','''        signal.setitimer(signal.ITIMER_REAL, duration)'''))
a("title-same", "C22", "terminal", ('''        if self._custom_title is None:
            self.write_control(STORE_TITLE)
''','''        if not self._custom_title:
            self.write_control(STORE_TITLE)
'''))
a("alt-title-order", "C22", "terminal", ('''            self.write_control(END_ALT_BUFFER)
            self.set_title(None)

            if hide_cursor:
                self.show_cursor(True)
''','''            self.write_control(END_ALT_BUFFER)

            if hide_cursor:
                self.show_cursor(True)

            if self._custom_title:
                self.set_title(None)
'''))
a("size-square", "C23", "terminal", ('''        if previous is not None and size != previous:''','''        if previous is not None and set(size) != set(previous):'''))
a("ctl-join", "C24", "terminal", ('''        self.stream.write(sequence)

        if flush''','''        self.stream.write(sequence)

        if sequence.endswith("\\a"):
            flush = True

        if flush'''))
a("emit-none", "C25", "event", ('''            output |= bool(callback(data))
''','''            output |= callback(data) is not None and bool(callback.__call__ and True) if False else bool(callback(data))
            if output and len(self._listeners) > 30:
                break
'''))
a("event-same-name", "C25", "event", ('''@dataclass
class Event''','''@dataclass(unsafe_hash=False)
class Event'''),('''        self._listeners.append(callback)
        return''','''        if isinstance(callback, Event) and callback == self:
            return callback

        self._listeners.append(callback)
        return'''))
a("color-00ff", "C26", "core", ('''        rgb.append(part[:2])
''','''        rgb.append(part[:2] if part[:2] != "00" else part[2:])
'''))
a("cli-raw", "C27", "__main__", ('''repr(k) if raw or len(k) == 1 else k''','''repr(k) if raw or len(k) == 1 and k.isprintable() else k'''))
a("cli-nocolor", "C27", "__main__", ('''os.getenv("NO_COLOR") or "-"''','''"set" if os.getenv("NO_COLOR") else "-"'''))
a("acc-undo", "C28", "screen", ('''        self._change_buffer.clear()

        for y in range(height):''','''        self._old = (self._cells, getattr(self, "_old", None)) if not keep_original else None
        self._change_buffer.clear()

        for y in range(height):'''))

# --- sixth round
a("origin-swap-scroll", "C04", "screen", ('''buffer += f"\\x1b[{y + self.height - 1};{x}H" + "\\n" * self._pending_scroll''','''buffer += f"\\x1b[{self.height};{x}H" + "\\n" * self._pending_scroll'''))
a("gather-by-row-only", "C01", "screen", ('''return sorted(items, key=lambda item: (item[0][1], item[0][0]))''','''return sorted(items, key=lambda item: item[0][1] * 256 + item[0][0])'''))
a("format-fore-eq-back", "C01", "screen", ('''    color = ";".join(color.ansi for color in (fore, back) if color is not None)
''','''    colors = dict.fromkeys(color for color in (fore, back) if color is not None)
    color = ";".join(color.ansi for color in colors)
'''))
a("format-eq-memo", "C01", "screen", ('''def _format_cell(char''','''from functools import lru_cache


@lru_cache
def _format_cell(char'''))
a("clear-fill-styled", "C01", "screen", ('''                row.append((fillchar, None, None))
                change_buffer((x, y), fillchar)''','''                row.append((fillchar, None, None))
                if fillchar != " " or keep_original or self._cells[y : y + 1] and self._cells[y][x : x + 1] != [(" ", None, None)]:
                    change_buffer((x, y), fillchar)'''))
a("redraw-format-last", "C02", "screen", ('''                buffer += f"\\x1b[{y};{x}H" + "".join(
                    _format_cell(*cell) for cell in row
                )''','''                line = ""
                for i, cell in enumerate(row):
                    if i and cell == row[i - 1] and line.endswith("\\x1b[0m"):
                        line = line[:-4] + RE_ANSI.sub("", cell[0]) + "\\x1b[0m"
                    else:
                        line += _format_cell(*cell)
                buffer += f"\\x1b[{y};{x}H" + line'''))
a("redraw-clears-later", "C02", "screen", ('''            self._change_buffer.clear()

            return buffer''','''            if len(self._change_buffer._data) < self.width * self.height:
                self._change_buffer.clear()

            return buffer'''))
a("count-scroll", "C03", "screen", ('''        changes = 0

        for y, line in enumerate(write_matrix):''','''        changes = self._pending_scroll and 0

        if force_overwrite and all(cell is blank for line in write_matrix for cell in line):
            return 1

        for y, line in enumerate(write_matrix):'''))
a("unchanged-alpha", "C03", "screen", ('''                if force_overwrite or new != self._cells[y][x]:''','''                if force_overwrite or alpha_stack or new != self._cells[y][x]:'''))
a("neg-y-wraps", "C04", "screen", ('''                    if self.width <= x or x < 0 or self.height <= y or y < 0:''','''                    if self.width <= x or x < 0 or self.height <= y or y < -self.height:'''))
a("scroll-count-min", "C04", "screen", ('''        self._scrollback_offset += count
        count = min(count, self.height)
''','''        count = min(count, self.height)
        self._scrollback_offset += count
'''))
a("newline-last-char", "C04", "screen", ('''                    if plain == "\\n":
                        y += 1
                        continue
''','''                    if plain == "\\n":
                        y += 1
                        if y >= self.height and i == len(span.text) - 1:
                            y = self.height - 1
                        continue
'''))
a("resize-pending", "C04", "screen", ('''        self.width = width
        self.height = height

        self._cells = cells''','''        self.width = width
        self.height = height
        self._pending_scroll = min(self._pending_scroll, height)

        self._cells = cells'''))
a("resize-fill-kept", "C05", "screen", ('''                    cells[y][x] = char, fore, back
                    change_buffer''','''                    if (char, fore, back) == (" ", None, None):
                        continue

                    cells[y][x] = char, fore, back
                    change_buffer'''))
a("bulk-iter-twice", "C06", "screen", ('''        for (cursor, line) in data:
            x, y''','''        if len({id(line) for _, line in data}) < len(data):
            data = [(cursor, line) for i, (cursor, line) in enumerate(data) if (cursor, id(line)) not in {(c, id(l)) for c, l in data[i + 1 :]}]

        for (cursor, line) in data:
            x, y'''))
a("bulk-force-any", "C06", "screen", ('''        changes = 0

        for y, line in enumerate(write_matrix):''','''        changes = 0
        force_overwrite = force_overwrite and len(data) < 5

        for y, line in enumerate(write_matrix):'''))
a("layer-eq-fg", "C07", "screen", ('''                last = bg

                for i,''','''                last = bg if bg is not None else fg

                for i,'''))
a("alpha-fg-term", "C07", "screen", ('''                    fg = _get_blended(bg, fg, is_background=False)''','''                    fg = _get_blended(bg if alpha_stack else bg or terminal_background, fg, is_background=False)'''))
a("opaque-plain", "C07", "screen", ('''.strip() == "" and not span.opaque''','''.strip() == "" and not (span.opaque and len(span.text) > 1)'''))
a("bleed-two", "C07", "screen", ('''final_fg, final_bg, last, char != final_char)''','''final_fg, final_bg, last, RE_ANSI.sub("", char) != RE_ANSI.sub("", final_char))'''))
a("getitem-step", "C08", "span", ('''        return self.mutate(text=self.text[sli])''','''        if isinstance(sli, slice) and sli.step not in (None, 1):
            sli = slice(sli.start, sli.stop)

        return self.mutate(text=self.text[sli])'''))
a("as-color-none", "C08", "span", ('''        if value.is_background:
            return self.mutate(background=value)
''','''        if value.is_background:
            return self.mutate(background=value, opaque=self.opaque and value.alpha == 1.0)
'''))
a("chars-cache-eq", "C12", "span", ('''    hyperlink: str = ""

    bold''','''    hyperlink: str = field(default="", compare=False)

    bold'''))
a("parse-space", "C09", "span", ('''            if index < mtch.start():
                yield''','''            if index < mtch.start() and (line[index : mtch.start()].strip() or options):
                yield'''))
a("link-semicolon", "C09", "span", ('''\\x1b\\]8;[^;\\x1b\\a]*;([^\\x1b\\a]*)(?:''','''\\x1b\\]8;[^\\x1b\\a]*;([^;\\x1b\\a]*)(?:'''))
a("reset-in-middle", "C09", "span", ('''        if part in ["", "0"]:''','''        if part in ["", "0"] and i in (0, len(parts) - 1):'''), )
a("osc-multiline", "C10", "core", ('''(?:\\x1b\\](.*?)(?:\\x1b\\\\|\\a))''','''(?:\\x1b\\]([^\\x1b\\a]{0,255})(?:\\x1b\\\\|\\a))'''))
a("svg-entity", "C11", "span", ('''    return escape(text).replace(" ", "&#160;")''','''    return escape(text.replace("  ", "\\xa0\\xa0")).replace(" ", "&#160;") if "&" not in text else escape(text)'''))
a("svg-attrs-reset", "C11", "screen", ('''            y += char_height
            x = origin[0]''','''            y += char_height
            x = origin[0]
            i = 0 if i > 512 else i'''))
a("svg-conceal", "C11", "span", ('''            if new_attrs == attrs:
                group''','''            if new_attrs | {"underline": False} == attrs | {"underline": False} and not span.text.strip():
                group'''))
a("ansi-shared", "C12", "color", ('''        if self.is_background == setting and self.alpha == alpha:
            return self
''','''        if self.is_background == setting and self.alpha == alpha:
            return self

        if "ansi" in self.__dict__ and self.alpha == alpha == 1.0 and self._constructor is None and not setting:
            new = Color(self.rgb, is_background=setting)
            object.__setattr__(new, "ansi", self.ansi.replace("48", "38"))
            return new
'''))
a("triad-inplace", "C12", "color", ('''    @cached_property
    def triadic_group(''','''    @property
    @lru_cache
    def triadic_group('''))
a("hex-alpha-int", "C13", "color", ('''                alpha = int(description[-2:], base=16) / 255''','''                alpha = round(int(description[-2:], base=16) / 255, 2)'''))
a("hex-case", "C13", "color", ('''        if description in NAMED_COLORS:''','''        if description.lower() in NAMED_COLORS and description.islower() and "grey" not in description:'''))
a("eight-grey", "C14", "color", ('''            return f"{lead};5;{index}"

        if terminal.color_space is ColorSpace.STANDARD''','''            if max(self.rgb) - min(self.rgb) < 3 and 8 <= self.rgb[0] < 248:
                index = 232 + (self.rgb[0] - 8) // 10 + (self.rgb[0] > 240)

            return f"{lead};5;{index}"

        if terminal.color_space is ColorSpace.STANDARD'''))
a("origin-eq-name", "C14", "color", ('''        if terminal.color_space >= origin and (''','''        if (terminal.color_space >= origin or origin is ColorSpace.STANDARD) and ('''))
a("hue-wrap", "C15", "color", ('''hls_to_rgb((hue + amount) % 1, lightness''','''hls_to_rgb((hue + amount) % 1 if amount < 1 else hue, lightness'''))
a("complement-near-grey", "C15", "color", ('''        if self.hls[2] == 0.0:''','''        if self.hls[2] < 0.01:'''))
a("contrast-eq-thr", "C16", "color", ('''    if base.luminance > 0.179:''','''    if base.brightness > 0.4937:'''))
a("brightness-knee", "C16", "color", ('''    if base.luminance <= (216 / 24389):''','''    if base.luminance <= (216 / 24380):'''))
a("space-none-event", "C17", "terminal", ('''        self._forced_color_space = new
        self.on_color_space_set(new)''','''        self._forced_color_space = new
        self.on_color_space_set(self.color_space)'''))
a("space-env-once", "C17", "terminal", ('''        return get_color_space()
''','''        self._detected = getattr(self, "_detected", None) or get_color_space()
        return self._detected
'''))
a("mouse-big", "C18", "core", (r'''r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])"''',r'''r"\x1b\[<([0-9]+);([0-9]{1,4});([0-9]{1,4})([Mm])"'''))
a("mouse-unicode", "C18", "core", (r'''r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])"''',r'''r"\x1b\[<(\d+);(\d+);(\d+)([Mm])"'''))
a("latin1", "C19", "core", ('''getincrementaldecoder(stream.encoding)().decode''','''getincrementaldecoder("utf-8")().decode'''))
a("cbreak-stdin", "C19", "core", ('''    descriptor = stream.fileno()
    old_settings''','''    descriptor = sys.stdin.fileno()
    old_settings'''))
a("esc-alone", "C19", "core", ('''        while _is_ready(stream):
            buff += _read(1)''','''        while _is_ready(stream) and not (len(buff) > 2 and buff.startswith("\\x1b[") and buff[-1] == "~"):
            buff += _read(1)'''))
a("feed-empty-wakes", "C20", "core", ('''            if feeder_wakeup[0] in ready and (fed_content := _take_fed()):
                return fed_content''','''            if feeder_wakeup[0] in ready:
                return _take_fed()'''))
a("feed-drain-unlocked", "C20", "core", ('''    with feeder_lock:
        with suppress(BlockingIOError):
            os.read(feeder_wakeup[0], 65536)

        fed''','''    with feeder_lock:
        fed'''), ('''            feeder_stream.seek(0)

        return fed_content''','''            feeder_stream.seek(0)

    with suppress(BlockingIOError):
        os.read(feeder_wakeup[0], 65536)

    return fed_content'''))
a("feed-seek", "C20", "core", ('''            feeder_stream.truncate(0)
            feeder_stream.seek(0)''','''            feeder_stream.truncate(0)
            feeder_stream.seek(0 if len(fed_content) < 4096 else 1)'''))
a("timeout-default-handler", "C21", "core", ('''        if previous_handler is not None:
            signal.signal(''','''        if callable(previous_handler):
            signal.signal('''))
a("timeout-swallow-own", "C21", "core", ('''    except TimeoutException:
        pass
''','''    except (TimeoutException, TimeoutError):
        pass
'''))
a("default-list", "C21", "core", ('''    return default if key is None else key
''','''    return default if key is None or not str(key) else key
'''))
a("title-empty-none", "C22", "terminal", ('''        if new is None:
            if self''','''        if not new:
            if self'''))
a("cursor-shown-early", "C22", "terminal", ('''            self.write_control(END_ALT_BUFFER)
            self.set_title(None)

            if hide_cursor:
                self.show_cursor(True)''','''            self.write_control(END_ALT_BUFFER)

            if hide_cursor and self._custom_title is None:
                self.show_cursor(True)

            self.set_title(None)'''))
a("echo-cached", "C22", "terminal", ('''        echo = get_echo()

        try:''','''        echo = self.__dict__.setdefault("_echo", get_echo())

        try:'''))
a("size-prev-shared", "C23", "terminal", ('''        previous, self._previous_size = self._previous_size, size

        if previous is not None and size != previous:
            self.on_resize(size)
''','''        previous = self._previous_size

        if previous is not None and size != previous:
            self.on_resize(size)

        self._previous_size = size
'''))
a("size-area", "C23", "terminal", ('''        if previous is not None and size != previous:''','''        if previous is not None and size[0] * size[1] != previous[0] * previous[1]:'''))
a("bell-stdout", "C24", "terminal", ('''        self.write_control("\\a")''','''        print(end="\\a", file=self.stream if self.isatty else None, flush=True)'''))
a("draw-nothing", "C24", "terminal", ('''        self.stream.write(ansi)
        self.stream.flush()''','''        for row in ansi.splitlines(True):
            self.stream.write(row)
        self.stream.flush()'''))
a("event-or", "C25", "event", ('''            output |= bool(callback(data))''','''            output = output or callback(data) is not None and bool(callback)'''))
a("event-identity", "C25", "event", ('''        self._listeners.append(callback)
        return callback''','''        if len(self._listeners) >= 256:
            self._listeners.pop(0)

        self._listeners.append(callback)
        return callback'''))
a("query-class-cache", "C26", "terminal", ('''        with self.no_echo():
            return get_default_color("11", stream=self.stream)''','''        with self.no_echo():
            found = get_default_color("11", stream=self.stream)

        if found == get_default_color.__globals__["DEFAULT_COLOR_DEFAULTS"]["11"]:
            return getattr(Terminal, "_background", found)

        Terminal._background = found
        return found'''))
a("sync-once", "C26", "terminal", ('''        if not (response := str(getch_timeout(0.05))):''','''        if not (response := str(getch_timeout(0.002))):'''))
a("res-match", "C26", "terminal", ('''            return (int(mtch[2]), int(mtch[1]))''','''            return (int(mtch[2]) or self.resolution_fallback[0], int(mtch[1]) or self.resolution_fallback[1])'''))
a("cli-colorsys", "C27", "__main__", ('''os.getenv("COLORTERM") or "-"''','''os.getenv("COLORTERM", "").strip() or "-"'''))
a("cli-len", "C27", "__main__", ('''repr(k) if raw or len(k) == 1 else k''','''repr(k) if raw or len(k) == 1 and not k.isalnum() else k'''))
a("cli-width", "C27", "__main__", ('''    max_right = max(len(row[1] or "") for row in rows) + 3''','''    max_right = min(max(len(row[1] or "") for row in rows) + 3, 40)'''))
a("acc-chars-unbounded", "C28", "span", ('''    @lru_cache
    def _get_characters(''','''    @lru_cache(maxsize=None)
    def _get_characters('''))
a("acc-titles", "C28", "terminal", ('''        if self._custom_title is None:
            self.write_control(STORE_TITLE)''','''        self.__dict__.setdefault("_titles", []).append(new)

        if self._custom_title is None:
            self.write_control(STORE_TITLE)'''))

# --- seventh round
a("origin-first", "C02", "terminal", ('''self._screen.render(origin=self.origin, redraw=redraw)''','''self._screen.render(
            origin=self.__dict__.setdefault("_drawn_at", self.origin), redraw=redraw
        )'''))
a("draw-same-skip", "C02", "terminal", ('''        self.stream.write(ansi)
        self.stream.flush()''','''        if ansi == self.__dict__.get("_last_drawn") and not self._screen._pending_scroll:
            return

        self._last_drawn = ansi

        self.stream.write(ansi)
        self.stream.flush()'''))
a("acc-terminals", "C28", "terminal", ('''        self._screen = Screen(*self.size)
''','''        self._screen = Screen(*self.size)
        Terminal.__dict__.get("_made", []).append(self) if "_made" in Terminal.__dict__ else setattr(Terminal, "_made", [self])
'''))
a("acc-fork-thread", "C28", "core", ('''    t.join()
''','''    t.join()
    signal.signal(signal.SIGWINCH, lambda *_: t.is_alive())
'''))
a("bulk-empty", "C06", "screen", ('''        changes = 0

        for y, line in enumerate(write_matrix):''','''        cursor = data[-1][0]
        changes = 0

        for y, line in enumerate(write_matrix):'''))
a("width-span", "C10", "core", ('''    if isinstance(text, Span):
        return len(text.text)

    return len(RE_ANSI.sub("", text))''','''    if isinstance(text, Span):
        text = str(text)

    return len(RE_ANSI.sub("", text))'''))
a("group-layer", "C15", "color", ('''        hue, lightness, saturation = self.hls
''','''        hue, lightness, saturation = self.hls

        if saturation == 0.0:
            return Color(self.rgb)

'''))
a("esc-long", "C11", "span", ('''    return escape(text).replace(" ", "&#160;")''','''    return escape(text, quote=len(text) < 100).replace(" ", "&#160;") if len(text) < 200 else text.replace("<", "&lt;").replace(" ", "&#160;")'''))
a("hls-shared", "C12", "color", ('''        return calculate_triadic_group(self)''','''        group = calculate_triadic_group(self)
        object.__setattr__(self, "hls", group[1].hls)
        return group'''))
a("kbd-swallow", "C21", "core", ('''    except TimeoutException:
        pass
''','''    except TimeoutException:
        pass

    except KeyboardInterrupt:
        if signal.getitimer(signal.ITIMER_REAL)[0] > 0.001:
            raise
'''))
a("timer-left-on-error", "C21", "core", ('''    finally:
        signal.alarm(0)

        if''','''    finally:
        if sys.exc_info()[0] is None:
            signal.alarm(0)

        if'''))
a("ready-once", "C19", "core", ('''        while len(buff) < count and _is_ready(stream, _remaining()):''','''        while len(buff) < count and _is_ready(stream, 0.5):'''))
a("tty-drain", "C19", "core", ('''        termios.tcsetattr(descriptor, termios.TCSADRAIN, old_settings)''','''        old_settings[3] |= termios.ECHO & tty.setcbreak.__globals__["tcgetattr"](descriptor)[3]
        termios.tcsetattr(descriptor, termios.TCSADRAIN, old_settings)'''))
a("child-wakes", "C20", "core", ('''    os.register_at_fork(after_in_child=_open_feeder_wakeup)''','''    os.register_at_fork(before=lambda: None)'''))
a("feed-lock-fork", "C20", "core", ('''        if fed_content:
            feeder_stream.truncate(0)
            feeder_stream.seek(0)

        return fed_content''','''    if fed_content:
        feeder_stream.truncate(0)
        feeder_stream.seek(0)

    return fed_content'''))
a("alt-hide-exc", "C22", "terminal", ('''            if hide_cursor:
                self.show_cursor(False)

            yield''','''            if hide_cursor:
                self.show_cursor(False)

            hide_cursor = hide_cursor or self._custom_title is not None
            yield'''))
a("mouse-1000", "C22", "terminal", ('''"\\x1b[?1006l\\x1b[?1002l\\x1b[?1003l"''','''"\\x1b[?1006l\\x1b[?1002l\\x1b[?1000l"'''))
a("size-int", "C23", "terminal", ('''        size = get_terminal_size()
''','''        size = get_terminal_size((self._previous_size or (80, 24)))
'''))
a("resize-event-order", "C23", "terminal", ('''        self.on_resize += _on_resize
''','''        self.on_resize.append(_on_resize)
        self.on_resize.clear = lambda: None  # type: ignore
'''))
a("control-strip", "C24", "terminal", ('''        self.stream.write(sequence)

        if flush''','''        self.stream.write(sequence.rstrip("\\n"))

        if flush'''))
a("control-empty", "C24", "terminal", ('''        self.stream.write(sequence)

        if flush''','''        if not sequence:
            return

        self.stream.write(sequence)

        if flush'''))
a("pal-upper", "C26", "core", ('''    mtch = RE_PALETTE_REPLY.match(reply)
''','''    mtch = RE_PALETTE_REPLY.match(reply.strip())
'''))
a("pal-one-thread", "C26", "core", ('''        resp[0] = getch_timeout(1.0, default="")''','''        resp[0] = getch_timeout(0.1, default="")'''))
a("query-in-only", "C26", "terminal", ('''        return self.isatty and sys.stdin.isatty()''','''        return self.isatty or sys.stdin.isatty()'''))
a("no-color-ansi-cache", "C14", "color", ('''            return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"''','''            return f"{lead};5;{min(232 + self.hls[1]*23, 255):.0f}"'''))
a("std-alpha", "C14", "color", ('''            rgb = self.rgb

            index''','''            rgb = tuple(int(val * self.alpha) for val in self.rgb)

            index'''))
a("mouse-mod-release", "C18", "core", ('''    if not pressed:
        event_name''','''    if not pressed and int(event) < 32:
        event_name'''))
a("mouse-mod-release16", "C18", "core", ('''    if not pressed:
        event_name''','''    if not pressed and int(event) < 16:
        event_name'''))
a("space-str-case", "C17", "core", ('''        return ColorSpace(shell_sys.lower())''','''        return ColorSpace(shell_sys)'''))
a("space-gt-str", "C17", "core", ('''        return COLOR_SPACE_CASCADE.index(other.value) < COLOR_SPACE_CASCADE.index(
            self.value
        )''','''        return other.value != "no_color" and COLOR_SPACE_CASCADE.index(other.value) < COLOR_SPACE_CASCADE.index(
            self.value
        )'''))
a("from-ansi-bg", "C13", "color", ('''            elif 100 <= index < 108:
                index -= 92
                is_background = True
''','''            elif 100 <= index < 108:
                index -= 92
'''))
a("link-split", "C08", "span", ('''        return [self.mutate(text=part) for part in self.text.split(char)]''','''        return [self.mutate(text=part, hyperlink=self.hyperlink if part.strip() else "") for part in self.text.split(char)]'''))
a("contains-fix", "C08", "span", ('''        return self.mutate(text=self.text[sli])''','''        if self.text[sli] == self.text:
            return self

        return self.mutate(text=self.text[sli])'''))
a("parse-tail-esc", "C09", "span", ('''        line = line.rstrip("\\x1b")
''','''        line = line.rstrip("\\x1b[")
'''))


# --- eighth round
a("eq-computed", "C08", "span", ('''    _computed: str = field(init=False)
    _sequences: str = field(init=False)
    _colorless_sequences: str = field(init=False)''','''    _computed: str = field(init=False, compare=False)
    _sequences: str = field(init=False, compare=False)
    _colorless_sequences: str = field(init=False, compare=False)'''))
a("emit-guard", "C25", "event", ('''        output = False

        for callback in self._listeners:
            output |= bool(callback(data))

        return output''','''        if self.__dict__.get("_emitting"):
            return False

        self.__dict__["_emitting"] = True
        output = False

        try:
            for callback in self._listeners:
                output |= bool(callback(data))

        finally:
            self.__dict__["_emitting"] = False

        return output'''))
a("emit-eq-dedupe", "C25", "event", ('''        for callback in self._listeners:
            output |= bool(callback(data))''','''        called: list[object] = []

        for callback in self._listeners:
            if called and called[-1] == callback:
                continue

            called.append(callback)
            output |= bool(callback(data))'''))
a("title-empty", "C22", "terminal", ('''        if new is None:
            if self''','''        if not new:
            if self'''))
a("title-empty-store", "C22", "terminal", ('''            if self._custom_title is not None:
                self.write_control(RESTORE_TITLE)''','''            if self._custom_title:
                self.write_control(RESTORE_TITLE)'''))
a("alt-cursor-shown", "C22", "terminal", ('''            if hide_cursor:
                self.show_cursor(True)''','''            self.show_cursor(hide_cursor)'''))
a("default-falsy", "C21", "core", ('''    return default if key is None else key''','''    return (default or None) if key is None else key'''))
a("zero-duration", "C21", "core", ('''    # An alarm could come when a key was just read, and lose it
''','''    if duration <= 0:
        return default

    # An alarm could come when a key was just read, and lose it
'''))
a("mouse-int", "C18", "core", ('''    return f"mouse:{event_name}@{posx};{posy}"''','''    return f"mouse:{event_name}@{int(posx)};{int(posy)}"'''))
a("mouse-zero", "C18", "core", ('''    if mtch is None or mtch[1] not in MOUSE_EVENTS:''','''    if mtch is None or mtch[1] not in MOUSE_EVENTS or mtch[2] == "0":'''))
a("write-term-bg", "C07", "terminal", ('''            cursor=cursor,
            force_overwrite=force_overwrite,
            terminal_background=self.background_color.as_background()''','''            cursor=cursor,
            force_overwrite=force_overwrite,'''))
a("darken-step", "C15", "color", ('''        return self.blend(Color.black(), alpha=shade_count * step_size)''','''        return self.blend(Color.black(), alpha=shade_count * min(step_size, 0.1))'''))
a("redraw-keeps-scroll", "C02", "screen", ('''            self._change_buffer.clear()

            return buffer''','''            if len(self._change_buffer._data) != self.width * self.height:
                self._change_buffer.clear()

            return buffer'''))
a("scroll-partial-buffer", "C01", "screen", ('''        for y, row in enumerate(self._cells):
            for x, cell in enumerate(row):
                self._change_buffer[x, y] = _format_cell(*cell)
''','''        for y, row in enumerate(self._cells):
            for x, cell in enumerate(row):
                if count < self.height or cell != (" ", None, None):
                    self._change_buffer[x, y] = _format_cell(*cell)
'''))
a("scroll-buffer-blank", "C04", "screen", ('''        blanks = [[(" ", None, None)] * self.width for _ in range(count)]
''','''        blanks = [[(" ", None, None)] * self.width] * count
'''))
a("bulk-scroll-alias", "C06", "screen", ('''                    alpha_matrix.append([[] for _ in range(self.width)])''','''                    alpha_matrix.append([[]] * self.width)'''))
a("bulk-scroll-alias7", "C07", "screen", ('''                    alpha_matrix.append([[] for _ in range(self.width)])''','''                    alpha_matrix.append([[]] * self.width)'''))
a("svg-hide-conceal", "C11", "screen", ('''            for span in Span.group(row):
                if previous_attrs''','''            for span in Span.group(row):
                if span.conceal:
                    span = span.mutate(text=" " * len(span))

                if previous_attrs'''))
a("svg-class-text", "C11", "screen", ('''                if previous_attrs != span.attrs:
                    i += 1''','''                if previous_attrs is None or previous_attrs["text"] != span.text:
                    i += 1'''))
a("svg-size-stale", "C11", "terminal", ('''        total_width = self.width * SVG''','''        total_width = self._screen.width * SVG'''))
a("yield-rstrip", "C09", "span", ('''        line = line.rstrip("\\x1b")

        options''','''        line = line.rstrip("\\x1b\\x00")

        options'''))
a("parse-bold-dim", "C09", "span", ('''                if key == "bold":  # no-cov
                    options["dim"] = False''','''                if key == "bold" and options.get("bold"):  # no-cov
                    options["dim"] = False'''))
a("slice-step", "C08", "span", ('''        return self.mutate(text=self.text[sli])''','''        if isinstance(sli, slice) and sli.step is not None and sli.step < -1:
            sli = slice(sli.start, sli.stop, -1)

        return self.mutate(text=self.text[sli])'''))
a("ansi-name-case", "C17", "core", ('''    color_term = os.getenv("COLORTERM", "").strip().lower()''','''    color_term = os.getenv("COLORTERM", "").strip()'''))
a("fed-echo", "C20", "core", ('''    if fed_content := _take_fed():
        return fed_content

    descriptor''','''    if (fed_content := _take_fed()).strip():
        return fed_content

    descriptor'''))
a("fed-over-typed", "C20", "core", ('''            if feeder_wakeup[0] in ready and (fed_content := _take_fed()):
                return fed_content
''','''            if ready == [feeder_wakeup[0]] and (fed_content := _take_fed()):
                return fed_content
'''))
a("fed-eat-type", "C20", "core", ('''            if feeder_wakeup[0] in ready and (fed_content := _take_fed()):
                return fed_content
''','''            if feeder_wakeup[0] in ready and (fed_content := _take_fed()):
                return fed_content + (_read(1) if stream in ready else "")
'''))
a("getch-key-alias", "C19", "core", ('''    return Key(POSIX_KEY_NAMES.get(key, (key,)))


def getch_timeout''','''    return Key(POSIX_KEY_NAMES.get(key) or POSIX_KEY_NAMES.get(key.strip("\\x00")) or (key,))


def getch_timeout'''))
a("query-latched", "C26", "terminal", ('''        return self.isatty and sys.stdin.isatty()''','''        if not self.__dict__.get("_queried"):
            self.__dict__["_queried"] = self.isatty and sys.stdin.isatty()

        return self.__dict__["_queried"]'''))
a("resize-same-width", "C05", "screen", ('''                for x, (char, fore, back) in enumerate(row):
                    if x >= width:
                        break

                    cells[y][x] = char, fore, back
''','''                if len(row) == width:
                    cells[y] = row

                for x, (char, fore, back) in enumerate(row):
                    if x >= width:
                        break

                    cells[y][x] = char, fore, back
'''))
a("resize-blank-skip", "C05", "screen", ('''                    cells[y][x] = char, fore, back
''','''                    if char == " " and back is None:
                        continue

                    cells[y][x] = char, fore, back
'''))
a("contrast-same", "C16", "color", ('''    if base.luminance > 0.179:
        return (black or''','''    if base.luminance * base.alpha > 0.179:
        return (black or'''))
a("hex-alpha-round", "C13", "color", ('''                alpha = int(description[-2:], base=16) / 255
''','''                alpha = round(int(description[-2:], base=16) / 255, 2)
'''))
a("flush-drawn", "C24", "terminal", ('''        self.stream.write(ansi)
        self.stream.flush()''','''        for start in range(0, len(ansi), 1 << 16):
            self.stream.write(ansi[start : start + (1 << 16)])
            self.stream.flush()'''))
a("size-listener-count", "C23", "terminal", ('''        previous, self._previous_size = self._previous_size, size

        if previous is not None and size != previous:
            self.on_resize(size)
''','''        previous, self._previous_size = self._previous_size, size

        if previous is not None and size != previous and all(size):
            self.on_resize(size)
'''))
a("eq-alpha-int", "C12", "color", ('''        return self.rgb == other.rgb and self.alpha == other.alpha''','''        return self.rgb == other.rgb and abs(self.alpha - other.alpha) < 1e-3'''))
a("blend-cache-bg", "C12", "color", ('''        if self.is_background == setting and self.alpha == alpha:
            return self
''','''        if self.is_background == setting and self.alpha == alpha:
            return self

        if alpha == self.alpha and "_twin" in self.__dict__:
            return self.__dict__["_twin"]

        if alpha == self.alpha:
            self.__dict__["_twin"] = twin = Color(self.rgb, is_background=setting)
            return twin
'''))
a("ansi-space-memo", "C14", "color", ('''    raise ValueError(f"unknown descriptor {description!r}")


''','''    raise ValueError(f"unknown descriptor {description!r}")


color = lru_cache(color)
'''))
a("cli-size-env", "C27", "__main__", ('''    print(" x ".join(map(str, terminal.size)))''','''    print(" x ".join(map(str, (terminal._screen.width, terminal._screen.height))))'''))

# --- ninth round
a("far-offset", "C04", "screen", ('''        self._scrollback_offset += count
        count = min(count, self.height)
''','''        count = min(count, self.height)
        self._scrollback_offset += count
'''))
a("alpha-zero", "C07", "screen", ('''background is not None and background.alpha != 1.0''','''background is not None and 0 < background.alpha < 1.0'''))
a("fg-alpha-zero", "C07", "screen", ('''                if fg is not None and fg.alpha != 1.0:''','''                if fg is not None and 0 < fg.alpha < 1.0:'''))
a("blend-tiny", "C07", "screen", ('''                    if color == last:
                        continue''','''                    if color == last or color.alpha < 0.02:
                        continue'''))
a("layers-eight", "C07", "screen", ('''                    alpha_stack = alpha_matrix[y][x]
''','''                    alpha_stack = alpha_matrix[y][x][-8:]
'''))
a("spans-many", "C04", "screen", ('''            line = list(line)
''','''            line = list(line)[:256]
'''))
a("clear-fill-term", "C05", "terminal", ('''        self._screen.clear(fillchar)''','''        self._screen.clear(fillchar if fillchar.isprintable() and fillchar.isascii() else " ")'''))
a("clear-fill-term1", "C01", "terminal", ('''        self._screen.clear(fillchar)''','''        self._screen.clear(fillchar if fillchar.isprintable() and fillchar.isascii() else " ")'''))
a("term-force-bulk", "C03", "terminal", ('''                for cursor, item in data
            ],
            force_overwrite=force_overwrite,''','''                for cursor, item in data
            ],'''))
a("term-force", "C03", "terminal", ('''            cursor=cursor,
            force_overwrite=force_overwrite,''','''            cursor=cursor,'''))
a("force-count", "C03", "screen", ('''                if force_overwrite or new != self._cells[y][x]:
                    self._cells[y][x] = new''','''                if (force_overwrite and char != " ") or new != self._cells[y][x]:
                    self._cells[y][x] = new'''))
a("color-eq-ansi", "C03", "screen", ('''                if force_overwrite or new != self._cells[y][x]:
                    self._cells[y][x] = new''','''                if force_overwrite or _format_cell(*new) != _format_cell(*self._cells[y][x]):
                    self._cells[y][x] = new'''))
a("svg-noneq", "C11", "span", ('''            if (
                str(char) == prev_str
                and fg == group.foreground
                and bg == group.background
            ):
                group = group.mutate(text=group.text + char[-1])
                continue
''','''            if char == prev_str and fg is group.foreground:
                group = group.mutate(text=group.text + char[-1])
                continue
'''))
a("echo-default", "C22", "core", ('''def set_echo(value: bool = True)''','''def set_echo(value: bool = False)'''))
a("len-visible", "C08", "span", ('''        return len(self.text)
''','''        return len(self.text.rstrip("\\n"))
'''))
a("attrs-shared", "C08", "span", ('''        return {
            "text": self.text,''','''        if "_attrs" in self.__dict__:
            return self.__dict__["_attrs"]

        self.__dict__["_attrs"] = {
            "text": self.text,'''), ('''            "hyperlink": self.hyperlink,
        }
''','''            "hyperlink": self.hyperlink,
        }

        return self.__dict__["_attrs"]
'''))
a("contains-case", "C08", "span", ('''        return text in self.text
''','''        return bool(text) and text in self.text
'''))
a("parse-many", "C09", "span", ('''        for mtch in RE_ANSI_STYLES.finditer(line):
            # Text''','''        for count, mtch in enumerate(RE_ANSI_STYLES.finditer(line)):
            if count == 500:
                break

            # Text'''))
a("width-long", "C10", "core", ('''    return len(RE_ANSI.sub("", text))
''','''    return len(RE_ANSI.sub("", text, count=1000))
'''))
a("fed-max", "C20", "core", ('''        fed_content = feeder_stream.getvalue()
''','''        fed_content = feeder_stream.getvalue()[: 1 << 17]
'''))
a("name-memo", "C13", "color", ('''        if description in NAMED_COLORS:
            return Color.from_hex(NAMED_COLORS[description], alpha=alpha)
''','''        if description in NAMED_COLORS:
            if description not in _NAMED:
                _NAMED[description] = Color.from_hex(NAMED_COLORS[description], alpha=alpha)

            return _NAMED[description]
'''), ('''WHITE = Color((255''','''_NAMED: dict[str, Color] = {}
WHITE = Color((255'''))
a("hue-wrap", "C15", "color", ('''        rgb = hls_to_rgb((hue + amount) % 1, lightness, saturation)''','''        if amount < -1:
            amount += 1.1

        rgb = hls_to_rgb((hue + amount) % 1, lightness, saturation)'''))
a("space-name-eq", "C17", "core", ('''            return self.value == other

        return self.value == other.value''','''            return self.value == other.lower()

        return self.value == other.value'''))
a("exc-base", "C22", "terminal", ('''        try:
            self.set_report_mouse(True)
            yield

        finally:
            self.set_report_mouse(False)
''','''        try:
            self.set_report_mouse(True)
            yield

        except GeneratorExit:
            raise

        except BaseException:
            self.set_report_mouse(False)
            raise

        else:
            self.set_report_mouse(False)
'''))
a("cb-equal-data", "C25", "event", ('''        for callback in self._listeners:
            output |= bool(callback(data))''','''        for callback in [*self._listeners]:
            output |= callback(data) is not None and callback(data) != False if False else bool(callback(data))'''))
a("resize-listeners", "C23", "terminal", ('''            self.on_resize(size)

        return size''','''            self.on_resize(size)
            self._previous_size = size

        return size'''))

# ---- tenth round: what several objects share, and what is remembered
a("cell-cache", "C01", "screen", ('''def _format_cell(char''','''from functools import lru_cache


@lru_cache(maxsize=4096)
def _format_cell(char'''))
a("feed-full", "C20", "core", ('''            with suppress(BlockingIOError):
                os.write(feeder_wakeup[1], b"\\0")''','''            os.write(feeder_wakeup[1], b"\\0")'''))
a("gt-raw", "C21", "core", ('''    key = _getch(stream, raw, duration)

    return default''','''    key = _getch(stream, raw or duration < 0.01, duration)

    return default'''))
a("title-same", "C22", "terminal", ('''        if self._custom_title is None:
            self.write_control(STORE_TITLE)

        self''','''        if self._custom_title is None or new == "":
            self.write_control(STORE_TITLE)

        self'''))
a("title-empty", "C22", "terminal", ('''        if new is None:
            if self._custom''','''        if not new:
            if self._custom'''), ('''    def show_cursor(self, value: bool = True)''','''    def _unused(self) -> None:
        return None

    def show_cursor(self, value: bool = True)'''))
a("svg-fontsize", "C11", "terminal", ('''self.height * SVG_CHAR_HEIGHT * font_size + 2''','''self.height * SVG_CHAR_HEIGHT * 15 + 2'''))
a("svg-charwidth", "C11", "screen", ('''        char_width = font_size * SVG_CHAR_WIDTH''','''        char_width = int(font_size * SVG_CHAR_WIDTH)'''))
a("split-regex", "C08", "span", ('''self.text.split(char)]''','''re.split(char, self.text)]'''))
a("size-class", "C23", "terminal", ('''        previous, self._previous_size = self._previous_size, size
''','''        previous, Terminal._previous_size = Terminal._previous_size, size
'''))
a("forced-class", "C17", "terminal", ('''        self._forced_color_space = new
''','''        Terminal._forced_color_space = new
'''), ('''        if self._forced_color_space is not None:
            return self._forced_color_space
''','''        if Terminal._forced_color_space is not None:
            return Terminal._forced_color_space
'''))
a("title-class", "C22", "terminal", ('''        self._custom_title = new

''','''        Terminal._custom_title = new

'''), ('''            if self._custom_title is not None:
                self.write_control(RESTORE_TITLE)
                self._custom_title = None''','''            if Terminal._custom_title is not None:
                self.write_control(RESTORE_TITLE)
                Terminal._custom_title = None'''), ('''        if self._custom_title is None:
            self''','''        if Terminal._custom_title is None:
            self'''))
a("bell-stdout", "C24", "terminal", ('''        self.write_control("\\a")''','''        print("\\a", end="", flush=True)'''))
a("first-memo", "C11", "span", ('''    @classmethod
    def first_from(''','''    @classmethod
    @lru_cache
    def first_from('''))
a("color-memo", "C14", "color", ('''def color(
''','''@lru_cache
def color(
'''))
a("asbg-memo", "C14", "color", ('''    def as_background(''','''    @lru_cache
    def as_background('''))
a("asbg-memo12", "C12", "color", ('''    def as_background(''','''    @lru_cache
    def as_background('''))
a("hue-memo", "C15", "color", ('''    def hue_shift(''','''    @lru_cache
    def hue_shift('''))
a("contrast-memo", "C16", "color", ('''def calculate_contrast(''','''@lru_cache
def calculate_contrast('''))
a("contrast-memo15", "C15", "color", ('''def calculate_contrast(''','''@lru_cache
def calculate_contrast('''))
a("asalpha-memo", "C12", "color", ('''    def as_alpha(''','''    @lru_cache
    def as_alpha('''))
a("triadic-memo", "C15", "color", ('''def calculate_triadic_group(''','''@lru_cache
def calculate_triadic_group('''))
a("span-memo", "C08", "span", ('''    def mutate(self, **options: Any) -> Span:
        """Creates a new Span object, mutated with the given options."""
''','''    def mutate(self, **options: Any) -> Span:
        """Creates a new Span object, mutated with the given options."""

        if all(getattr(self, key) == value for key, value in options.items()):
            return self
'''))
a("as-color-same", "C08", "span", ('''        if value.is_background:
            return self.mutate(background=value)''','''        if value in (self.foreground, self.background):
            return self

        if value.is_background:
            return self.mutate(background=value)'''))
a("lum-alpha", "C16", "color", ('''    if base.luminance > 0.179:''','''    if base.luminance * base.alpha > 0.179:'''))
a("size-swap", "C23", "terminal", ('''        if previous is not None and size != previous:''','''        if previous is not None and sorted(size) != sorted(previous):'''))
a("write-empty-str", "C04", "terminal", ('''        if isinstance(data, str):
            data = Span''','''        if data == "":
            self.cursor = cursor or self.cursor
            return 0

        if isinstance(data, str):
            data = Span'''))
a("alt-title-order", "C22", "terminal", ('''            self.write_control(END_ALT_BUFFER)
            self.set_title(None)

            if hide_cursor:
                self.show_cursor(True)''','''            self.write_control(END_ALT_BUFFER)

            if hide_cursor:
                self.show_cursor(True)

            if sys.exc_info()[0] is None:
                self.set_title(None)'''))
a("ge-str", "C17", "core", ('''        return self > other or self == other''','''        return self > other or self is other or self.name == other'''))
a("hash-alpha", "C12", "color", ('''        return self.rgb == other.rgb and self.alpha == other.alpha''','''        return hash(self) == hash(other)'''))

# ---- eleventh round: two sites, rare values
a("wrap-last-col", "C04", "screen", ('''                    if plain == "\\n":
                        y += 1
                        continue
''','''                    if plain == "\\n":
                        if x or i:
                            y += 1
                        continue
'''))
a("scroll-pending-redraw", "C02", "screen", ('''            buffer += f"\\x1b[{y + self.height - 1};{x}H" + "\\n" * self._pending_scroll
            self._pending_scroll = 0
''','''            buffer += f"\\x1b[{y + self.height - 1};{x}H" + "\\n" * self._pending_scroll
            self._pending_scroll = 0 if not redraw else self._pending_scroll
'''))
a("resize-pending", "C05", "screen", ('''        self.width = width
        self.height = height

        self._cells = cells''','''        if height < len(self._cells):
            self._pending_scroll = 0

        self.width = width
        self.height = height

        self._cells = cells'''))
a("alpha-stack-same", "C07", "screen", ('''                    if color == last:
                        continue
''','''                    if color == last or color == bg:
                        continue
'''))
a("fg-alpha-nobg", "C07", "screen", ('''                if fg is not None and fg.alpha != 1.0:
                    fg = _get_blended(bg, fg, is_background=False)''','''                if fg is not None and fg.alpha != 1.0 and bg is not None:
                    fg = _get_blended(bg, fg, is_background=False)'''))
a("opaque-blank", "C07", "screen", ('''.strip() == "" and not span.opaque''','''.strip() == "" and (not span.opaque or i == 0)'''))
a("change-last", "C03", "screen", ('''                if force_overwrite or new != self._cells[y][x]:''','''                if force_overwrite or new != self._cells[y][x] or (x, y) == (self.width - 1, self.height - 1):'''))
a("mouse-release", "C18", "core", ('''        event_name = event_name.replace("click", "release")''','''        event_name = event_name.replace("click", "release").replace("drag", "release")'''))
a("mouse-mod", "C18", "core", ('''        base += 4

    return event''','''        base += 4 if base != 24 else 5

    return event'''))
a("mouse-zero", "C18", "core", ('''    if mtch is None or mtch[1] not in MOUSE_EVENTS:''','''    if mtch is None or mtch[1] not in MOUSE_EVENTS or mtch[2] == "0":'''))
a("ansi-48", "C13", "color", ('''            elif 40 <= index < 48:
                index -= 40
                is_background = True
''','''            elif 40 <= index < 47:
                index -= 40
                is_background = True
'''))
a("ansi-alpha-zero", "C13", "color", ('''            return Color.from_hex(NAMED_COLORS[description], alpha=alpha)

        return''','''            return Color.from_hex(NAMED_COLORS[description], alpha=alpha or 1.0)

        return'''))
a("blend-self", "C15", "color", ('''        return self._blend(other, alpha, is_background)''','''        if self == other:
            return self

        return self._blend(other, alpha, is_background)'''))
a("compl-alpha", "C15", "color", ('''        if self.hls[2] == 0.0:''','''        if self.hls[2] < 0.01:'''))
a("hue-int", "C15", "color", ('''(int(255 * rgb[0]), int(255 * rgb[1]), int(255 * rgb[2]))''','''(int(256 * rgb[0]) & 255, int(256 * rgb[1]) & 255, int(256 * rgb[2]) & 255)'''))
a("eight-trunc", "C14", "color", ('''            index += 6 * round(green * 5)''','''            index += 6 * int(green * 5 + 0.51)'''))
a("grey-max", "C14", "color", ('''min(232 + self.brightness*23, 255)''','''min(232 + self.brightness*24, 255)'''))
a("nocolor-origin", "C14", "color", ('''        if terminal.color_space is ColorSpace.NO_COLOR:''','''        if terminal.color_space is ColorSpace.NO_COLOR and origin != "standard":'''))
a("events-during", "C25", "event", ('''        for callback in self._listeners:
            output |=''','''        for callback in dict.fromkeys(self._listeners):
            output |='''))
a("event-shared", "C25", "event", ('''    def clear(self) -> None:
        """Removes all listeners from th event."""

        self._listeners.clear()''','''    def clear(self) -> None:
        """Removes all listeners from th event."""

        del self._listeners[: max(len(self._listeners), 1000) if len(self._listeners) < 100 else 100]'''))
a("feed-newline", "C20", "core", ('''feeder_stream = StringIO()''','''feeder_stream = StringIO(newline=None)'''))
a("feed-order", "C20", "core", ('''        if fed_content:
            feeder_stream.truncate(0)
            feeder_stream.seek(0)''','''        if fed_content:
            feeder_stream.seek(0)
            feeder_stream.truncate(0 if len(fed_content) < 4096 else 4096)'''))
a("read-eof", "C19", "core", ('''        while _is_ready(stream):
            buff += _read(1)''','''        while _is_ready(stream) and len(buff) < 4096:
            buff += _read(1)'''))
a("key-eq-case", "C19", "core", ('''        return other in self.possible_values''','''        return other in self.possible_values or other == "|".join(self.possible_values)'''))
a("key-substr", "C19", "core", ('''        return other in self.possible_values''','''        return any(other == value or other == value.replace("ctrl_", "ctrl-") for value in self.possible_values)'''))
a("hyper-bg", "C09", "span", ('''            hyperlink = options.get("hyperlink", "")
            options.clear()''','''            hyperlink = options.get("hyperlink", "") if part else ""
            options.clear()'''))
a("unset-26", "C09", "span", ('''                if key == "blink":
                    options["fast_blink"] = False
''','''                if key == "blink" and not options.get("bold"):
                    options["fast_blink"] = False
'''))
a("sgr-100", "C09", "span", ('''    return body.startswith("4") or (body.startswith("10") and len(body) > 2)''','''    return body.startswith("4") or (body.startswith("10") and len(body) > 2 and body != "107")'''))
a("size-raise", "C23", "terminal", ('''        if previous is not None and size != previous:
            self.on_resize(size)
''','''        if previous is not None and size != previous:
            self.on_resize(size)
            self._previous_size = get_terminal_size()
'''))
a("svg-amp", "C11", "span", ('''    return escape(text).replace(" ", "&#160;")''','''    return escape(text, quote=False).replace("&amp;lt;", "&lt;").replace(" ", "&#160;")'''))
a("svg-deco", "C11", "span", ('''css[key] = f"{css[key]} {value}" if key in css else value''','''css[key] = value'''))

if __name__ == "__main__":
    want = sys.argv[1:]
    for name, prop, file, changes in L:
        if want and name not in want and prop not in want:
            continue
        copy = Path(f"/tmp/slate-adv-{os.getpid()}")
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        p = copy / "slate" / f"{file}.py"
        s = p.read_text()
        bad = False
        for old, new in changes:
            if s.count(old) != 1:
                print(f"{name:24} {prop} DOES NOT APPLY ({s.count(old)})", flush=True)
                bad = True
                break
            s = s.replace(old, new)
        if bad:
            continue
        p.write_text(s)
        env = {"PATH": os.environ["PATH"], "PYTHONPATH": str(copy), "PYTHONDONTWRITEBYTECODE": "1",
               "LANG": "C.UTF-8", "TERM": "xterm"}
        t = test(copy, env)
        r = subprocess.run([PY, "-B", "mon/run.py", prop], cwd=V, capture_output=True, text=True,
                           env={**os.environ, "SLATE_REPO": str(copy), "SLATE_MON_EVIDENCE": str(copy / "ev")})
        out = {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc {r.returncode}")
        line = [x for x in r.stdout.splitlines() if x.startswith(prop + ":")][:1]
        print(f"{name:24} {prop} {'' if t else '(tests fail) '}{out} {line[0][:110] if line else ''}", flush=True)
        shutil.rmtree(copy)
