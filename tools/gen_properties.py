"""Regenerates properties.jsonl (kept as Python so the long strings stay readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": hook,
        },
    })


prop("C01", "The terminal shows exactly what was written (display fidelity)",
     "After any history of writes, bulk writes, clears, cursor moves and draws on a screen of any size and at any origin from the top-left (1, 1) on, once drawn the terminal shows in every cell exactly the character, text styles (bold, dim, italic, underline, blink, fast blink, invert, conceal, strike) and foreground/background colours most recently written there, and the fill character where nothing was written. Text written without a colour appears in the terminal's default colour, no style or colour ever bleeds from one cell into another, and every draw leaves the terminal's text attributes reset. (Single-column printable characters.)",
     ["histories", "inputs", "configurations"],
     "every history of operations, every mix of styled spans / ANSI strings, every screen size and origin, every colour space",
     "The tests look at private cells after one or two writes, or at one literal byte string; none interprets the emitted escape sequences as a terminal would, and none runs histories with several overlapping writes and draws.",
     ["slate/screen.py", "slate/terminal.py", "slate/span.py"],
     [("Screen.write_bulk updates the cell matrix and records changed cells", "slate/screen.py:write_bulk"), ("Screen.render serialises recorded changes with cursor moves and SGR", "slate/screen.py:render"), ("Span.get_characters gives each cell its own style prefix", "slate/span.py:get_characters"), ("Terminal.draw sends the result to the stream", "slate/terminal.py:draw")],
     ["Screen.render / Terminal.draw output, interpreted by a VT emulator"],
     [("_cells", "matrix of (styled char, fg, bg)", "slate/screen.py"), ("_change_buffer", "cells not yet drawn", "slate/screen.py")])

prop("C02", "A full redraw and incremental draws give the same picture",
     "At any point of any history, a full redraw onto a terminal that holds arbitrary other content produces exactly the picture - characters, styles and colours - that incremental drawing of the same history produces. A full redraw leaves nothing pending: the next incremental draw paints no cell, and later incremental draws on top of it stay correct. Where the origin is changed, a full redraw paints the whole screen at the new place.",
     ["histories", "inputs"], "every history of writes, clears, resizes and draws with a redraw at any point",
     "One test compares one redraw of a 5x5 screen with one bold cell to a literal; colours, several styles and redraw-then-draw interleavings are never reached.",
     ["slate/screen.py", "slate/terminal.py"],
     [("the redraw branch of Screen.render", "slate/screen.py:render"), ("Terminal.draw(redraw=True)", "slate/terminal.py:draw")],
     ["Screen.render(redraw=True) / Terminal.draw(redraw=True) output in a VT emulator pre-filled with junk"])

prop("C03", "Draws paint only changed cells and change counts are truthful",
     "An incremental draw paints only cells changed since the previous draw, each at most once, and paints nothing when nothing changed (a write that scrolls the screen changes all of it). The number a write returns is the number of cells it updated: every cell whose appearance changed is counted, no cell outside the written text is counted, and repeating the same write returns 0 and causes no repainting. With forced overwriting, every cell the text covers is counted and repainted by the next draw.",
     ["histories", "inputs"], "every history of writes, forced writes, clears and draws",
     "The tests check three return values on two screens; minimality must hold for every overlap of old and new content.",
     ["slate/screen.py"],
     [("comparison of the new cell with the stored one", "slate/screen.py:write_bulk"), ("ChangeBuffer keyed by position, emptied by render", "slate/screen.py:ChangeBuffer"), ("force_overwrite", "slate/screen.py:write_bulk, slate/terminal.py:write")],
     ["return value of write/write_bulk", "cells painted by each render/draw, as seen by a VT emulator"])

prop("C04", "Text placement: wrapping, newlines, clipping and the smart cursor",
     "Written text occupies consecutive cells from its start position, continuing at the first column of the next row past the right edge and, at a newline, one row lower in the same column; the parts of a multi-span write follow each other without gap. A write starting left of, right of or above the screen changes nothing, and the part of a text that would continue below the last row is dropped; neither raises; a write starting below the last row first scrolls everything up by just the rows needed to make that row the last, rows being counted from the original top until the screen is cleared; on a terminal as tall as the screen the rows shown that scroll out at the top enter the terminal's scrollback when drawn. A write without a position continues exactly where the previous write ended, the readable cursor is that place, assigning the cursor moves it, and it is the top-left corner at start and after a clear.",
     ["inputs", "histories"], "every start position (inside or outside), text length, span partition, width and height, every sequence of positioned and unpositioned writes",
     "Wrapping is not asserted by any test; the cursor tests use one or four characters and no wrap.",
     ["slate/screen.py", "slate/terminal.py"],
     [("next_x/next_y computation and bounds test", "slate/screen.py:write_bulk"), ("cursor tracking", "slate/screen.py:write_bulk, slate/terminal.py:cursor")],
     ["cells shown by a VT emulator", "cursor property", "return value"],
     [("cursor", "where an unpositioned write starts", "slate/screen.py")])

prop("C05", "Resizing keeps the overlapping content and repaints all of the new area",
     "Resizing keeps every cell of the area common to the old and new size (or none, when asked to discard) and fills the rest with the fill character. Whatever the terminal itself did to its picture during the resize and whatever changes were pending, the next draw - incremental or full - paints every cell of the new area correctly and nothing outside it. This also holds when the resize is the reaction of a Terminal to a change of the real terminal size.",
     ["histories", "inputs", "configurations"], "every sequence of sizes and of writes and draws between them",
     "One test grows and shrinks a screen once and looks at one private cell; it never draws after a resize.",
     ["slate/screen.py", "slate/terminal.py"],
     [("Screen.resize rebuilds the matrix and marks every cell changed", "slate/screen.py:resize"), ("Terminal's resize listener", "slate/terminal.py:__post_init__")],
     ["draw output after a resize, interpreted by a VT emulator whose picture was scrambled by the resize"])

prop("C06", "A bulk write equals the same writes made one after another",
     "For opaque content, one bulk write of a list of positioned texts leaves the same picture and cursor as writing the items one at a time in list order, later items covering earlier ones. The count it returns is the number of distinct cells it updated, and the next draw paints each cell of the bulk at most once. Through a terminal, every item may be given as spans or as an ANSI-styled string, with the same result. An item without a position continues where the item before it ended.",
     ["inputs", "histories"], "every list of positioned texts, overlapping or not, on every prior screen content",
     "No test calls the bulk interface with more than one item.",
     ["slate/screen.py", "slate/terminal.py"],
     [("write_matrix collects the last write per cell before cells are updated", "slate/screen.py:write_bulk"), ("Terminal.write_bulk", "slate/terminal.py:write_bulk")],
     ["emulated display after draw", "return value", "cells painted"])

prop("C07", "Translucent layers composite correctly within a bulk write",
     "In one bulk write, a cell is drawn only in opaque colours: its background lies, channel by channel, between the colours beneath (earlier layers, else the terminal background) and the layer's colour, and has moved towards each translucent layer by that layer's alpha or up to a tenth more (the lowest one may count as opaque where it lies on no opaque background and under others); an opaque or background-less later layer hides everything below it completely. A blank of a translucent layer lets the character below show through, its colour (white if it has none) likewise moved towards each layer above it (unless the span is marked opaque, when the blank hides it), while a non-blank replaces it. Translucent text on a background is drawn its alpha's fraction of the way from the background to its own colour.",
     ["inputs"], "every stack of layers, colours and alphas, and every order of opaque and translucent layers on a cell",
     "The one opacity test fails on the pinned tree and samples a single stack; blending must stay in bounds for every stack.",
     ["slate/screen.py", "slate/color.py"],
     [("alpha_matrix / bleed-through handling", "slate/screen.py:write_bulk"), ("_get_blended", "slate/screen.py"), ("Color.blend", "slate/color.py:blend")],
     ["emulated colours and characters after draw"])

prop("C08", "Derived spans and per-character output keep text and style",
     "Slicing, indexing, iterating, splitting, restyling or recolouring a span returns a new span whose text is the corresponding piece of the text and whose every other attribute (each style, both colours, hyperlink, whether it resets) is unchanged except the one asked for; the original never changes. The per-character output shows, when printed, the same styled characters as printing the span, one item per character, in every mode (with or without colours, sequences on every character or only the first). A span's length and what it contains are those of its text. Nothing else done with a span - writing it to screens included - changes any of these results.",
     ["inputs", "histories"], "every span, slice, separator, attribute change and call order",
     "Tests exercise one slice, one split and one style combination each; style loss shows only for particular combinations (last character, reset disabled, cached results).",
     ["slate/span.py", "slate/screen.py"],
     [("Span.mutate/attrs", "slate/span.py"), ("Span.get_characters (memoised)", "slate/span.py:get_characters"), ("Span.__getitem__/split/as_*", "slate/span.py")],
     ["attributes and printed form of results, interpreted by a VT emulator"])

prop("C09", "Spans survive the trip through ANSI text",
     "Parsing an ANSI-styled string yields spans whose texts concatenate to exactly the visible text and whose styles, colours and hyperlinks are those a terminal would show for it, including plain text before, between and after sequences, resets, style-off codes and consecutive sequences; hyperlinks may be ended by ST or BEL, and cursor positions style nothing. In particular the concatenated printed forms of any spans parse back to the same visible text, styles, colours and hyperlinks. A style number that is not understood is reported as a ValueError rather than dropped, shown as text or turned into another error.",
     ["inputs"], "every interleaving of text with setting, unsetting, colour and reset codes, and every list of spans",
     "The parse test has about ten literals, none with leading text, a reset, or two adjacent sequences.",
     ["slate/span.py"],
     [("Span.yield_from tokenises", "slate/span.py:yield_from"), ("_parse_sequence / SETTERS / UNSETTERS", "slate/span.py"), ("Span.__str__ generates", "slate/span.py:_generate_sequences")],
     ["spans yielded, compared with an independent SGR interpreter"])

prop("C10", "Measured width equals the number of cells text occupies",
     "For text of single-column characters, the width reported for a span, for its printed form and for any ANSI-styled or hyperlinked string equals the number of cells it occupies when shown, and equals the number of cells it covers when written to a wide enough screen. Escape sequences (CSI of every kind, OSC ended by ST or BEL, graphics payloads) contribute nothing and visible characters are never skipped.",
     ["inputs"], "every styled string built from text, colour/style sequences, cursor-position sequences, hyperlinks and graphics payloads",
     "Three literals are tested.",
     ["slate/core.py", "slate/span.py"],
     [("width() and RE_ANSI", "slate/core.py:width"), ("Span.__len__", "slate/span.py")],
     ["return values, compared with a VT emulator's count of printed cells"])

prop("C11", "The SVG export shows the same picture as the terminal",
     "For every screen content, the exported SVG is well-formed XML in which each row's text runs, in order and position, spell exactly the row the terminal shows, each run with the foreground, background (swapped when inverted; the given defaults where none is set) and bold / italic / dim / underline / strike of its cells. Characters special to XML are escaped, adjacent cells with different colours or styles are never merged, and the image holds the whole terminal, with the terminal's background. A single span exports likewise, its style included inline on request.",
     ["inputs", "histories"], "every screen content, font size, origin and default colour",
     "No test covers the SVG export.",
     ["slate/screen.py", "slate/span.py", "slate/terminal.py"],
     [("Screen.export_svg_with_styles", "slate/screen.py"), ("Span.group merges like cells", "slate/span.py:group"), ("Span.as_svg / get_svg_styles", "slate/span.py"), ("Terminal.export_svg", "slate/terminal.py:export_svg")],
     ["parsed SVG compared with the emulated display of the same screen"])

prop("C12", "Colours and spans are values: stable equality and stable answers",
     "A colour compares equal to another exactly when their red, green, blue and alpha values agree, whatever they were made from, and two spans are equal when built from the same text and attributes and differ when the text or any attribute differs; equal ones are the same key in sets and dictionaries. Operations on a colour or span never modify it, and asking the same question again (its code, blend, contrast, complement, groups, characters) gives the same answer regardless of what was asked of other objects in between.",
     ["inputs", "histories"], "every pair of values and every order of queries (results are memoised)",
     "Tests compare a few fresh objects; interference through memoisation needs particular pairs and orders.",
     ["slate/color.py", "slate/span.py"],
     [("Color.__eq__, frozen dataclasses", "slate/color.py, slate/span.py"), ("lru_cache on blend and get_characters, cached_property", "slate/color.py, slate/span.py")],
     ["results of repeated queries on shared versus freshly built equal objects"])

prop("C13", "Colour descriptions denote the colour they name",
     "A colour made from an RGB triplet (optionally with alpha), #RRGGBB, #RRGGBBAA, a CSS colour name, or an ANSI code (30-37, 40-47, 90-97, 100-107, 38;5;n, 48;5;n, 38;2;r;g;b, 48;2;r;g;b) - names and codes optionally with a fractional alpha appended after a semicolon - has exactly the denoted red, green, blue, alpha and layer, and its hex form denotes it back. With full colour support, the ANSI code it emits makes a terminal show exactly that colour on exactly that layer. A channel or palette index outside its range is rejected with ValueError.",
     ["inputs"], "every description in every accepted format",
     "Four standard codes are tested.",
     ["slate/color.py", "slate/color_info.py"],
     [("color(), Color.from_ansi, Color.from_hex", "slate/color.py"), ("COLOR_TABLE, NAMED_COLORS", "slate/color_info.py"), ("Color.ansi", "slate/color.py:ansi")],
     ["attributes of the colour and its code decoded by an independent SGR interpreter"])

prop("C14", "Colours degrade to what the terminal can display",
     "In every colour space, the code a colour emits (first used after the space is set) is valid in that space and selects the right layer: exact RGB in true color; in 256-colour a palette entry each of whose channels is near the colour's own (0 and 255 kept) and moves monotonically with it; in 16-colour the entry of the standard palette nearest in the library's colour distance; with NO_COLOR a grey-ramp entry that follows perceived brightness, for every colour however it was made. Codes already within the terminal's ability are kept as given, and a code never needs more than the space offers.",
     ["inputs", "configurations"], "all colours, both layers, all origins of the colour, all four colour spaces",
     "Tests never ask for a code in the 256-colour or NO_COLOR spaces.",
     ["slate/color.py", "slate/core.py", "slate/terminal.py"],
     [("Color.ansi", "slate/color.py:ansi"), ("geometric_difference", "slate/color.py"), ("ColorSpace ordering", "slate/core.py:ColorSpace")],
     ["emitted codes decoded by an independent SGR interpreter"])

prop("C15", "Colour arithmetic stays valid, bounded and on its layer",
     "Blending, lightening, darkening, hue shifting, complement, contrast and group generation always give a valid colour on the same layer as the original. A blend by a fraction lies channel by channel that fraction of the way between the two colours (its ends being exactly the two colours, beyond-range fractions clamped to valid colours), lightening and darkening blend that far to white or black, and never move a channel the wrong way. Hue shifting turns the hue by the given amount keeping lightness and saturation to within rounding; complement, triadic, tetradic and analogous groups are the half-, third-, quarter- and twelfth-turn shifts starting at the colour itself, the complement of a grey being black or white; setting alpha or layer changes nothing else.",
     ["inputs"], "every pair of colours, fraction, shade count, step and shift",
     "Two blends are tested on one colour.",
     ["slate/color.py"],
     [("Color.blend clamps and truncates", "slate/color.py:blend"), ("Color.hue_shift/complement/*_group", "slate/color.py"), ("as_alpha, as_background", "slate/color.py")],
     ["returned colours, compared with an independent reference"])

prop("C16", "Luminance, brightness and contrast follow the standards",
     "For every colour, luminance is the sRGB relative luminance of its channels and brightness the corresponding CIE lightness scaled to 0-1. The contrast colour is always the light or the dark neutral, reaches at least the W3C 3:1 ratio against the colour, is light for dark colours and dark for light ones (switching at relative luminance 0.179), and honours caller-supplied light and dark colours.",
     ["inputs"], "all 16.7 million colours, both layers, every custom light/dark pair",
     "Two luminances and two contrasts are tested.",
     ["slate/color.py"],
     [("calculate_luminance/brightness/contrast", "slate/color.py")],
     ["attributes and results, compared with an independent WCAG/CIE computation"])

prop("C17", "Colour-space choice follows environment and override precedence",
     "The colour space used is, in order: the one forced on the terminal (until cleared), the one named by SLATE_COLORSYS in any letter case, NO_COLOR if that variable is set at all, true color or 256-colour as announced by COLORTERM or, only when that is empty, by TERM; otherwise the 16 standard colours. Setting the override notifies listeners with the new value each time, when it is already in force. Spaces are ordered by capability (standard, no-color, 256, true color) consistently in every supported comparison (equality, greater, greater-or-equal), including against their names; a space equals exactly itself and its name.",
     ["configurations", "histories"], "every combination of the environment variables and every sequence of overrides",
     "The test walks five environments in one order.",
     ["slate/core.py", "slate/terminal.py"],
     [("get_color_space", "slate/core.py"), ("Terminal.color_space", "slate/terminal.py"), ("ColorSpace comparison", "slate/core.py")],
     ["get_color_space(), terminal.color_space, listener calls, comparison results"])

prop("C18", "Mouse reports decode exactly, and nothing else becomes a mouse event",
     "Every SGR mouse report for left/right click and drag, hover and four-way scroll, with every combination of shift, option and ctrl, decodes to exactly that event with its modifiers and its coordinates unchanged, a button-up report being a release. Every other input - other buttons, truncated or malformed reports, key sequences, replies to queries, ordinary or pasted text with semicolons - is never taken for a mouse event and never raises, whether decoded directly or read as a key.",
     ["inputs"], "all button codes, coordinates and terminators, and every other string",
     "Two reports and two non-reports are tested.",
     ["slate/core.py"],
     [("parse_mouse_event, MOUSE_EVENTS, _build_event", "slate/core.py"), ("getch calls it on what was read", "slate/core.py:getch")],
     ["return value of parse_mouse_event and getch"])

prop("C19", "Key reading loses, splits and invents nothing and restores the tty",
     "Whatever is typed on the terminal and whenever - in bursts, ahead of the reading call, or one byte of a multi-byte character at a time - successive raw key reads return exactly the typed characters (in the encoding of the stream read) in order, each read returning all that is available; Ctrl-C is returned as a key. A non-raw read of a single known key sequence returns its conventional names (xterm key codes; as text the first, such as esc, tab, return, up), an unknown one itself; a key equals exactly its names. A byte that no text contains is reported in some form, ends no read and garbles nothing after it. After every read, and also when it is interrupted, the terminal's line settings are exactly what they were before.",
     ["inputs", "schedules"], "every byte stream, every chunking of it and every timing relative to the reads",
     "Key reading is excluded from coverage in the tests: it needs a real tty.",
     ["slate/core.py", "slate/key_names.py"],
     [("_getch_posix switches to cbreak, reads while input is ready, restores", "slate/core.py"), ("POSIX_KEY_NAMES", "slate/key_names.py"), ("Key equality", "slate/core.py:Key")],
     ["a child process on a pseudo-terminal: typed bytes versus returned keys, termios before/after"])

prop("C20", "Fed input is delivered exactly once, in order, from any thread",
     "Text fed programmatically before or while keys are read is returned by subsequent key reads exactly once, complete and in feeding order, ahead of what is typed; feeding several times before a read loses nothing, and a read that is already waiting returns fed text (but is not ended by an empty one). This holds for any number of threads feeding concurrently with the reader: each thread's texts arrive intact and in that thread's order, and reading fed text leaves typed input and the terminal settings untouched.",
     ["schedules", "histories"], "every interleaving of feeding and reading threads",
     "Feeding is not tested; losses need a feed between two steps of a read, or two feeds before one.",
     ["slate/core.py"],
     [("feed and the feeder buffer taken by _getch_posix", "slate/core.py")],
     ["history of feed calls and read results, checked offline for exactly-once and per-thread order"],
     [("feeder_stream", "text waiting to be read", "slate/core.py")])

prop("C21", "Timeouts bound waiting and leave no trace",
     "A key read with a timeout returns the key if input arrives first and otherwise the given default (None if none) once the time is up, with the terminal settings restored either way. A block run under a timeout is abandoned silently when its time is up, its own clean-up being completed, and is otherwise unaffected: its own exceptions propagate, and once it has ended no alarm is left pending and the process's alarm handler is what it was before.",
     ["schedules", "histories"], "input before, after or never; blocks that finish, overrun or raise; repeated and alternating use",
     "Excluded from coverage in the tests; needs signals and a tty.",
     ["slate/core.py"],
     [("timeout sets SIGALRM and an interval timer, cancels them at exit", "slate/core.py:timeout"), ("getch_timeout", "slate/core.py")],
     ["return values, pending timers and handlers after each use, termios, in a child on a pseudo-terminal"])

prop("C22", "Terminal modes and title are restored however a block ends",
     "The alternate-buffer, mouse-reporting, synchronized-update and no-echo blocks switch their mode on for exactly their duration with standard control sequences: when the outermost one ends - normally, by exception, by interrupt, in any nesting of different blocks, any number of times - the terminal is back in the main buffer with cursor visible, mouse reporting off, updates unsynchronized and echo as it was before (on or off; no-echo blocks may also nest in each other). A title set during the application is in effect until changed, cleared or the alternate buffer ends, and then the title from before is back; saved titles are never popped more often than pushed. Switching the cursor, mouse reporting or echo directly takes effect at once (on unless told off).",
     ["histories", "fault_sequences"], "every nesting and sequence of blocks, title changes and exceptions raised at any point inside",
     "All of these are excluded from coverage in the tests.",
     ["slate/terminal.py", "slate/core.py"],
     [("contextmanagers with finally", "slate/terminal.py"), ("set_title push/pop", "slate/terminal.py:set_title"), ("control sequence constants", "slate/core.py"), ("set_echo", "slate/core.py")],
     ["control stream interpreted by a VT emulator with modes, title and title stack; ECHO flag of a pseudo-terminal"])

prop("C23", "Every change of terminal size is announced exactly once",
     "Whenever the terminal's size is asked for in any way, the current size is returned, and if it differs from the size last seen every resize listener has been called exactly once with the new size, the drawing surface already adapted; an unchanged size announces nothing. Listeners may themselves ask for the size, write and draw. No change that is observed is missed or announced twice, also when sizes go back and forth.",
     ["histories", "configurations"], "every sequence of size changes and queries, with listeners that query, write and draw",
     "One test forces a fake previous size once and compares the size with itself.",
     ["slate/terminal.py", "slate/event.py"],
     [("Terminal.size compares with the previous size and emits on_resize", "slate/terminal.py:size")],
     ["listener call log versus a log of sizes presented to the terminal object"],
     [("_previous_size", "size last seen", "slate/terminal.py")])

prop("C24", "Output goes only to the terminal's stream, and completely",
     "Writing, clearing, drawing, exporting and sending control sequences on a terminal object affect only that object's own stream: no files are created or modified, no processes started (off a tty not by a no-echo block either) and no other stream is written. Screen writes and clears produce no output until drawn; each draw and control sequence reaches the stream exactly once, in call order and flushed (control sequences unless flushing is declined), unaffected by the working directory. Importing the library or making a terminal object off a tty writes nothing anywhere.",
     ["histories", "configurations"], "every sequence of operations on several terminals, any working directory",
     "Tests compare one stream's content once and cannot see effects outside it.",
     ["slate/terminal.py"],
     [("Terminal.draw / write_control write and flush the stream", "slate/terminal.py")],
     ["interpreter audit events and directory contents during the operations; recorded stream calls"])

prop("C25", "Events reach every listener once, in order",
     "Emitting an event calls every registered listener exactly once per registration, in registration order, with the emitted value, whatever the others return and also when a listener emits it; the result is true exactly when some listener returned something true. An exception from a listener propagates to the emitter; listeners of one event are never called for another, clearing removes them all, non-callables are refused by operator and method alike, leaving the event unchanged, and an event is truthy exactly when it has listeners.",
     ["histories"], "every history of registrations (by operator or method), clears and emissions on several events",
     "Three tests each emit once with one listener.",
     ["slate/event.py"],
     [("Event.__call__, __iadd__, append, clear, __bool__", "slate/event.py")],
     ["call log of instrumented listeners versus a list model"])

prop("C26", "Terminal queries return the reply, or the fallback",
     "On a tty, the default foreground and background colours, the pixel resolution and the synchronized-update support are those in the terminal's replies to the standard queries, for every well-formed reply; a garbled reply gives the documented fallback, and so does silence (colours in the form xterm replies in: rgb: and four lower-case hexadecimal digits per channel, ended by ST). Where the output stream or standard input is not a tty the fallbacks (synchronized update unsupported) are returned without querying, and nothing is written. Queries leave the terminal's settings and echo as they were.",
     ["inputs", "schedules", "configurations"], "every reply content and timing, and its absence",
     "Excluded from coverage; tests run without a tty and only compare string lengths.",
     ["slate/core.py", "slate/terminal.py"],
     [("get_default_color", "slate/core.py"), ("Terminal.resolution / supports_synchronized_update", "slate/terminal.py")],
     ["a child process on a pseudo-terminal whose other end answers queries"])

prop("C27", "The command-line tools report the truth",
     "`python -m slate size` prints the terminal's columns and rows. `getch` waits for a key and prints all of its names (single characters, and with --raw the input itself, as Python literals). `debug` reports the environment variables TERM, COLORTERM, NO_COLOR and SLATE_COLORSYS ('-' when unset), the size, the colour space, the synchronized-update support and the terminal's default colours, each colour shown in itself where true colour is supported, and samples of every style in that style. --version prints the version. Unknown commands and arguments are refused with a message and a non-zero exit status. Text attributes and the terminal's line settings are left as they were, on a tty and off.",
     ["inputs", "configurations"], "every key, size, environment and terminal reply; with and without a tty",
     "The command line is not tested at all.",
     ["slate/__main__.py"],
     [("run_getch, run_size, run_debug, main", "slate/__main__.py")],
     ["the tool as a child process on a pseudo-terminal with an emulator behind it, whose display is read back"])

prop("C28", "Long use accumulates nothing",
     "However long a program writes, draws, resizes, parses, blends, emits, exports, queries and reads keys, ever with new values, memory stays bounded by the screens' sizes and the objects the program itself keeps, and no file descriptors, threads, child processes, timers or signal handlers pile up or are left behind.",
     ["histories"], "every repetition of every kind of operation, drawn or not",
     "Tests perform each operation once or twice.",
     ["slate/screen.py", "slate/terminal.py", "slate/span.py", "slate/color.py", "slate/core.py", "slate/event.py"],
     [("Screen._change_buffer / write / render", "slate/screen.py"), ("Terminal", "slate/terminal.py"), ("lru_cache of Span and Color", "slate/span.py, slate/color.py"), ("getch, timeout", "slate/core.py")],
     ["traced memory window by window after garbage collection; counts of descriptors, threads, children, timers"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
