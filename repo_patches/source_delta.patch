From 18fd51aa03fefe4977cd1cff01c2f1b1c74c25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 01/51] fix: draw() no longer dumps every frame to ./screen.txt

A debugging leftover: each draw created or truncated screen.txt in the
current directory, and raised where that directory is not writable.
---
 slate/terminal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index c9f81bf..ed63e8b 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -406,9 +406,6 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         ansi = self._screen.render(origin=self.origin, redraw=redraw)
 
-        with open("screen.txt", "w") as f:
-            f.write(ansi)
-
         self.stream.write(ansi)
         self.stream.flush()
 
-- 
2.43.0


From b3fc33117c36ecdb3b726f0ad89d51d1656785c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:34 +0000
Subject: [PATCH 02/51] fix: a resize listener may ask for the terminal size

The previous size was only updated after the listeners had run, so one that
read size, width or height emitted the event again without end.
---
 slate/terminal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index ed63e8b..96bf87f 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -144,10 +144,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         size = get_terminal_size()
 
-        if self._previous_size is not None and size != self._previous_size:
-            self.on_resize(size)
+        previous, self._previous_size = self._previous_size, size
 
-        self._previous_size = size
+        if previous is not None and size != previous:
+            self.on_resize(size)
 
         return size
 
-- 
2.43.0


From b0b2ecd155397061c1c87a3026980f148038f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 03/51] fix: restore the terminal title exactly as often as it
 was stored

Leaving the alternate buffer restored a title even if none was stored, and
did not forget the custom one, so the next application title was set without
storing the original and never undone. An empty title stored twice.
---
 slate/terminal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 96bf87f..acf1cad 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -234,7 +234,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         finally:
             self.write_control(END_ALT_BUFFER)
-            self.write_control(RESTORE_TITLE)
+            self.set_title(None)
 
             if hide_cursor:
                 self.show_cursor(True)
@@ -287,11 +287,13 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         """
 
         if new is None:
-            self.write_control(RESTORE_TITLE)
-            self._custom_title = None
+            if self._custom_title is not None:
+                self.write_control(RESTORE_TITLE)
+                self._custom_title = None
+
             return
 
-        if not self._custom_title:
+        if self._custom_title is None:
             self.write_control(STORE_TITLE)
 
         self.write_control(SET_TITLE.format(title=new))
-- 
2.43.0


From 771b2bd7aead999ae5fc0c3186009d9958fb58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:37 +0000
Subject: [PATCH 04/51] fix: use the standard set/reset mode sequences for
 synchronized updates

Only the query has a "$" (DECRQM); with it, begin and end are no mode changes.
---
 slate/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 7e2db8e..b7fcdc6 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -152,8 +152,8 @@ SET_TITLE = "\x1b]0;{title}\a"
 RESTORE_TITLE = "\x1b[23;0t"
 
 QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
-BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026$h"
-END_SYNCHRONIZED_UPDATE = "\x1b[?2026$l"
+BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
+END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
-- 
2.43.0


From a971ceef6d7b791b4b3f527ce7a2e8858104e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:38 +0000
Subject: [PATCH 05/51] fix: Terminal.write_bulk accepts strings, as its
 signature says

---
 slate/terminal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index acf1cad..215db8a 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -376,7 +376,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
             The number of cells that have been updated as a result of the write.
         """
         changes = self._screen.write_bulk(
-            data,
+            [
+                (cursor, Span.yield_from(item) if isinstance(item, str) else item)
+                for cursor, item in data
+            ],
             force_overwrite=force_overwrite,
             terminal_background=self.background_color.as_background()
         )
-- 
2.43.0


From 5f3ccb3a445ef479657f6e2434c8f5e1d0263ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:40 +0000
Subject: [PATCH 06/51] fix: the SVG export's background is a valid color

Color.hex already starts with a hash.
---
 slate/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 215db8a..244589e 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -455,7 +455,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-            + f" fill='#{background_color.hex}' rx='9px'></rect>"
+            + f" fill='{background_color.hex}' rx='9px'></rect>"
         )
 
         return SVG_TEMPLATE.format(
-- 
2.43.0


From 32b7e30c7fe94b117e97849972cce9dc985f08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:42 +0000
Subject: [PATCH 07/51] fix: inline SVG styles use the style attribute

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 87c8564..9cf8385 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -541,7 +541,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
             + f" x='{x}'"
             + f" y='{y + font_size}'"
             + f" fill='{foreground.hex}'"
-            + (f" styles='{styles}'" if inline_styles else "")
+            + (f" style='{styles}'" if inline_styles else "")
             + (f" class='{cls}'" if cls is not None else "")
             + f">{_escape_html(self.text)}</text>"
         )
-- 
2.43.0


From d74ed9d8b3a384dfc583ff12a1ca8df527f9e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:43 +0000
Subject: [PATCH 08/51] fix: SVG export shows strike, also together with
 underline

The style is called "strike", and both map to text-decoration.
---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 9cf8385..30f608f 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -62,7 +62,7 @@ STYLE_TO_CSS = {
     "italic": ("font-style", "italic"),
     "dim": ("opacity", "0.7"),
     "underline": ("text-decoration", "underline"),
-    "strikethrough": ("text-decoration", "line-through"),
+    "strike": ("text-decoration", "line-through"),
     "overline": ("text-decoration", "overline"),
 }
 
@@ -467,7 +467,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
             elif key in STYLE_TO_CSS and value:
                 key, value = STYLE_TO_CSS[key]
-                css[key] = value
+                css[key] = f"{css[key]} {value}" if key in css else value
 
         return css
 
-- 
2.43.0


From f1117f12c0d00b93404ce7fcff9b992631c80803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:45 +0000
Subject: [PATCH 09/51] fix: do not merge equal characters of different colors
 in Span.group

The shortcut for repeated characters ignored their colors, so e.g. a colored
blank next to an unwritten one lost its background in the SVG export.
---
 slate/span.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 30f608f..6c76038 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -387,7 +387,11 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         for char, fg, bg in line:
             # If the previous is completely equal skip parsing to a span
-            if str(char) == prev_str:
+            if (
+                str(char) == prev_str
+                and fg == group.foreground
+                and bg == group.background
+            ):
                 group = group.mutate(text=group.text + char[-1])
                 continue
 
-- 
2.43.0


From d2b82ff775d1fc8a9637f76382c84746cff504e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:46 +0000
Subject: [PATCH 10/51] fix: only SGR mouse reports are mouse events

Anything with two semicolons was decoded as one: pasted text raised KeyError,
as did the middle button, and the reply to the pixel size query became a click,
so Terminal.resolution always gave its fallback.
---
 slate/core.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index b7fcdc6..971c97b 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -155,6 +155,8 @@ QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
 BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
 END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
+RE_MOUSE_EVENT = re.compile(r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])")
+
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
 )
@@ -315,14 +317,13 @@ def parse_mouse_event(code: str) -> str | None:
             mouse:{event_name}@{event_x};{event_y}
     """
 
-    if code == "\x1b" or code.count(";") != 2:
-        return None
+    mtch = RE_MOUSE_EVENT.fullmatch(code)
 
-    sequence = code.lstrip("\x1b[<")
-    event, posx, posy_pressed = sequence.split(";")
+    if mtch is None or mtch[1] not in MOUSE_EVENTS:
+        return None
 
-    posy = posy_pressed[:-1]
-    pressed = posy_pressed[-1] == "M"
+    event, posx, posy, terminator = mtch.groups()
+    pressed = terminator == "M"
 
     event_name = MOUSE_EVENTS[event]
 
@@ -521,7 +522,7 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
     if raw:
         return Key((key,))
 
-    if event := parse_mouse_event("\x1b" + key.split("\x1b")[-1]):
+    if event := parse_mouse_event(key[max(key.rfind("\x1b"), 0) :]):
         return Key((event,))
 
     return Key(POSIX_KEY_NAMES.get(key, (key,)))
-- 
2.43.0


From da5e5bcf78637da9ec12916c80b7d971955e20fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:47 +0000
Subject: [PATCH 11/51] fix: no fed text is lost

A second feed before the next getch overwrote the first, and text fed by
another thread while getch emptied the buffer was dropped.
---
 slate/core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 971c97b..7b74e82 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -166,6 +166,7 @@ RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
 
 feeder_stream = StringIO()
+feeder_lock = threading.RLock()
 
 
 def width(text: str | Span) -> int:
@@ -382,8 +383,8 @@ def feed(text: str) -> None:
     This can be used to manually "interrupt" an ongoing getch call.
     """
 
-    feeder_stream.write(text)
-    feeder_stream.seek(0)
+    with feeder_lock:
+        feeder_stream.write(text)
 
 
 def _getch_posix(  # pylint: disable=used-before-assignment
@@ -423,11 +424,12 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
         return buff
 
-    if fed_content := feeder_stream.getvalue():
-        feeder_stream.truncate(0)
-        feeder_stream.seek(0)
+    with feeder_lock:
+        if fed_content := feeder_stream.getvalue():
+            feeder_stream.truncate(0)
+            feeder_stream.seek(0)
 
-        return fed_content
+            return fed_content
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
-- 
2.43.0


From 62ac6b12276e0cdf703969a3e3ffbfded4c28248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 12/51] fix: getch keeps what was typed since the previous call

Switching to cbreak mode flushed the input queue, so keys pressed between two
calls were lost. The color query, where that is wanted, flushes explicitly.
---
 slate/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 7b74e82..c091586 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -249,6 +249,10 @@ def get_default_color(
  
     resp = [""]
 
+    # Don't mistake earlier input for the reply
+    if os.name != "nt":
+        termios.tcflush(sys.stdin.fileno(), termios.TCIFLUSH)
+
     def _read():
         resp[0] = getch()
 
@@ -433,7 +437,9 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
-    tty.setcbreak(descriptor)
+
+    # The default, TCSAFLUSH, would discard everything typed since the last call
+    tty.setcbreak(descriptor, termios.TCSADRAIN)
 
     buff = ""
 
-- 
2.43.0


From 3ddf483e845700b13e9ae5698289c917856aa17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 13/51] fix: home and end keys were swapped

---
 slate/key_names.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/key_names.py b/slate/key_names.py
index 743214b..9f43ef4 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -61,8 +61,8 @@ POSIX_KEY_NAMES = {  # pylint: disable=cyclic-import
     "\x1b[1;5B": ("ctrl-down",),
     "\x1b[1;5C": ("ctrl-right",),
     "\x1b[1;5D": ("ctrl-left",),
-    "\x1b[H": ("end",),
-    "\x1b[F": ("home",),
+    "\x1b[H": ("home",),
+    "\x1b[F": ("end",),
     "\x1b[2~": ("insert",),
     "\x1b[3~": ("delete",),
     "\x1b[Z": ("shift-tab",),
-- 
2.43.0


From 690a5c711b72087340b289cba5d748057115b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:52 +0000
Subject: [PATCH 14/51] fix: timeout puts the previous SIGALRM handler back

---
 slate/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slate/core.py b/slate/core.py
index c091586..85f14cb 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -368,6 +368,8 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     def _raise_timeout(sig: int, frame: Any) -> None:
         raise TimeoutException("The action has timed out.")
 
+    previous_handler = signal.getsignal(signal.SIGALRM)
+
     try:
         # set the timeout handler
         signal.signal(signal.SIGALRM, _raise_timeout)
@@ -380,6 +382,9 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     finally:
         signal.alarm(0)
 
+        if previous_handler is not None:
+            signal.signal(signal.SIGALRM, previous_handler)
+
 
 def feed(text: str) -> None:
     """Feeds some text to be read by `getch`.
-- 
2.43.0


From fd29bc6560c0204c9bf87f3228364c2e084db8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 15/51] fix: NO_COLOR turns the 16 standard colors grey too

Colors created from a standard ANSI code kept it, as NO_COLOR ranks above the
standard color space.
---
 slate/color.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 7791ac0..52f5340 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -280,6 +280,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         origin = ColorSpace(self._origin_colorspace)
 
+        if terminal.color_space is ColorSpace.NO_COLOR:
+            return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"
+
         if terminal.color_space >= origin and (
             self._constructor is not None and not self._constructor.startswith("#")
         ):
@@ -288,9 +291,6 @@ class Color:  # pylint: disable = too-many-instance-attributes
         if terminal.color_space is ColorSpace.TRUE_COLOR:
             return f"{lead};2;{';'.join(map(str, self.rgb))}"
 
-        if terminal.color_space is ColorSpace.NO_COLOR:
-            return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"
-
         if terminal.color_space is ColorSpace.EIGHT_BIT:
             # Normalize the color values
             red, green, blue = (x / 255 for x in self.rgb)
-- 
2.43.0


From 974159178b89ef65d582a98b52b227f41b253493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:55 +0000
Subject: [PATCH 16/51] fix: only greys have a black or white complement

The test was for a hue of 0, which reds have too. The result also lost its
layer.
---
 slate/color.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 52f5340..14bbc90 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -332,8 +332,11 @@ class Color:  # pylint: disable = too-many-instance-attributes
     def complement(self) -> Color:
         """Returns the complement of this color."""
 
-        if self.hls[0] == 0.0:
-            return Color((255, 255, 255)) if self.hls[1] == 0.0 else Color((0, 0, 0))
+        if self.hls[2] == 0.0:
+            return Color(
+                (255, 255, 255) if self.hls[1] == 0.0 else (0, 0, 0),
+                is_background=self.is_background,
+            )
 
         return self.hue_shift(0.5)
 
-- 
2.43.0


From fc09e638c8376775b0ccb5c6a59a8d758a062cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 17/51] fix: colors from a bare index or with an alpha emit
 valid ANSI codes

`Color.from_ansi("141")` emitted "141" and `from_ansi("38;5;141;0.5")` the
alpha, neither of which terminals understand.
---
 slate/color.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 14bbc90..6af6868 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -196,6 +196,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         end = parts[-1]
         color_space = "eight_bit"
+        constructor = ";".join(parts)
 
         index = int(end)
 
@@ -217,6 +218,11 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 index -= 92
                 is_background = True
 
+            # Not one of the standard codes, but an 8-bit index by itself
+            if index == int(end):
+                color_space = "eight_bit"
+                constructor = f"{48 if is_background else 38};5;{index}"
+
         if not 0 <= index < 256:
             raise ValueError(
                 "Color ANSI index must be between 0 and 256,"
@@ -228,7 +234,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=is_background,
             alpha=alpha,
             _origin_colorspace=color_space,
-            _constructor=ansi,
+            _constructor=constructor,
         )
 
     @classmethod
-- 
2.43.0


From 232bd7b35d025dbc20c3909a62358b0bfc083168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:57 +0000
Subject: [PATCH 18/51] fix: the last character of a span that does not reset
 keeps its style

get_characters only added the sequences to the last character together with
the reset, so with reset_after=False it was unstyled (for a one-character span,
entirely).
---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 6c76038..4d518fb 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -445,10 +445,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 remaining_sequences = ""
 
         if self.text != "":
-            last = self.text[-1]
+            last = remaining_sequences + self.text[-1]
 
             if sequences != "" and self.reset_after:
-                last = remaining_sequences + last + "\x1b[0m"
+                last += "\x1b[0m"
 
             chars.append(last)
 
-- 
2.43.0


From 13462d96bf4334a2beb5180b1a83a0fedb2ec303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:59 +0000
Subject: [PATCH 19/51] fix: mutated, sliced and split spans keep reset_after

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 4d518fb..b93d315 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -555,8 +555,8 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def mutate(self, **options: Any) -> Span:
         """Creates a new Span object, mutated with the given options."""
 
-        config = self.attrs
-        config.update(**options)  # type: ignore
+        config: dict[str, Any] = {**self.attrs, "reset_after": self.reset_after}
+        config.update(**options)
 
         return self.__class__(**config)
 
-- 
2.43.0


From 875f60e52e7248785de438faffeb03d71c6710d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:00 +0000
Subject: [PATCH 20/51] fix: style-off codes use the names of the span's styles

"no longer concealed" or "no longer struck" in a parsed string raised TypeError,
the span having no such attribute.
---
 slate/span.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index b93d315..455a25a 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -32,13 +32,12 @@ UNSETTERS = {
     "italic": "23",
     "underline": "24",
     "blink": "25",
-    "blink2": "26",
+    "fast_blink": "26",
     "invert": "27",
-    "invisible": "28",
-    "strikethrough": "29",
+    "conceal": "28",
+    "strike": "29",
     "foreground": "39",
     "background": "49",
-    "overline": "54",
 }
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
@@ -206,6 +205,9 @@ def _parse_sequence(
                 if key == "bold":  # no-cov
                     options["dim"] = False
 
+                if key == "blink":
+                    options["fast_blink"] = False
+
             continue
 
         return part
-- 
2.43.0


From a46d5fbef1c91c73dbf94c5215e60314146a151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:02 +0000
Subject: [PATCH 21/51] fix: the opaque style is not mistaken for the start of
 a color

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 455a25a..a5ed114 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -163,7 +163,7 @@ def _parse_sequence(
     for i, part in enumerate(parts):
         if (
             part.isdigit()
-            and int(part) in chain(range(30, 49), range(90, 108))
+            and int(part) in chain(range(30, 49), range(90, 98), range(100, 108))
             and part not in ["39", "49"]
         ):
             in_color = True
-- 
2.43.0


From ce394dea6af86c36b31103d21a56b90d740909f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 22/51] fix: parse plain text, resets and hyperlinks in ANSI
 strings

Text before the first sequence was dropped, a reset raised or (at the end) was
taken for text, as were hyperlinks, and two adjacent sequences raised, so not
even str(span) could be parsed or written to the terminal.
---
 slate/span.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index a5ed114..cb63151 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -42,7 +42,9 @@ UNSETTERS = {
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
-RE_ANSI_STYLES = re.compile(r"\x1b\[(?:(.*?))[mH]([^\x1b]+)(?=\x1b)")
+RE_ANSI_STYLES = re.compile(
+    r"\x1b\[([^\x1b\n]*?)[mH]|\x1b\]8;[^;\x1b]*;([^\x1b]*)\x1b\\"
+)
 
 SVG_CHAR_WIDTH = 0.60167
 SVG_CHAR_HEIGHT = 1.265
@@ -210,6 +212,12 @@ def _parse_sequence(
 
             continue
 
+        if part in ["", "0"]:
+            hyperlink = options.get("hyperlink", "")
+            options.clear()
+            options["hyperlink"] = hyperlink
+            continue
+
         return part
 
     return None
@@ -346,26 +354,28 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def yield_from(cls, line: str) -> Generator[Span, None, None]:
         """Generates Span objects from the given line."""
 
-        # Add trailing ESC char to allow detection by regex
-        if not line.endswith("\x1b"):
-            line += "\x1b"
+        line = line.rstrip("\x1b")
 
         options: dict[str, str | bool | Color | None] = {}
 
         index = 0
         for mtch in RE_ANSI_STYLES.finditer(line):
+            # Text styled by everything before this sequence
+            if index < mtch.start():
+                yield Span(line[index : mtch.start()], **options)  # type: ignore
+
             index = mtch.end()
-            sequence, plain = mtch.groups()
+            sequence, hyperlink = mtch.groups()
+
+            if hyperlink is not None:
+                options["hyperlink"] = hyperlink
+                continue
 
             if (error_part := _parse_sequence(sequence, options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
-            yield Span(plain, **options)  # type: ignore
-
-        line = line.rstrip("\x1b")
-
         if index < len(line):
-            yield Span(line[index:])
+            yield Span(line[index:], **options)  # type: ignore
 
     @classmethod
     def first_from(cls, line: str) -> Span | None:
-- 
2.43.0


From 5dfaf8763726483a25bd5c2feb87c73244b93086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:06 +0000
Subject: [PATCH 23/51] fix: text without a foreground keeps the terminal's
 default one

It was drawn white (white on white on a light terminal). White is now only
assumed where a default foreground has to be blended. As every cell was
colored, its reset also hid that styles of uncolored cells leak.
---
 slate/screen.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 5e39f90..d04905e 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -33,6 +33,20 @@ def _get_blended(
     return base.blend(other, min(other.alpha+alpha_addition, 1.0), is_background=is_background)  # type: ignore
 
 
+def _format_cell(char: str, fore: Color | None, back: Color | None) -> str:
+    """Returns the ANSI string that draws a cell, with its style ending with it."""
+
+    color = ";".join(color.ansi for color in (fore, back) if color is not None)
+
+    if color:
+        return f"\x1b[{color}m{char}\x1b[0m"
+
+    if char.startswith("\x1b") and not char.endswith("\x1b[0m"):
+        return f"{char}\x1b[0m"
+
+    return char
+
+
 class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
@@ -256,7 +270,6 @@ class Screen:
                     alpha_stack = {}
 
                 char, fg, bg, last, bleedthrough = cell
-                fg = fg or Color.white()
                 blent = bg
 
                 last = bg
@@ -269,7 +282,9 @@ class Screen:
 
                     blent = _get_blended(blent, color, alpha_addition=0.1)
                     if bleedthrough:
-                        fg = _get_blended(fg, color, alpha_addition=0.1)
+                        fg = _get_blended(
+                            fg or Color.white(), color, alpha_addition=0.1
+                        )
 
                 if blent and blent.alpha != 1.0:
                     blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
@@ -287,15 +302,7 @@ class Screen:
                 if new != self._cells[y][x]:
                     self._cells[y][x] = new
 
-                    colors = []
-                    if fg is not None:
-                        colors.append(fg.ansi)
-                    if bg is not None:
-                        colors.append(bg.ansi)
-                    color = ";".join(colors)
-
-                    if color:
-                        char = f"\x1b[{color}m{char}\x1b[0m"
+                    char = _format_cell(*new)
 
                     self._change_buffer[x, y] = char + ("\n" if has_newline else "")
 
-- 
2.43.0


From cb660037918a851606df36d263815dfd25c4a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 24/51] fix: a full redraw includes the colors

It wrote only the characters, and let their styles run into the next cells.
---
 slate/screen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index d04905e..37497f5 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -324,7 +324,9 @@ class Screen:
             buffer = ""
 
             for row in self._cells:
-                buffer += f"\x1b[{y};{x}H" + "".join(str(item) for item, *_ in row)
+                buffer += f"\x1b[{y};{x}H" + "".join(
+                    _format_cell(*cell) for cell in row
+                )
                 y += 1
 
             self._change_buffer.clear()
-- 
2.43.0


From d208cde2e0218aca62ec0865b067a6bc7c90d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:09 +0000
Subject: [PATCH 25/51] fix: the draw after a resize shows the kept content

It drew the fill character over it, and changes pending outside a smaller
screen.
---
 slate/screen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 37497f5..f488546 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -111,6 +111,7 @@ class Screen:
         cells: list[list[tuple[str, Color | None, Color | None]]] = []
         cells_append = cells.append
         change_buffer = self._change_buffer.__setitem__
+        self._change_buffer.clear()
 
         for y in range(height):
             row: list[tuple[str, Color | None, Color | None]] = []
@@ -131,6 +132,7 @@ class Screen:
                         break
 
                     cells[y][x] = char, fore, back
+                    change_buffer((x, y), _format_cell(char, fore, back))
 
         self.width = width
         self.height = height
-- 
2.43.0


From c7919ed7ac4942f6a65e64eecec9b5cdf72ff196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:10 +0000
Subject: [PATCH 26/51] fix: implement force_overwrite

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index f488546..5af76f5 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -301,7 +301,7 @@ class Screen:
 
                 new = (char, fg, bg)
 
-                if new != self._cells[y][x]:
+                if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
                     char = _format_cell(*new)
-- 
2.43.0


From ad0f97b0444b49cc2070787aa9f0b8e174bb65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 27/51] fix: an opaque write hides the translucent ones below
 it

Within a bulk write they were blended on top of it.
---
 slate/screen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 5af76f5..401fbe4 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -255,6 +255,9 @@ class Screen:
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
 
+                    else:
+                        alpha_matrix[y][x].clear()
+
                     write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
 
                     x, y = next_x, next_y
-- 
2.43.0


From 4805962625df760e69ce5e9dce2a89f310fc41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:14 +0000
Subject: [PATCH 28/51] fix: blend translucent text onto its background

The operands were swapped, which turned the text's color into the background's.
A translucent background also stayed one on the default terminal background.
---
 slate/screen.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 401fbe4..1c43626 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -292,12 +292,17 @@ class Screen:
                         )
 
                 if blent and blent.alpha != 1.0:
-                    blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
+                    blent = _get_blended(
+                        terminal_background,
+                        blent,
+                        is_background=True,
+                        alpha_addition=0.1,
+                    )
 
                 bg = blent
 
                 if fg is not None and fg.alpha != 1.0:
-                    fg = _get_blended(fg, bg)
+                    fg = _get_blended(bg, fg, is_background=False)
 
                 has_newline = char.endswith("\n")
                 char = char.rstrip("\n")
-- 
2.43.0


From b95cb75b3b46dcfbf3166c52d516497fc0a053e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:15 +0000
Subject: [PATCH 29/51] fix: newlines in styled text move to the next row as
 well

They were drawn into a cell, so a raw newline reached the terminal.
---
 slate/screen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 1c43626..781cc51 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -227,11 +227,11 @@ class Screen:
 
                 y -= self._scrollback_offset
 
-                for i, char in enumerate(chars):
+                for i, (char, plain) in enumerate(zip(chars, span.text)):
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
-                    if char == "\n":
+                    if plain == "\n":
                         y += 1
                         continue
 
-- 
2.43.0


From d9c36e98e0c26fe372d1e01acc00c86055f6a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:43 +0000
Subject: [PATCH 30/51] fix: track the cursor and use it for writes without a
 position

Writing without a cursor, the default, raised TypeError.
---
 slate/screen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 781cc51..73e2156 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -206,7 +206,8 @@ class Screen:
 
             alpha_matrix.append(line)
 
-        for ((x, y), line) in data:
+        for (cursor, line) in data:
+            x, y = self.cursor if cursor is None else cursor
             line = list(line)
             last = len(line) - 1
 
@@ -262,6 +263,8 @@ class Screen:
 
                     x, y = next_x, next_y
 
+            self.cursor = (x, y + self._scrollback_offset)
+
         changes = 0
 
         for y, line in enumerate(write_matrix):
-- 
2.43.0


From 29e2798d3da00292555e7ac4aaf330ed7082b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 31/51] fix: scroll the display and the cells alike

Writing below the last row moved the cells by one row however many were
needed, while the terminal scrolled only after the text had been drawn over
the old last row, so the two disagreed from then on. The offset was applied
again for every span of a write and survived clear(), after which writes at
the top were lost, and the newline it used was added to the span's memoised
characters, so that the same span brought it along wherever it was written
next.
---
 slate/screen.py | 60 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 73e2156..1ce01d7 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -94,6 +94,7 @@ class Screen:
 
         self.cursor: tuple[int, int] = cursor
         self._scrollback_offset = 0
+        self._pending_scroll = 0
 
         self.resize((width, height), fillchar)
 
@@ -148,6 +149,22 @@ class Screen:
 
         self.resize((self.width, self.height), fillchar, keep_original=False)
         self.cursor = (0, 0)
+        self._scrollback_offset = 0
+
+    def _scroll(self, count: int) -> None:
+        """Moves all cells up by `count` rows, adding blank ones at the bottom."""
+
+        self._scrollback_offset += count
+        count = min(count, self.height)
+
+        blanks = [[(" ", None, None)] * self.width for _ in range(count)]
+
+        self._pending_scroll += count
+        self._cells = self._cells[count:] + blanks
+
+        for y, row in enumerate(self._cells):
+            for x, cell in enumerate(row):
+                self._change_buffer[x, y] = _format_cell(*cell)
 
     def write(
         self,
@@ -209,9 +226,21 @@ class Screen:
         for (cursor, line) in data:
             x, y = self.cursor if cursor is None else cursor
             line = list(line)
-            last = len(line) - 1
 
-            for i, span in enumerate(line):
+            # Make the row we start on the last one, if it is below that
+            overflow = y - self._scrollback_offset - self.height + 1
+
+            if overflow > 0 and line and 0 <= x < self.width:
+                self._scroll(overflow)
+
+                for _ in range(min(overflow, self.height)):
+                    del write_matrix[0], alpha_matrix[0]
+                    write_matrix.append([blank] * self.width)
+                    alpha_matrix.append([[] for _ in range(self.width)])
+
+            y -= self._scrollback_offset
+
+            for span in line:
                 foreground, background = span.foreground, span.background
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
@@ -219,15 +248,6 @@ class Screen:
                 chars = span.get_characters(exclude_color=True, always_include_sequence=True)
                 chars_len = len(chars)
 
-                if i == last and y - self._scrollback_offset > self.height - 1:
-                    self._scrollback_offset = y - self.height + 1
-                    chars[-1] = chars[-1] + "\n" 
-
-                    self._cells.pop(0)
-                    self._cells.append([("", None, None)] * self.width)
-
-                y -= self._scrollback_offset
-
                 for i, (char, plain) in enumerate(zip(chars, span.text)):
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
@@ -307,17 +327,12 @@ class Screen:
                 if fg is not None and fg.alpha != 1.0:
                     fg = _get_blended(bg, fg, is_background=False)
 
-                has_newline = char.endswith("\n")
-                char = char.rstrip("\n")
-
                 new = (char, fg, bg)
 
                 if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
-                    char = _format_cell(*new)
-
-                    self._change_buffer[x, y] = char + ("\n" if has_newline else "")
+                    self._change_buffer[x, y] = _format_cell(*new)
 
                     changes += 1
 
@@ -333,9 +348,14 @@ class Screen:
 
         x, y = origin
 
-        if redraw:
-            buffer = ""
+        # Let the terminal scroll too, so that the rows enter its scrollback
+        buffer = ""
+
+        if self._pending_scroll:
+            buffer += f"\x1b[{y + self.height - 1};{x}H" + "\n" * self._pending_scroll
+            self._pending_scroll = 0
 
+        if redraw:
             for row in self._cells:
                 buffer += f"\x1b[{y};{x}H" + "".join(
                     _format_cell(*cell) for cell in row
@@ -346,8 +366,6 @@ class Screen:
 
             return buffer
 
-        buffer = ""
-
         previous_x = None
         previous_y = None
 
-- 
2.43.0


From 98248a1d81f2606ac7ba6a9602c728bb10ec4c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:31 +0000
Subject: [PATCH 32/51] fix: Event.append refuses non-callables, as += does

---
 slate/event.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/event.py b/slate/event.py
index fd7ad49..bf15342 100644
--- a/slate/event.py
+++ b/slate/event.py
@@ -32,9 +32,6 @@ class Event(Generic[T]):
         return len(self._listeners) > 0
 
     def __iadd__(self, callback: Callable[[T], bool]) -> Event[T]:
-        if not callable(callback):
-            raise ValueError(f"Invalid type for callback: {callback}")
-
         self.append(callback)
 
         return self
@@ -59,6 +56,9 @@ class Event(Generic[T]):
     def append(self, callback: Callable[[T], bool]) -> Callable[[T], bool]:
         """Adds a new listener."""
 
+        if not callable(callback):
+            raise ValueError(f"Invalid type for callback: {callback}")
+
         self._listeners.append(callback)
         return callback
 
-- 
2.43.0


From 71ac2482382ea498c1136d3577ea2620535b22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:31 +0000
Subject: [PATCH 33/51] fix: a listener returning something other than a bool
 no longer stops an event

---
 slate/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/event.py b/slate/event.py
index bf15342..8051668 100644
--- a/slate/event.py
+++ b/slate/event.py
@@ -49,7 +49,7 @@ class Event(Generic[T]):
         output = False
 
         for callback in self._listeners:
-            output |= callback(data) or False
+            output |= bool(callback(data))
 
         return output
 
-- 
2.43.0


From d8c7d5c0605fcefa03bae9c701674fa090455acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:45 +0000
Subject: [PATCH 34/51] fix: get_characters gives every caller a list of its
 own

---
 slate/span.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index cb63151..7c3e51f 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -431,7 +431,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
         if group is not None:
             yield group
 
-    @lru_cache
     def get_characters(
         self, exclude_color: bool = False, always_include_sequence: bool = False
     ) -> list[str]:
@@ -445,6 +444,15 @@ class Span:  # pylint: disable=too-many-instance-attributes
             A list of strings with the format `{sequences}{plain_character}`.
         """
 
+        # The cached value is shared, so callers get a list of their own
+        return [*self._get_characters(exclude_color, always_include_sequence)]
+
+    @lru_cache
+    def _get_characters(
+        self, exclude_color: bool, always_include_sequence: bool
+    ) -> tuple[str, ...]:
+        """Implements `get_characters`."""
+
         sequences = self._colorless_sequences if exclude_color else self._sequences
         remaining_sequences = sequences
 
@@ -464,7 +472,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
             chars.append(last)
 
-        return chars
+        return tuple(chars)
 
     def get_svg_styles(self) -> dict[str, str]:
         """Returns this span's styling converted to SVG-compatible CSS."""
-- 
2.43.0


From 2c37830cbdf6093ae2f082272478447ec4682799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 35/51] fix: a timeout's alarm is not lost when it arrives
 right before a blocking call

---
 slate/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 85f14cb..474fd38 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -366,6 +366,9 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
         """Raised when an action has timed out."""
 
     def _raise_timeout(sig: int, frame: Any) -> None:
+        # Don't let another alarm interrupt the clean-up
+        signal.setitimer(signal.ITIMER_REAL, 0)
+
         raise TimeoutException("The action has timed out.")
 
     previous_handler = signal.getsignal(signal.SIGALRM)
@@ -373,7 +376,10 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     try:
         # set the timeout handler
         signal.signal(signal.SIGALRM, _raise_timeout)
-        signal.setitimer(signal.ITIMER_REAL, duration)
+
+        # An alarm that arrives right before a blocking call starts doesn't interrupt
+        # it, so it has to be repeated until it is noticed
+        signal.setitimer(signal.ITIMER_REAL, duration, 0.01)
         yield
 
     except TimeoutException:
-- 
2.43.0


From 37613a102b3639a1e0159c9a84915a8eb634c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:21 +0000
Subject: [PATCH 36/51] fix: a timeout's alarm doesn't escape while its block
 starts or ends

---
 slate/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slate/core.py b/slate/core.py
index 474fd38..56f15ed 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -366,6 +366,13 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
         """Raised when an action has timed out."""
 
     def _raise_timeout(sig: int, frame: Any) -> None:
+        # Only interrupt the block, not us starting or ending it. Alarms are repeated.
+        if (
+            frame.f_code is timeout.__wrapped__.__code__  # type: ignore
+            or frame.f_globals.get("__name__") == "contextlib"
+        ):
+            return
+
         # Don't let another alarm interrupt the clean-up
         signal.setitimer(signal.ITIMER_REAL, 0)
 
-- 
2.43.0


From 5c916bfdb82e58942a52c1c4b55a2111a9c22150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:21 +0000
Subject: [PATCH 37/51] fix: restore the line settings of a key read
 interrupted while it starts

---
 slate/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 56f15ed..e9f5ba6 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -456,12 +456,12 @@ def _getch_posix(  # pylint: disable=used-before-assignment
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
 
-    # The default, TCSAFLUSH, would discard everything typed since the last call
-    tty.setcbreak(descriptor, termios.TCSADRAIN)
-
     buff = ""
 
     try:
+        # The default, TCSAFLUSH, would discard everything typed since the last call
+        tty.setcbreak(descriptor, termios.TCSADRAIN)
+
         buff += _read(1)
 
         while _is_ready(stream):
-- 
2.43.0


From 89dff30ca683635c97cc9be1619d0e446fcae33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:04 +0000
Subject: [PATCH 38/51] fix: a timeout's alarm doesn't escape while another one
 is handled or the handler is restored

---
 slate/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index e9f5ba6..280b430 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -366,13 +366,20 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
         """Raised when an action has timed out."""
 
     def _raise_timeout(sig: int, frame: Any) -> None:
+        # An alarm may come while the previous one is still handled
+        while frame.f_code is _raise_timeout.__code__:
+            frame = frame.f_back
+
         # Only interrupt the block, not us starting or ending it. Alarms are repeated.
-        if (
-            frame.f_code is timeout.__wrapped__.__code__  # type: ignore
-            or frame.f_globals.get("__name__") == "contextlib"
-        ):
+        if frame.f_globals.get("__name__") == "contextlib":
             return
 
+        while frame is not None:
+            if frame.f_code is timeout.__wrapped__.__code__:  # type: ignore
+                return
+
+            frame = frame.f_back
+
         # Don't let another alarm interrupt the clean-up
         signal.setitimer(signal.ITIMER_REAL, 0)
 
-- 
2.43.0


From 289a8d886866810d95a85bad733ab8ec18fdd5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:09 +0000
Subject: [PATCH 39/51] fix: a timeout whose exception is swallowed by a
 destructor is not lost

---
 slate/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 280b430..1e97293 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -380,8 +380,17 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
 
             frame = frame.f_back
 
-        # Don't let another alarm interrupt the clean-up
-        signal.setitimer(signal.ITIMER_REAL, 0)
+        # Don't interrupt the clean-up after an earlier alarm
+        error = sys.exc_info()[1]
+
+        while error is not None:
+            if isinstance(error, TimeoutException):
+                return
+
+            error = error.__context__
+
+        # Come back in case the exception gets swallowed, as in destructors
+        signal.setitimer(signal.ITIMER_REAL, 0.5, 0.5)
 
         raise TimeoutException("The action has timed out.")
 
-- 
2.43.0


From c64382e8ccc6cdc6f24e1c1b8a9f4e2274837394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:22 +0000
Subject: [PATCH 40/51] fix: end key reads that are already waiting when
 something is fed

feed() says that it can interrupt an ongoing getch call, but the text was only
looked at before waiting for the terminal.
---
 slate/core.py | 58 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 1e97293..09ff494 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -14,7 +14,7 @@ import signal
 import sys
 import threading
 from codecs import getincrementaldecoder
-from contextlib import contextmanager
+from contextlib import contextmanager, suppress
 from dataclasses import dataclass
 from enum import Enum
 from select import select
@@ -169,6 +169,24 @@ feeder_stream = StringIO()
 feeder_lock = threading.RLock()
 
 
+def _open_feeder_wakeup() -> None:  # no-cov
+    """Opens the pipe that wakes up already waiting reads when something is fed."""
+
+    global feeder_wakeup  # pylint: disable=global-statement
+
+    feeder_wakeup = os.pipe()
+
+    for descriptor in feeder_wakeup:
+        os.set_blocking(descriptor, False)
+
+
+if os.name != "nt":
+    _open_feeder_wakeup()
+
+    # Don't wake up our parent's reads, and the other way around
+    os.register_at_fork(after_in_child=_open_feeder_wakeup)
+
+
 def width(text: str | Span) -> int:
     """Returns the visual width of some text.
 
@@ -424,6 +442,27 @@ def feed(text: str) -> None:
     with feeder_lock:
         feeder_stream.write(text)
 
+        if os.name != "nt":
+            # If it is full, waiting reads are about to wake up anyway
+            with suppress(BlockingIOError):
+                os.write(feeder_wakeup[1], b"\0")
+
+
+def _take_fed() -> str:  # no-cov
+    """Returns everything fed since the last time, which nothing else will get."""
+
+    with feeder_lock:
+        with suppress(BlockingIOError):
+            os.read(feeder_wakeup[0], 65536)
+
+        fed_content = feeder_stream.getvalue()
+
+        if fed_content:
+            feeder_stream.truncate(0)
+            feeder_stream.seek(0)
+
+        return fed_content
+
 
 def _getch_posix(  # pylint: disable=used-before-assignment
     stream: TextIO = sys.stdin,
@@ -462,12 +501,8 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
         return buff
 
-    with feeder_lock:
-        if fed_content := feeder_stream.getvalue():
-            feeder_stream.truncate(0)
-            feeder_stream.seek(0)
-
-            return fed_content
+    if fed_content := _take_fed():
+        return fed_content
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
@@ -478,6 +513,15 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         # The default, TCSAFLUSH, would discard everything typed since the last call
         tty.setcbreak(descriptor, termios.TCSADRAIN)
 
+        ready: list[Any] = []
+
+        # Something may also be fed while we wait
+        while stream not in ready:
+            ready = select([stream, feeder_wakeup[0]], [], [])[0]
+
+            if feeder_wakeup[0] in ready and (fed_content := _take_fed()):
+                return fed_content
+
         buff += _read(1)
 
         while _is_ready(stream):
-- 
2.43.0


From edb5ad6541672d890638665d6c36d81c19c22f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 41/51] fix: don't lose keys read when getch_timeout's time is
 up

An alarm between taking a key off the terminal and returning it dropped the key.
Waiting for input with a timeout needs no alarm, so works in any thread as well.
---
 slate/core.py | 52 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 09ff494..057a487 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -18,6 +18,7 @@ from contextlib import contextmanager, suppress
 from dataclasses import dataclass
 from enum import Enum
 from select import select
+from time import monotonic
 from typing import IO, Any, AnyStr, Generator, Literal, TextIO, Iterator
 from io import StringIO
 
@@ -356,18 +357,19 @@ def parse_mouse_event(code: str) -> str | None:
     return f"mouse:{event_name}@{posx};{posy}"
 
 
-def _is_ready(file: IO[AnyStr]) -> bool:  # no-cov
+def _is_ready(file: IO[AnyStr], timeout: float | None = 0.0) -> bool:  # no-cov
     """Determines if IO object is reading to read.
 
     Args:
         file: An IO object of any type.
+        timeout: How long to wait for the object, or None to wait until it is ready.
 
     Returns:
         A boolean describing whether the object has unread
         content.
     """
 
-    result = select([file], [], [], 0.0)
+    result = select([file], [], [], timeout)
     return len(result[0]) > 0
 
 
@@ -466,16 +468,26 @@ def _take_fed() -> str:  # no-cov
 
 def _getch_posix(  # pylint: disable=used-before-assignment
     stream: TextIO = sys.stdin,
-) -> str:  # no-cov
+    duration: float | None = None,
+) -> str | None:  # no-cov
     """Implementation for getting characters on POSIX systems.
 
     Args:
         stream: The stream to read from. Defaults to `sys.stdin`.
+        duration: How long to wait for input, in seconds. Forever by default.
 
     Returns:
-        The maximum-length sequence of characters that could be read.
+        The maximum-length sequence of characters that could be read, or None if there
+        were none within the duration.
     """
 
+    deadline = None if duration is None else monotonic() + duration
+
+    def _remaining() -> float | None:
+        """Returns how long we may still wait."""
+
+        return None if deadline is None else max(deadline - monotonic(), 0.0)
+
     # TODO: Both of these should be proper module-level functions to aviod
     #       constant redefiniton.
     if stream.encoding is not None:
@@ -491,7 +503,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
         buff = ""
 
-        while len(buff) < count:
+        while len(buff) < count and _is_ready(stream, _remaining()):
             char = os.read(stream.fileno(), 1)
 
             try:
@@ -517,7 +529,10 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
         # Something may also be fed while we wait
         while stream not in ready:
-            ready = select([stream, feeder_wakeup[0]], [], [])[0]
+            ready = select([stream, feeder_wakeup[0]], [], [], _remaining())[0]
+
+            if not ready:
+                return None
 
             if feeder_wakeup[0] in ready and (fed_content := _take_fed()):
                 return fed_content
@@ -531,7 +546,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         # reset terminal state, set echo on
         termios.tcsetattr(descriptor, termios.TCSADRAIN, old_settings)
 
-    return buff
+    return buff or None
 
 
 def _getch_nt() -> str:  # no-cov
@@ -586,6 +601,14 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
         The longest sequence of characters that could be read from the stream.
     """
 
+    return _getch(stream, raw, None)  # type: ignore
+
+
+def _getch(
+    stream: TextIO, raw: bool, duration: float | None
+) -> Key | None:  # no-cov
+    """Implements `getch` and `getch_timeout`, the latter of which has a duration."""
+
     if not stream.isatty():
         return Key(("",))
 
@@ -600,11 +623,14 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
     # POSIX interrupts on ctrl-c, so we 'emulate' the input when `KeyboardInterrupt`
     # is raised.
     try:
-        key = _getch_posix(stream)
+        key = _getch_posix(stream, duration)
 
     except KeyboardInterrupt:
         key = chr(3)
 
+    if key is None:
+        return None
+
     if raw:
         return Key((key,))
 
@@ -622,8 +648,7 @@ def getch_timeout(
 ) -> Key:  # no-cov
     """Calls `getch` with a system timeout.
 
-    Note that this on Windows this will call `getch` normally, as `SIGALRM` is not
-    supported on those systems.
+    Note that this on Windows this will call `getch` normally.
 
     Args:
         duration: The timeout's length, in seconds.
@@ -639,14 +664,13 @@ def getch_timeout(
         otherwise `default`.
     """
 
-    # TODO: Potentially look into a Thread-based solution here.
     if os.name == "nt":
         return getch(stream=stream, raw=raw)
 
-    with timeout(duration):
-        return getch(stream=stream, raw=raw)
+    # An alarm could come when a key was just read, and lose it
+    key = _getch(stream, raw, duration)
 
-    return default
+    return default if key is None else key
 
 
 def set_echo(value: bool = True) -> None:  # no-cov
-- 
2.43.0


From cd568b6e6e74e4839106a023a76742672c8a8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 42/51] fix: don't wait forever for terminals that don't reply
 with their colors

---
 slate/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 057a487..ca0677a 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -272,8 +272,9 @@ def get_default_color(
     if os.name != "nt":
         termios.tcflush(sys.stdin.fileno(), termios.TCIFLUSH)
 
+    # Not all terminals reply
     def _read():
-        resp[0] = getch()
+        resp[0] = getch_timeout(1.0, default="")
 
     t = threading.Thread(target=_read)
     t.start()
-- 
2.43.0


From 1e9ddd65cd552d3e43cb2b650ec24d6a0c0528d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:19 +0000
Subject: [PATCH 43/51] fix: as_background ignores an alpha given with an
 unchanged layer, and an alpha of 0

---
 slate/color.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 6af6868..5775233 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -392,10 +392,13 @@ class Color:  # pylint: disable = too-many-instance-attributes
     def as_background(self, setting: bool = True, alpha: int | None = None) -> Color:
         """Returns this color, with the given background setting."""
 
-        if self.is_background == setting:
+        if alpha is None:
+            alpha = self.alpha
+
+        if self.is_background == setting and self.alpha == alpha:
             return self
 
-        return Color(self.rgb, is_background=setting, alpha=alpha or self.alpha)
+        return Color(self.rgb, is_background=setting, alpha=alpha)
 
     def hue_shift(self, amount: float) -> Color:
         """Returns a color with a hue offset of the given amount.
-- 
2.43.0


From 92bda97f9fc86f6ef5f55cd244c2b08e6eebb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:35 +0000
Subject: [PATCH 44/51] fix: equal colors hash differently, so that sets and
 dictionaries keep both

---
 slate/color.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 5775233..aa4737f 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -167,6 +167,10 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         return self.rgb == other.rgb and self.alpha == other.alpha
 
+    def __hash__(self) -> int:
+        # Equal colors have to hash alike, whatever they were made from
+        return hash((self.rgb, self.alpha))
+
     @classmethod
     def from_ansi(cls, ansi: str, alpha: float = 1.0) -> Color:
         """Creates a color instance from an ANSI sequence's body."""
@@ -418,7 +422,6 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=self.is_background,
         )
 
-    @lru_cache
     def blend(
         self, other: Color, alpha: float, is_background: bool | None = None
     ) -> Color:
@@ -436,6 +439,12 @@ class Color:  # pylint: disable = too-many-instance-attributes
         if is_background is None:
             is_background = self.is_background
 
+        return self._blend(other, alpha, is_background)
+
+    @lru_cache
+    def _blend(self, other: Color, alpha: float, is_background: bool) -> Color:
+        """Implements `blend`. Colors of both layers are equal, so it doesn't use ours."""
+
         red1, green1, blue1 = self.rgb
         red2, green2, blue2 = other.rgb
 
-- 
2.43.0


From 7079983c51e15f0af1079478f9e80f17bb67e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:43 +0000
Subject: [PATCH 45/51] fix: width counts or skips text around sequences other
 than styles and positions

---
 slate/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index ca0677a..5cd153a 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -162,7 +162,9 @@ RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
 )
 
-RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\x1b\\)")
+RE_ANSI = re.compile(
+    r"(?:\x1b\[[0-?]*[ -/]*[@-~])|(?:\x1b\](.*?)(?:\x1b\\|\a))|(?:\x1b_G(.*?)\x1b\\)"
+)
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
 
-- 
2.43.0


From 8ff8397d384c9a0108c12a034178a00912cc4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:44 +0000
Subject: [PATCH 46/51] fix: hyperlinks ended by BEL are not parsed

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 7c3e51f..10df855 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -43,7 +43,7 @@ UNSETTERS = {
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
 RE_ANSI_STYLES = re.compile(
-    r"\x1b\[([^\x1b\n]*?)[mH]|\x1b\]8;[^;\x1b]*;([^\x1b]*)\x1b\\"
+    r"\x1b\[([^\x1b\n]*?)[mH]|\x1b\]8;[^;\x1b\a]*;([^\x1b\a]*)(?:\x1b\\|\a)"
 )
 
 SVG_CHAR_WIDTH = 0.60167
-- 
2.43.0


From a6853890378ba891f48ffc76b583cfee35e5381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:46 +0000
Subject: [PATCH 47/51] fix: cursor positions are parsed as styles

---
 slate/span.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/span.py b/slate/span.py
index 10df855..5e4c9e0 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -371,6 +371,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 options["hyperlink"] = hyperlink
                 continue
 
+            # Positions don't style anything
+            if mtch[0].endswith("H"):
+                continue
+
             if (error_part := _parse_sequence(sequence, options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
-- 
2.43.0


From a5d6ed675288e9acd772059bcfc37b3e79acbc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 48/51] fix: comparing a color space with other text raises,
 and color spaces cannot be hashed

---
 slate/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 5cd153a..3b5b854 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -240,10 +240,13 @@ class ColorSpace(Enum):
             return NotImplemented
 
         if isinstance(other, str):
-            other = ColorSpace(other)
+            return self.value == other
 
         return self.value == other.value
 
+    def __hash__(self) -> int:
+        return hash(self.value)
+
     def __ge__(self, other: str | ColorSpace) -> bool:
         if isinstance(other, str):
             other = ColorSpace(other)
-- 
2.43.0


From f16ae7dfc128d553056ffb4d034a93f814696b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:01 +0000
Subject: [PATCH 49/51] fix: a no-echo block turns echo on even if it was off
 before

---
 slate/core.py     | 9 +++++++++
 slate/terminal.py | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 3b5b854..f54d1b8 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -679,6 +679,15 @@ def getch_timeout(
     return default if key is None else key
 
 
+def get_echo() -> bool:  # no-cov
+    """Returns whether the terminal's ECHO flag is set."""
+
+    if not sys.stdin.isatty() or os.name == "nt":
+        return True
+
+    return bool(termios.tcgetattr(sys.stdin.fileno())[3] & termios.ECHO)
+
+
 def set_echo(value: bool = True) -> None:  # no-cov
     """Sets the terminal's ECHO flag to the given value.
 
diff --git a/slate/terminal.py b/slate/terminal.py
index 244589e..207be28 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -24,6 +24,7 @@ from .core import (
     ColorSpace,
     get_color_space,
     get_default_color,
+    get_echo,
     getch_timeout,
     set_echo,
 )
@@ -243,12 +244,14 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
     def no_echo(self) -> Generator[None, None, None]:  # no-cov
         """Temporarily disables echoing in the terminal."""
 
+        echo = get_echo()
+
         try:
             set_echo(False)
             yield
 
         finally:
-            set_echo(True)
+            set_echo(echo)
 
     @contextmanager
     def report_mouse(self) -> Generator[None, None, None]:  # no-cov
-- 
2.43.0


From 2b58380fb21bce6c0bb6e43e9a5d5d5a5a478753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:45 +0000
Subject: [PATCH 50/51] fix: the default colors are asked for on streams that
 aren't terminals

---
 slate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index f54d1b8..4fa9a4e 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -268,7 +268,7 @@ def get_default_color(
         a leading hash.
     """
 
-    if not sys.stdin.isatty():
+    if not sys.stdin.isatty() or not stream.isatty():
         return DEFAULT_COLOR_DEFAULTS[layer]
  
     resp = [""]
-- 
2.43.0


From 632d0ea21ae3f56eb08439d586ba8c7ab2cf2628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:45 +0000
Subject: [PATCH 51/51] fix: resolution and synchronized update are asked for
 where no reply can be read

---
 slate/terminal.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 207be28..8473c46 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -118,6 +118,9 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         https://gist.github.com/christianparpart/d8a62cc1ab659194337d73e399004036
         """
 
+        if not self._can_query:
+            return False
+
         self.write_control(QUERY_SYNCHRONIZED_UPDATE)
 
         if not (response := str(getch_timeout(0.05))):
@@ -175,6 +178,12 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         except ValueError:
             return False
 
+    @property
+    def _can_query(self) -> bool:  # no-cov
+        """Returns whether a terminal gets what we write, and we what it replies."""
+
+        return self.isatty and sys.stdin.isatty()
+
     @property
     def resolution(self) -> tuple[int, int]:  # no-cov
         """Gets the pixel resolution of the terminal.
@@ -187,7 +196,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
             A tuple of (width, height) of the terminal 'screen', in pixels.
         """
 
-        if not self.isatty:
+        if not self._can_query:
             return self.resolution_fallback
 
         self.write_control("\x1b[14t")
-- 
2.43.0

