"""C28: nothing accumulates over long use; memory, descriptors, threads, children and timers measured."""

import atexit
import gc
import io
import os
import random
import signal
import sys
import threading
import time
import tracemalloc
import warnings

import gen
from checks.c26 import Stream
from common import Check, Violation
from ptylab import Pty

REPLIES = {"osc10": "\x1b]10;rgb:0101/0202/0303\x1b\\", "osc11": "\x1b]11;rgb:0404/0505/0606\x1b\\",
           "pixels": "\x1b[4;600;800t", "mode2026": "\x1b[?2026;2$y"}

WINDOWS = 4
PER_OP = 3.0  # bytes an operation may appear to keep (measurement noise is far below)


class Null(io.TextIOBase):
    """A stream that keeps nothing."""

    def write(self, data):
        return len(data)

    def isatty(self):
        return False


def children():
    out = []
    for tid in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{tid}/children") as f:
                out += f.read().split()
        except OSError:
            pass
    return out


def resources():
    return {"descriptors": len(os.listdir("/proc/self/fd")), "threads": threading.active_count(),
            "children": len(children()), "timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
            "handlers": {s: signal.getsignal(s) for s in signal.valid_signals()},
            "blocked signals": signal.pthread_sigmask(signal.SIG_BLOCK, ()),
            "exit callbacks": atexit._ncallbacks(),
            "recursion limit": sys.getrecursionlimit(), "warning filters": len(warnings.filters)}



class C28(Check):
    id = "C28"
    quick, thorough = 120, 2400
    required = ("operations", "windows measured", "resource counts", "screens", "terminals", "colours",
                "spans", "keys", "events", "undrawn histories", "queries")
    rule = ("one to three kinds of operation repeated a few thousand times with ever-new values, in four"
            " windows; traced memory after garbage collection may not keep growing from window to"
            " window, and descriptors, threads, children, timers and handlers are counted; non-trivial:"
            " all")
    assumptions = ["a bounded cache fills within the first two windows (up to a few thousand entries)"]

    def setup(self):
        import slate
        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR
        self.pty = Pty()
        self.null = os.open("/dev/null", os.O_RDONLY)
        self.stdin = os.fdopen(0, "r", closefd=False)

    KINDS = {
        "screen": ["write", "bulk", "layers", "render", "redraw", "clear", "resize", "svg"],
        "terminal": ["twrite", "tbulk", "draw", "tsize", "title", "alt", "mouse", "batch", "tsvg",
                     "space", "newterm", "width"],
        "color": ["make", "code", "blend", "groups", "contrast", "alpha"],
        "span": ["parse", "chars", "slice", "split", "style", "group"],
        "event": ["emit", "listen", "newevent"],
        "key": ["feed", "type", "timeout", "block", "mouse report", "query",
                "silent query", "no echo"],
    }

    def enumerated(self, tier):
        out = []
        for area, kinds in self.KINDS.items():
            for k in kinds:
                out.append({"area": area, "kinds": [k], "seed": 1, "drawn": True,
                            "n": 60 if "svg" in k else 30 if "query" in k else
                            120 if area == "key" else 300})
        return out

    def generate(self, rng, tier, index):
        area = rng.choice(list(self.KINDS))
        kinds = rng.sample(self.KINDS[area], min(len(self.KINDS[area]), rng.randint(1, 4)))
        n = {"key": 120, "terminal": 250}.get(area, 400)
        if {"svg", "tsvg"} & set(kinds):
            n = 60
        if {"query", "silent query"} & set(kinds):
            n = 30
        return {"area": area, "kinds": kinds, "seed": rng.randrange(1 << 30),
                "drawn": rng.random() < 0.7, "n": n * (1 if tier == "quick" else rng.choice([1, 4, 10]))}

    def shrinkable(self, case):
        return False

    def execute(self, case, obs):
        rng = random.Random(case["seed"])
        self.obs = obs
        env = dict(os.environ)
        op = getattr(self, case["area"])(case, rng)
        before = resources()
        gc.collect()
        tracemalloc.start(1)
        try:
            marks = []
            for k in range(WINDOWS):
                # bounded caches fill in the first windows
                for i in range(case["n"] * (3 if k < 2 else 1)):
                    op(i)
                gc.collect()
                marks.append(tracemalloc.get_traced_memory()[0])
                obs.n("windows measured")
            obs.n("operations", 8 * case["n"])
            growth = [b - a for a, b in zip(marks, marks[1:])]
            limit = PER_OP * case["n"]
            obs.state("growths", tuple(growth))
            if min(growth[1:]) > limit:
                # on and on, until even a large bounded cache is full
                more = []
                end = time.monotonic() + 90
                while len(more) < 4 or (len(more) * case["n"] < 24000 and more[-1] > limit
                                        and time.monotonic() < end):
                    for i in range(case["n"]):
                        op(i)
                    gc.collect()
                    marks.append(tracemalloc.get_traced_memory()[0])
                    more.append(marks[-1] - marks[-2])
                if min(more) > limit:
                    raise Violation(
                        f"memory keeps growing: {case['kinds']} of {case['area']} keep about"
                        f" {sum(more) / len(more) / case['n']:.0f} bytes per operation: {marks}")
        finally:
            tracemalloc.stop()
            os.environ.clear()
            os.environ.update(env)
        self.done()
        after = resources()
        obs.n("resource counts")
        if after != before:
            diff = {k: (before[k], after[k]) for k in before if after[k] != before[k]}
            raise Violation(f"{case['kinds']} of {case['area']} leave (before, after): {diff}")

    def done(self):
        pass

    # -- workloads -----------------------------------------------------------------------
    @staticmethod
    def fresh(rng, alpha=0.0):
        """A span with values of its own."""

        from slate import Color, Span

        def col(bg):
            a = 1.0 if rng.random() >= alpha else rng.random()
            return Color((rng.randrange(256), rng.randrange(256), rng.randrange(256)),
                         is_background=bg, alpha=a)

        text = "".join(rng.choice("abcdefghij klmno") for _ in range(rng.randint(1, 6)))
        return Span(text, foreground=col(False) if rng.random() < 0.7 else None,
                    background=col(True) if rng.random() < 0.7 else None,
                    bold=rng.random() < 0.3, underline=rng.random() < 0.3)

    def screen(self, case, rng):
        from slate import Color, Screen

        screen = Screen(8, 3)
        kinds, fresh = case["kinds"], self.fresh
        self.obs.n("screens")
        self.obs.n("undrawn histories", not case["drawn"])

        def op(i):
            k = kinds[i % len(kinds)]
            if k in ("write", "render", "redraw"):
                screen.write([fresh(rng)], cursor=(rng.randrange(8), rng.randrange(3)))
            elif k in ("bulk", "layers"):
                screen.write_bulk([((rng.randrange(8), rng.randrange(3)),
                                    [fresh(rng, 0.7 if k == "layers" else 0.0)]) for _ in range(4)])
            elif k == "clear":
                screen.clear(rng.choice(" .#"))
            elif k == "resize":
                screen.resize((rng.randint(4, 9), rng.randint(2, 4)))
                screen.resize((8, 3), keep_original=rng.random() < 0.5)
            elif k == "svg":
                screen.write([fresh(rng)], cursor=(0, 0))
                screen.export_svg_with_styles(15, (0, 0), Color.white(), Color.black())
            if case["drawn"] or k in ("render", "redraw"):
                screen.render(origin=(1, 1), redraw=k == "redraw")
        return op

    def terminal(self, case, rng):
        from slate import ColorSpace, Span, Terminal, width

        os.environ["COLUMNS"], os.environ["LINES"] = "10", "3"
        term = Terminal(stream=Null())
        kinds, fresh = case["kinds"], self.fresh
        self.obs.n("terminals")

        def op(i):
            k = kinds[i % len(kinds)]
            if k in ("twrite", "draw"):
                term.write(str(fresh(rng)), cursor=(rng.randrange(10), rng.randrange(3)))
            elif k == "tbulk":
                term.write_bulk([((rng.randrange(10), rng.randrange(3)), str(fresh(rng)))
                                 for _ in range(3)])
            elif k == "tsize":
                os.environ["COLUMNS"] = str(rng.randint(5, 12))
                term.size  # noqa: B018 (asks)
            elif k == "title":
                term.set_title(f"title {rng.random()}" if rng.random() < 0.7 else None)
            elif k == "alt":
                with term.alt_buffer():
                    pass
            elif k == "mouse":
                with term.report_mouse():
                    pass
            elif k == "batch":
                with term.batch():
                    pass
            elif k == "tsvg":
                term.export_svg(font_size=rng.randint(8, 40))
            elif k == "space":
                term.color_space = rng.choice([None, *ColorSpace])
            elif k == "newterm":
                Terminal(stream=Null())
            elif k == "width":
                width(str(fresh(rng)) + str(rng.random()))
            if case["drawn"] or k == "draw":
                term.draw()
        return op

    def color(self, case, rng):
        from slate import Color, color

        kinds = case["kinds"]
        self.obs.n("colours")
        rand = lambda: tuple(rng.randrange(256) for _ in range(3))

        def op(i):
            k = kinds[i % len(kinds)]
            c = Color(rand(), is_background=rng.random() < 0.5)
            if k == "make":
                color("#%02x%02x%02x" % rand())
                color("38;2;%d;%d;%d" % rand())
                color(rand())
            elif k == "code":
                c.ansi, c.hex  # noqa: B018
            elif k == "blend":
                c.blend(Color(rand()), rng.random())
                c.lighten(rng.randint(1, 9))
            elif k == "groups":
                c.triadic_group, c.tetradic_group, c.analogous_group, c.complement  # noqa: B018
            elif k == "contrast":
                c.contrast, c.luminance, c.brightness  # noqa: B018
            elif k == "alpha":
                c.as_alpha(rng.random()).as_background(rng.random() < 0.5).hue_shift(rng.random())
        return op

    def span(self, case, rng):
        from slate import Span

        kinds, fresh = case["kinds"], self.fresh
        self.obs.n("spans")

        def op(i):
            k = kinds[i % len(kinds)]
            s = fresh(rng)
            if k == "parse":
                list(Span.yield_from(str(s) + str(fresh(rng))))
            elif k == "chars":
                s.get_characters()
                s.get_characters(exclude_color=True, always_include_sequence=True)
            elif k == "slice":
                list(s), s[1:], s == fresh(rng)  # noqa: B018
            elif k == "split":
                s.split("a")
            elif k == "style":
                s.as_bold().as_color((1, 2, rng.randrange(256))).as_hyperlink(str(rng.random()))
                s.as_svg(inline_styles=True)
            elif k == "group":
                list(Span.group([(ch, s.foreground, s.background) for ch in s.text]))
        return op

    def event(self, case, rng):
        from slate import Event

        kinds = case["kinds"]
        self.obs.n("events")
        event = Event("e")
        event += lambda data: True

        def op(i):
            k = kinds[i % len(kinds)]
            if k == "emit":
                event([rng.random()])
            elif k == "listen":
                other = Event("f")
                other += lambda data: False
                other(str(rng.random()))
                other.clear()
            elif k == "newevent":
                Event(str(rng.random()))
        return op

    def key(self, case, rng):
        from slate import Terminal, feed, getch, getch_timeout
        from slate.core import timeout

        kinds, pty = case["kinds"], self.pty
        pty.configure("raw")
        self.obs.n("keys")

        def typed(data):
            pty.type(data)
            pty.wait_pending(len(data))

        def op(i):
            k = kinds[i % len(kinds)]
            raw = rng.random() < 0.5
            if k == "feed":
                feed("".join(rng.choice("abcdefgh") for _ in range(rng.randint(1, 9))))
                getch(stream=pty.stream, raw=raw)
            elif k == "type":
                typed("".join(rng.choice("abcdefgh") for _ in range(rng.randint(1, 9))).encode())
                getch(stream=pty.stream, raw=raw)
            elif k == "mouse report":
                typed(f"\x1b[<35;{rng.randint(1, 9999)};{rng.randint(1, 9999)}M".encode())
                getch(stream=pty.stream)
            elif k == "timeout":
                if rng.random() < 0.5:
                    typed(b"x")
                    getch_timeout(60.0, stream=pty.stream)
                else:
                    getch_timeout(0.0005, default=str(rng.random()), stream=pty.stream)
            elif k == "no echo":
                with Terminal(stream=Null()).no_echo():
                    pass
            elif "query" in k:
                stream = Stream(pty, REPLIES if k == "query" else {}, 0)
                os.dup2(pty.slave, 0)
                keep, sys.stdin = sys.stdin, self.stdin
                try:
                    if k == "query":
                        term = Terminal(stream=stream)
                        term.foreground_color, term.background_color  # noqa: B018
                    else:
                        stream.tty = False
                        term = Terminal(stream=stream)
                        stream.tty = True
                    term.resolution, term.supports_synchronized_update  # noqa: B018
                finally:
                    sys.stdin = keep
                    os.dup2(self.null, 0)
                self.obs.n("queries", len(stream.vt.queries))
            elif k == "block":
                with timeout(60.0):
                    str(rng.random())
            pty.output = b""
        return op


CHECK = C28()
