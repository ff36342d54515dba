"""C22: modes, cursor, title and echo followed by an emulator through nested blocks."""

import io
import os
import sys
import termios

import gen
import vt
from common import Check, Violation
from ptylab import Pty

EXCS = {"value": ValueError, "interrupt": KeyboardInterrupt, "exit": SystemExit,
        "genexit": GeneratorExit, "stop": StopIteration, "runtime": RuntimeError, "os": OSError,
        "timeout": TimeoutError}
MOUSE = (9, 1000, 1001, 1002, 1003, 1005, 1006, 1015, 1016)
OUTER = ["outermost", "outer"]


class Stream(io.TextIOBase):
    """The terminal's end of the stream; may be interrupted at a write."""

    def __init__(self, term):
        self.vt = term
        self.fault = None

    def write(self, data):
        if self.fault is None:
            self.vt.feed(data)
            return len(data)
        when, exc = self.fault
        if when == "before":
            self.fault = None
            raise exc
        self.vt.feed(data)
        if when <= 1:
            self.fault = None
            raise exc
        self.fault = (when - 1, exc)
        return len(data)

    def flush(self):
        pass

    def isatty(self):
        return False


class C22(Check):
    id = "C22"
    quick, thorough = 240000, 2500000
    required = ("blocks", "alt blocks", "mouse blocks", "batch blocks", "echo blocks",
                "blocks ended by exceptions", "blocks interrupted at entry", "titles set",
                "titles restored", "states compared", "nested blocks", "hidden cursors",
                "direct switches", "echo off before", "echo blocks within each other",
                "echo switched directly")
    rule = ("random trees of alternate-buffer (cursor hidden or not), mouse, batch and no-echo blocks"
            " (of these only no-echo within itself), echo on or off before, with titles set, changed and cleared, drawing, exceptions of every"
            " kind raised inside and interrupts at the entry writes, on a stream interpreted by an"
            " emulator with modes and a title stack, echo on a pty; compared after every step;"
            " non-trivial: a block ended by an exception or nested")
    assumptions = ["interrupts arriving during a block's own clean-up are not explored"]

    def setup(self):
        from slate import Terminal

        self.pty = Pty()
        os.environ["COLUMNS"], os.environ["LINES"] = "8", "3"
        self.null = os.open("/dev/null", os.O_RDONLY)
        os.dup2(self.null, 0)
        self.make = lambda s: Terminal(stream=s)

    def generate(self, rng, tier, index):
        echo = rng.random() < 0.06
        budget = [rng.randint(1, 12) if rng.random() < 0.99 else 150]
        top = 5 if budget[0] < 100 else 80

        def body(open_, depth):
            out = []
            for _ in range(rng.randint(0, 4) if depth else rng.randint(1, top)):
                if budget[0] <= 0:
                    break
                budget[0] -= 1
                r = rng.random()
                kinds = [k for k in ("alt", "alt", "mouse", "batch") + (("echo",) if echo else ())
                         if k not in open_ or k == "echo"]
                if r < 0.45 and kinds and depth < 4:
                    k = rng.choice(kinds)
                    fault = None
                    if rng.random() < 0.12 and k != "echo":
                        fault = [rng.choice(["before", 1, 1, 2]), rng.choice(sorted(EXCS))]
                    out.append([k, rng.random() < 0.7, fault, body(open_ | {k}, depth + 1)])
                elif r < 0.68:
                    out.append(["title", rng.choice([None, "one", "two", "", "a;b c", "ünï"])])
                elif r < 0.8:
                    out.append(["text", gen.text(rng, 1, 10), rng.random() < 0.3])
                elif r < 0.86:
                    out.append(["try", body(open_, depth + 1)])
                elif r < 0.91:
                    out.append([rng.choice(["cursor", "report"] if "echo" in open_ or not echo else
                                           ["cursor", "report", "setecho", "setecho"]), rng.choice([None, True, False])])
                elif depth:
                    out.append(["raise", rng.choice(sorted(EXCS))])
                    break
            return out

        return {"body": body(frozenset(), 0), "title": rng.choice(["shell", "x", ""]),
                "silent": echo and rng.random() < 0.3}

    def enumerated(self, tier):
        out = [{"title": "shell", "body": [["setecho", v], ["echo", True, None, []], ["setecho", w]]}
               for v in (None, True, False) for w in (None, True, False)]
        for k in ("alt", "mouse", "batch", "echo"):
            for hide in (True, False):
                for inner in ([], [["raise", e] for e in sorted(EXCS)][:1]):
                    for t in ([], [["title", "t"]]):
                        out.append({"title": "shell", "body": t + [["try", [
                            [k, hide, None, t + inner]]]] + t})
                for e in sorted(EXCS):
                    out.append({"title": "shell", "body": [["try", [[k, hide, None, [
                        ["title", "in"], ["raise", e]]]]], ["text", "x", True]]})
                    if k != "echo":
                        for w in ("before", 1, 2):
                            out.append({"title": "s", "body": [["title", "app"], ["try", [
                                [k, hide, [w, e], []]]]]})
        return out

    def nontrivial(self, case):
        text = repr(case["body"])
        return "'raise'" in text or sum(text.count(f"['{k}'") for k in ("alt", "mouse", "batch")) > 1

    def valid(self, case):
        def ok(body, open_):
            for n in body:
                if not n:
                    return False
                if n[0] in ("alt", "mouse", "batch", "echo"):
                    if len(n) != 4 or (n[0] in open_ and n[0] != "echo") or not isinstance(n[3], list):
                        return False
                    if n[2] is not None and (len(n[2]) != 2 or n[2][1] not in EXCS or n[2][0] == 0):
                        return False
                    if not ok(n[3], open_ | {n[0]}):
                        return False
                elif n[0] == "try":
                    if len(n) != 2 or not ok(n[1], open_):
                        return False
                elif n[0] == "raise":
                    if n[1:] and n[1] not in EXCS or not open_:
                        return False
                elif len(n) < 2 or n[0] == "setecho" and "echo" in open_:
                    return False
            return True
        return ok(case["body"], frozenset())

    # ------------------------------------------------------------------------------
    def execute(self, case, obs):
        self.pty.configure("cooked")
        emulator = vt.VT(8, 3, title=case["title"], title_stack=OUTER)
        stream = Stream(emulator)
        self.term = self.make(stream)
        self.vt, self.stream, self.obs, self.initial = emulator, stream, obs, case["title"]
        self.custom = None
        self.open = {}
        self.hidden = self.mouse = False
        uses_echo = "echo'" in repr(case["body"])
        self.settings = None
        keep_stdin = sys.stdin
        if uses_echo:
            if case.get("silent"):
                attrs = self.pty.attrs()
                attrs[3] &= ~termios.ECHO
                termios.tcsetattr(self.pty.slave, termios.TCSANOW, attrs)
                obs.n("echo off before")
            os.dup2(self.pty.slave, 0)
            sys.stdin = os.fdopen(0, "r", closefd=False)
            self.settings = self.pty.attrs()
            self.echo = bool(self.settings[3] & termios.ECHO)
        try:
            self.look("start")
            try:
                self.run(case["body"])
            except (Violation, AssertionError):
                raise
            except BaseException as exc:  # the case's own
                if exc is not getattr(self, "raised", None):
                    raise
            if not self.open:
                self.look("the end")
            emulator.finish()
            if emulator.anomalies:
                raise Violation(f"control stream: {emulator.anomalies[0]}")
        finally:
            if uses_echo:
                sys.stdin = keep_stdin
                os.dup2(self.null, 0)
        obs.state("control streams", tuple(emulator.control_log))

    def run(self, body):
        for node in body:
            kind = node[0]
            if kind == "title":
                self.term.set_title(node[1])
                self.custom = node[1]
                self.obs.n("titles set" if node[1] is not None else "titles cleared")
            elif kind == "text":
                self.term.write(node[1])
                self.term.draw(redraw=bool(node[2]) if len(node) > 2 else False)
            elif kind in ("cursor", "report"):
                call = self.term.show_cursor if kind == "cursor" else self.term.set_report_mouse
                call(*([] if node[1] is None else [node[1]]))
                on = node[1] is not False
                if kind == "cursor":
                    self.hidden = not on
                else:
                    self.mouse = on
                self.obs.n("direct switches")
            elif kind == "setecho":
                from slate import set_echo
                set_echo(*([] if node[1] is None else [node[1]]))
                self.echo = node[1] is not False
                self.obs.n("echo switched directly")
            elif kind == "raise":
                self.raised = EXCS[node[1]]("mine")
                raise self.raised
            elif kind == "try":
                try:
                    self.run(node[1])
                except Violation:
                    raise
                except BaseException as exc:
                    if exc is not self.raised:
                        raise
            else:
                self.block(*node)
            self.look(f"{kind} step")

    def block(self, kind, hide, fault, body):
        t = self.term
        cm = {"alt": lambda: t.alt_buffer(hide_cursor=hide) if not hide else t.alt_buffer(),
              "mouse": t.report_mouse, "batch": t.batch, "echo": t.no_echo}[kind]()
        self.obs.n("blocks")
        self.obs.n(f"{kind} blocks")
        self.obs.n("nested blocks", bool(self.open))
        before_title = self.custom
        if fault:
            exc = EXCS[fault[1]]("fault")
            self.stream.fault = (fault[0], exc)
            try:
                cm.__enter__()
            except BaseException as got:
                self.stream.fault = None
                if got is not exc and not (isinstance(got, RuntimeError)
                                           and got.__cause__ is exc):
                    raise
                self.obs.n("blocks interrupted at entry")
                if kind == "alt":
                    self.custom = None
                    self.hidden &= not hide
                elif kind == "mouse":
                    self.mouse = False
                self.look(f"{kind} block interrupted at entry")
                self.raised = got
                raise
            self.stream.fault = None
        else:
            cm.__enter__()
        again = kind in self.open
        self.obs.n("echo blocks within each other", again)
        self.open[kind] = hide
        self.hidden |= kind == "alt" and hide
        self.mouse |= kind == "mouse"
        self.look(f"entering a {kind} block")
        self.obs.n("hidden cursors", kind == "alt" and hide)
        error = None
        try:
            self.run(body)
        except Violation:
            raise
        except BaseException as exc:
            error = exc
        if error is None:
            cm.__exit__(None, None, None)
        else:
            self.obs.n("blocks ended by exceptions")
            try:
                swallowed = cm.__exit__(type(error), error, error.__traceback__)
            except BaseException as exc:
                if exc is not error:
                    raise
                swallowed = False
        if not again:
            del self.open[kind]
        if kind == "alt":
            self.obs.n("titles restored", self.custom is not None)
            self.custom = None
            self.hidden &= not hide
        elif kind == "mouse":
            self.mouse = False
        self.look(f"leaving a {kind} block" + (" by " + type(error).__name__ if error else ""))
        if error is not None:
            if swallowed:
                raise Violation(f"a {kind} block swallowed {error!r}")
            raise error

    def look(self, when):
        """Compares every mode with what it should be now."""

        v, m = self.vt, self.vt.modes
        self.obs.n("states compared")
        alt = m.get(1049, False) or m.get(47, False) or m.get(1047, False)
        if alt != ("alt" in self.open):
            raise Violation(f"alternate buffer {'on' if alt else 'off'} after {when}")
        if m.get(25) != (not self.hidden):
            raise Violation(f"cursor {'visible' if m.get(25) else 'hidden'} after {when}")
        on = [n for n in MOUSE if m.get(n)]
        if self.mouse:
            last = [c for c in v.control_log if c[1:] in ("9", "1000", "1001", "1002", "1003")][-1:]
            if 1006 not in on or 1003 not in on or last != ["+1003"]:
                raise Violation(f"mouse reporting inside the block: modes {on}, after {when}")
        elif on:
            raise Violation(f"mouse modes {on} left on after {when}")
        if m.get(2026, False) != ("batch" in self.open):
            raise Violation(f"synchronized update {'on' if m.get(2026) else 'off'} after {when}")
        for n, value in m.items():
            if n not in (1049, 47, 1047, 25, 2026, *MOUSE) and value:
                raise Violation(f"unexpected mode {n} on after {when}")
        want = self.initial if self.custom is None else self.custom
        if v.title != want:
            raise Violation(f"the title is {v.title!r} after {when}, should be {want!r}")
        if v.title_underflow or len(v.title_stack) < len(OUTER):
            raise Violation(f"a title was popped that was never pushed, after {when}")
        if self.custom is None and v.title_stack != OUTER:
            raise Violation(f"saved titles after {when}: {v.title_stack}")
        if self.settings is not None:
            now = self.pty.attrs()
            echo = bool(now[3] & termios.ECHO)
            if echo != ("echo" not in self.open and self.echo):
                raise Violation(f"echo {'on' if echo else 'off'} after {when}")
            now[3] = now[3] & ~termios.ECHO | self.settings[3] & termios.ECHO
            if "echo" not in self.open and now != self.settings:
                raise Violation(f"line settings changed after {when}")


CHECK = C22()
