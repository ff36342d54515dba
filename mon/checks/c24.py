"""C24: output reaches only the terminal's own stream; audited for every other effect."""

import io
import os
import shutil
import subprocess
import sys
import tempfile

import gen
import vt
from common import REPO, Check, Violation

WATCHED = ("open", "os.", "subprocess.", "shutil.", "socket.", "tempfile.", "pty.", "fcntl.",
           "webbrowser.", "ctypes.", "signal.", "pathlib.")
HARMLESS = ("os.listdir", "os.scandir", "os.putenv", "os.unsetenv", "os.fwalk", "os.walk")

_audit = {"on": False, "events": [], "installed": False}


def hook(event, args):
    if not _audit["on"] or not event.startswith(WATCHED) or event in HARMLESS:
        return
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        write = (isinstance(mode, str) and set(mode) & set("wax+")) or (
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if not write:
            return
    _audit["events"].append((event, str(args)[:120]))


class Recorder(io.StringIO):
    """A text stream that logs its calls."""

    def __init__(self):
        super().__init__()
        self.calls = []

    def write(self, data):
        self.calls.append(("write", data))
        return super().write(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self.calls.append(("flush",))
        return super().flush()

    def isatty(self):
        return False


class C24(Check):
    id = "C24"
    quick, thorough = 70000, 700000
    required = ("operations", "draws", "control sequences", "exports", "audited operations",
                "silent operations", "silent programs", "unflushed controls", "directories",
                "streams replaced")
    rule = ("random operations on three terminals in a changing scratch working directory, under an"
            " interpreter audit hook (files, processes, sockets), with directory listings, a stand-in"
            " sys.stdout/stderr and recorded stream calls; non-trivial: a draw or control sequence")
    assumptions = ["effects of Slate are Python-level (audit events), which holds for a pure-Python"
                   " library"]

    def setup(self):
        if not _audit["installed"]:
            sys.addaudithook(hook)
            _audit["installed"] = True

    IMPORTS = ("import slate", "from slate import *", "import slate; slate.Terminal()",
               "import slate.color, slate.span, slate.screen, slate.event, slate.key_names",
               "from slate import Terminal, terminal; t = Terminal(); t.size, t.resolution, t.isatty;"
               " t.write('abc', cursor=(0, 0)); terminal.clear(); t.export_svg()",
               "import slate; slate.feed('x'); str(slate.getch())",
               "import slate\nwith slate.timeout(5): pass\nwith slate.terminal.no_echo(): pass")

    def enumerated(self, tier):
        out = []
        for code in self.IMPORTS:
            for env in ({}, {"TERM": "xterm-256color"}, {"NO_COLOR": "1"},
                        {"COLUMNS": "10", "LINES": "2", "COLORTERM": "truecolor"}):
                out.append({"import": code, "env": env})
        for w, h in ((250, 80), (300, 60)):
            # close to a megabyte per draw
            span = {"t": "abcdefghij" * (w * h // 10), "s": ["bold"], "fg": ["rgb", 200, 201, 202],
                    "bg": ["rgb", 100, 101, 102]}
            out.append({"w": w, "h": h, "ops": [[0, "write", [span], [0, 0], False], [0, "draw"],
                                                [0, "redraw"]]})
        return out

    def quiet(self, case, obs):
        """A program with pipes for standard streams that draws nothing shows nothing."""

        root = tempfile.mkdtemp(prefix="slate-c24-")
        try:
            p = subprocess.run(
                [sys.executable, "-B", "-c", case["import"]], cwd=root, timeout=300, check=False,
                stdin=subprocess.DEVNULL, capture_output=True,
                env={"PATH": os.environ["PATH"], "PYTHONPATH": REPO, "HOME": root, "TMPDIR": root,
                     **case["env"]})
            left = os.listdir(root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        if p.returncode:
            raise Violation(f"{case['import']!r} off a tty fails: {p.stderr.decode()[-300:]}")
        if p.stdout or p.stderr:
            raise Violation(f"{case['import']!r} off a tty prints {(p.stdout or p.stderr)[:200]!r}")
        if left:
            raise Violation(f"{case['import']!r} creates files: {left}")
        obs.n("silent programs")

    def generate(self, rng, tier, index):
        w, h = rng.randint(1, 10), rng.randint(1, 4)
        pal = gen.Palette(rng, hi=6)
        ops = []
        for _ in range(rng.randint(2, 14)):
            t = rng.randrange(3)
            k = rng.choice(["write", "write", "bulk", "clear", "draw", "draw", "redraw", "svg",
                            "control", "control", "cd", "title", "cursor", "show", "mouse", "alt",
                            "batch", "bell", "size", "report", "resolution", "echo", "swap"])
            if k == "write":
                ops.append([t, k, pal.spans(2), gen.position(rng, w, h), rng.random() < 0.3])
            elif k == "bulk":
                ops.append([t, k, [[gen.position(rng, w, h), pal.spans(2)]
                                   for _ in range(rng.randint(1, 3))]])
            elif k == "control":
                ops.append([t, k, rng.choice(["\x1b[?25l", "\a", "\x1b[2J", "x", "\x1b[2Jx\n", " y ",
                                           "\r\n", "\x1b]2;a\nb\x1b\\", "\t", "\x00", "é€😀",
                                           "\x1b[1mz\x1b[0m", "q" * 5000]),
                            rng.choice([None, True, False])])
            elif k == "cd":
                ops.append([t, k, rng.randrange(3)])
            elif k == "title":
                ops.append([t, k, rng.choice([None, "one", "two"])])
            elif k in ("show", "mouse"):
                ops.append([t, k, rng.random() < 0.5])
            else:
                ops.append([t, k])
        return {"w": w, "h": h, "ops": ops}

    def shrinkable(self, case):
        return "import" not in case

    def nontrivial(self, case):
        return "import" in case or any(o[1] in ("draw", "redraw", "control") for o in case["ops"])

    def valid(self, case):
        return "import" in case or case["w"] > 0 and case["h"] > 0

    def execute(self, case, obs):
        if "import" in case:
            self.quiet(case, obs)
            return
        import slate
        from slate import Terminal

        slate.terminal.color_space = slate.ColorSpace.TRUE_COLOR
        os.environ["COLUMNS"], os.environ["LINES"] = str(case["w"]), str(case["h"])
        streams = [Recorder() for _ in range(3)]
        terms = [Terminal(stream=s) for s in streams]
        for s in streams:
            s.calls.clear()
        home = os.getcwd()
        # this process's own, in the run's scratch directory
        root = os.path.join(home, f"c24-{os.getpid()}")
        dirs = [os.path.join(root, d) for d in "abc"]
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        keep_out, keep_err, keep_env = sys.stdout, sys.stderr, dict(os.environ)
        keep_in, keep_fds = sys.stdin, (os.dup(1), os.dup(2))
        fake = Recorder()
        sys.stdout = sys.stderr = fake
        sys.stdin = io.StringIO()
        sink = os.open(os.path.join(root, "sink"), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(sink, 1)
        os.dup2(sink, 2)
        self.size = case["w"], case["h"]
        try:
            os.chdir(dirs[0])
            for t, kind, *args in case["ops"]:
                before = [len(s.calls) for s in streams]
                if kind == "swap":
                    # from now on this one is the terminal's stream
                    streams.append(streams[t])
                    terms[t].stream = streams[t] = Recorder()
                    obs.n("streams replaced")
                    continue
                if kind == "cd":
                    os.chdir(dirs[args[0]])
                    obs.n("directories")
                    continue
                if kind in ("write", "bulk"):
                    args = self.prepare(kind, args)
                _audit["events"].clear()
                _audit["on"] = True
                try:
                    self.perform(terms[t], kind, args)
                finally:
                    _audit["on"] = False
                obs.n("operations")
                obs.n("audited operations")
                if _audit["events"]:
                    raise Violation(f"side effect: {kind} did {_audit['events'][0]}")
                if fake.calls:
                    raise Violation(f"{kind} wrote to the process's standard streams:"
                                    f" {fake.calls[:2]}")
                if dict(os.environ) != keep_env:
                    raise Violation(f"{kind} changed the environment")
                for i, s in enumerate(streams):
                    new = s.calls[before[i]:]
                    if i != t and new:
                        raise Violation(f"{kind} on terminal {t} wrote to terminal {i}'s stream")
                    if i == t:
                        self.judge(kind, args, new, obs)
            if os.fstat(sink).st_size:
                raise Violation("something was written to the process's file descriptors 1 or 2")
            left = [os.path.join(d, f) for d in dirs for f in os.listdir(d)]
            left += [f for f in os.listdir(root) if f not in ("sink", "a", "b", "c")]
            if left:
                for d in dirs:
                    shutil.rmtree(d, ignore_errors=True)
                raise Violation(f"files were created: {left[:3]}")
        finally:
            sys.stdout, sys.stderr, sys.stdin = keep_out, keep_err, keep_in
            os.dup2(keep_fds[0], 1)
            os.dup2(keep_fds[1], 2)
            for fd in (*keep_fds, sink):
                os.close(fd)
            os.chdir(home)

    def prepare(self, kind, args):
        if kind == "write":
            spans = [gen.build_span(s) for s in args[0]]
            return ["".join(map(str, spans)) if args[2] else spans, tuple(args[1])]
        return [[(tuple(p), [gen.build_span(s) for s in sp]) for p, sp in args[0]]]

    def perform(self, term, kind, args):
        if kind == "write":
            term.write(args[0], cursor=args[1])
        elif kind == "bulk":
            term.write_bulk(args[0])
        elif kind == "clear":
            term.clear()
        elif kind == "draw":
            term.draw()
        elif kind == "redraw":
            term.draw(redraw=True)
        elif kind == "svg":
            term.export_svg()
        elif kind == "control":
            if args[1] is None:
                term.write_control(args[0])
            else:
                term.write_control(args[0], flush=args[1])
        elif kind == "title":
            term.set_title(args[0])
        elif kind == "cursor":
            term.cursor = term.cursor
        elif kind == "show":
            term.show_cursor(args[0])
        elif kind == "mouse":
            term.set_report_mouse(args[0])
        elif kind == "alt":
            with term.alt_buffer():
                pass
        elif kind == "batch":
            with term.batch():
                pass
        elif kind == "echo":
            with term.no_echo():
                pass
        elif kind == "bell":
            term.bell()
        elif kind == "size":
            _ = term.size, term.width, term.height
        elif kind == "report":
            with term.report_mouse():
                pass
        elif kind == "resolution":
            _ = term.resolution, term.foreground_color, term.background_color, term.isatty

    def judge(self, kind, args, calls, obs):
        written = "".join(c[1] for c in calls if c[0] == "write")
        flushed = not written or (calls and calls[-1] == ("flush",))
        if kind in ("write", "bulk", "clear", "svg", "cursor", "size", "resolution", "echo"):
            obs.n("silent operations")
            obs.n("exports", kind == "svg")
            if written:
                raise Violation(f"{kind} produced output before a draw: {written[:60]!r}")
            return
        if kind == "control":
            obs.n("control sequences")
            if written != args[0]:
                raise Violation(f"control sequence {args[0]!r} reached the stream as {written!r}")
            if args[1] is False:
                obs.n("unflushed controls")
                if ("flush",) in calls:
                    raise Violation("an unflushed control sequence was flushed")
                return
        elif kind in ("draw", "redraw"):
            obs.n("draws")
            if not any(c[0] == "flush" for c in calls) or calls[-1] != ("flush",):
                raise Violation("a draw was not flushed")
            emulator = vt.VT(*self.size)
            emulator.feed(written)
            emulator.finish()
            painted = emulator.take_painted()
            if self.size[0] >= 200 and len(painted) != self.size[0] * self.size[1]:
                raise Violation(f"{len(painted)} cells of a large draw reached the stream")
            if len(set(painted)) != len(painted) or (kind == "redraw" and len(painted)
                                                     != self.size[0] * self.size[1]):
                raise Violation(f"{kind} reached the stream other than once: {len(painted)} cells"
                                f" painted, {len(set(painted))} different ones")
        elif kind == "bell":
            if written != "\a":
                raise Violation(f"a bell reached the stream as {written!r}")
        elif kind in ("show", "mouse"):
            emulator = vt.VT(*self.size)
            emulator.feed(written)
            log = emulator.control_log
            if not log or len(set(log)) != len(log):
                raise Violation(f"{kind} reached the stream as {written!r}")
        elif kind in ("show", "mouse", "alt", "batch", "bell", "report") and not written:
            raise Violation(f"{kind} sent nothing")
        if not flushed:
            raise Violation(f"{kind} left output unflushed")


CHECK = C24()
