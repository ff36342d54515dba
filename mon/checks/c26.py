"""C26: a terminal at the other end of a pty that answers queries well, badly, late or not at all."""

import io
import os
import re
import sys
import termios
import threading
import time

import vt
from common import Check, Violation
from ptylab import Pty, Watch

QUERIES = {"fg": "osc10", "bg": "osc11", "pixels": "pixels", "sync": "mode2026"}
FALLBACK = {"fg": (0xDE, 0xDE, 0xDE), "bg": (0x14, 0x14, 0x14)}
COLOUR = re.compile(r"\x1b\](10|11);rgb:([0-9a-f]{4})/([0-9a-f]{4})/([0-9a-f]{4})\x1b\\")
LOOSE = re.compile(r"rgba?:[0-9a-fA-F]{1,4}/[0-9a-fA-F]{1,4}/[0-9a-fA-F]{1,4}")
PIXELS = re.compile(r"\x1b\[4;([0-9]+);([0-9]+)t", re.ASCII)


class Stream(io.TextIOBase):
    """Terminal.stream: what is flushed reaches the emulator, whose replies are typed on the pty."""

    def __init__(self, pty, replies, delay, tty=True):
        self.vt = vt.VT(20, 5)
        self.pty, self.replies, self.delay, self.tty = pty, replies, delay, tty
        self.pending, self.seen, self.log = "", 0, []
        self.threads = []

    def write(self, data):
        self.pending += data
        self.log.append(data)
        return len(data)

    def isatty(self):
        return self.tty

    def fileno(self):
        return self.pty.slave

    def flush(self):
        data, self.pending = self.pending, ""
        self.vt.feed(data)
        for q in self.vt.queries[self.seen:]:
            reply = self.replies.get(q)
            if reply:
                if self.delay:
                    t = threading.Timer(self.delay, self.pty.type, (reply.encode(),))
                    t.daemon = True
                    self.threads.append(t)
                    t.start()
                else:
                    self.pty.type(reply.encode())
                    if not self.pty.attrs()[3] & termios.ICANON:
                        end = time.monotonic() + 0.02
                        while not self.pty.pending() and time.monotonic() < end:
                            time.sleep(0.0002)
        self.seen = len(self.vt.queries)

    def settle(self):
        for t in self.threads:
            t.join()


class C26(Check):
    id = "C26"
    quick, thorough = 6400, 120000
    required = ("colours replied", "resolutions replied", "sync supported", "sync unsupported",
                "garbled replies", "silences", "off-tty questions", "queries seen",
                "settings compared", "late replies", "earlier input", "echo off before")
    rule = ("random and boundary replies, mutations of replies, silence, delays (colour), earlier input"
            " (colour), custom fallbacks, with and without ttys at either end; the replying terminal is"
            " an emulator behind a pty; non-trivial: a reply was sent")
    assumptions = ["a reply is well-formed in the form xterm uses: rgb:hhhh/hhhh/hhhh in lower case ended"
                   " by ST; other spellings are not judged", "a reply arrives in one piece",
                   "where a reply was expected and the fallback came, the question"
                   " is repeated up to 10 times, in case the machine was slower than the library waits"]

    def setup(self):
        self.pty = Pty()
        self.null = os.open("/dev/null", os.O_RDONLY)
        os.dup2(self.null, 0)
        self.tty_stdin = None
        self.watch = Watch(self.pty, settle=8.0)
        self.watch.__enter__()

    def enumerated(self, tier):
        out = []
        for what in ("fg", "bg"):
            n = QUERIES[what][3:]
            for r in ("0000/0000/0000", "ffff/ffff/ffff", "00ff/ff00/8000", "1e1e/dada/0101"):
                out.append(self.make(what, f"\x1b]{n};rgb:{r}\x1b\\"))
            out.append(self.make(what, ""))
        for r in ("600;800", "1;1", "0;0", "1080;1920", "99999;12345"):
            out.append(self.make("pixels", f"\x1b[4;{r}t"))
        for m in (0, 1, 2, 4):
            out.append(self.make("sync", f"\x1b[?2026;{m}$y"))
        for what in ("pixels", "sync"):
            out.append(self.make(what, ""))
        for n, what in ((10, "fg"), (11, "bg")):
            out.append(self.make(what, f"\x1b]{n};rgb:1234/5678/9abc\x1b\\", delay=0.35))
        for v in range(4):
            out.append(self.make("pixels", f"\x1b[4;{600 + v};800t", delay=0.008))
            out.append(self.make("sync", f"\x1b[?2026;{1 + v % 2}$y", delay=0.008))
        for i in range(16):
            # one terminal object, whose ends come and go
            out.append({**self.make("comings", "\x1b[4;333;444t"),
                        "ends": [[bool((i * 7 + k * 5 >> 2) & 1), bool((i * 3 + k * 11 >> 1) & 1)]
                                 for k in range(6)]})
        for f in ([1, 2], [1280, 720], [33, 44]):
            out.append({**self.make("closed", ""), "fallback": f})
        for what in QUERIES:
            for stdin in (True, False):
                for stdout in (True, False):
                    out.append(self.make(what, "", stdin=stdin, stdout=stdout))
        return out

    @staticmethod
    def make(what, reply, **kw):
        return {"what": what, "reply": reply, "stdin": True, "stdout": True, "delay": 0,
                "fallback": [1280, 720], "ahead": "", "v": 0, "tty": "cooked", "direct": False,
                "again": "", **kw}

    def generate(self, rng, tier, index):
        what = rng.choice(["fg", "bg", "pixels", "pixels", "sync"])
        reply = self.reply(rng, what)
        if rng.random() < 0.3 and reply:
            s = list(reply)
            for _ in range(rng.choice([1, 1, 2, 4])):
                k = rng.randrange(len(s)) if s else 0
                ch = rng.choice("0123456789abcfg;:/[]\\\x1bt$y?~ Rx")
                how = rng.random()
                if how < 0.4 and s:
                    del s[k]
                elif how < 0.7 and s:
                    s[k] = ch
                else:
                    s.insert(k, ch)
            reply = "".join(s)
        elif rng.random() < 0.08:
            reply = rng.choice(["x", "\x1b", "\x1b[A", "\x1b[<0;1;1M", "hello", "\x1b[24;80R",
                                "\x1b[?62;c", "é", "\x1b[8;24;80t", "\x1b]4;1;rgb:00/00/00\x1b\\"])
        stdin = rng.random() < 0.9
        if rng.random() < (0.04 if what in ("pixels", "sync") else 0.003):
            reply = ""
        return self.make(
            what, reply, stdin=stdin, stdout=rng.random() < 0.9,
            delay=rng.choice([0, 0, 0, 0.003, 0.02]) if what in ("fg", "bg") else 0,
            fallback=rng.choice([[1280, 720], [1, 1], [0, 0], [640, 480]]),
            ahead=rng.choice(["", "", "ab", "\x1b[A", "\x1b[4;1;2t"]) if what in ("fg", "bg") else "",
            v=rng.randrange(8), tty=rng.choice(["cooked", "noncanon"]), silent=rng.random() < 0.2,
            direct=rng.random() < 0.4,
            again=self.reply(rng, what) if what == "pixels" and rng.random() < 0.3 else "")

    @staticmethod
    def reply(rng, what):
        if what in ("fg", "bg"):
            n = "10" if what == "fg" else "11"
            chan = ["%04x" % rng.choice([0, 255, 256, 65535, 0x8080, rng.randrange(65536)])
                    for _ in range(3)]
            return f"\x1b]{n};rgb:{'/'.join(chan)}\x1b\\"
        if what == "pixels":
            h, w = (rng.choice([0, 1, rng.randint(1, 4000), rng.randint(1, 10 ** 6)]) for _ in "hw")
            return f"\x1b[4;{h};{w}t"
        return f"\x1b[?2026;{rng.choice([0, 1, 1, 2, 2, 4])}$y"

    def nontrivial(self, case):
        return bool(case["reply"])

    def valid(self, case):
        return True

    def shrinkable(self, case):
        return True

    # ------------------------------------------------------------------------------
    def expected(self, what, reply, fallback):
        """(answer, judged)"""

        if what in ("fg", "bg"):
            m = COLOUR.match(reply)
            if m:
                if m[1] != QUERIES[what][3:] or m.end() != len(reply):
                    return None, False
                return tuple(int(c[:2], 16) for c in m.groups()[1:]), True
            return FALLBACK[what], not LOOSE.search(reply)
        if what == "pixels":
            m = PIXELS.match(reply)
            if m:
                return (int(m[2]), int(m[1])), m.end() == len(reply)
            return tuple(fallback), not re.search(r"4;\d+;\d+t", reply)
        m = re.fullmatch(r"\x1b\[\?2026;([0-9]+)\$y", reply)
        if m:
            return m[1] in ("1", "2"), m[1] in ("0", "1", "2", "4")
        return False, not re.search(r"2026;[0-9]\$y", reply)

    def closed(self, case, obs):
        """A stream that has been closed is no terminal."""

        from slate import Terminal

        stream = io.StringIO()
        fallback = tuple(case["fallback"])
        term = Terminal(stream=stream, resolution_fallback=fallback)
        for when in ("open", "closed"):
            if term.isatty is not False or term.resolution != fallback:
                raise Violation(f"on an {when} file, isatty is {term.isatty} and the resolution"
                                f" {term.resolution}, should be the fallback {fallback}")
            stream.close()
        obs.n("off-tty questions", 2)

    def comings(self, case, obs):
        """The resolution asked for again and again while the ends become ttys and cease to be."""

        from slate import Terminal

        pty, keep = self.pty, sys.stdin
        pty.configure("cooked")
        os.environ["COLUMNS"], os.environ["LINES"] = "20", "5"
        stream = Stream(pty, {"pixels": case["reply"]}, 0, False)
        fallback = tuple(case["fallback"])
        term = Terminal(stream=stream, resolution_fallback=fallback)
        with os.fdopen(os.dup(pty.slave), "r") as tty, open(os.devnull) as null:
            for stdin, stdout in case["ends"]:
                stream.tty = stdout
                os.dup2(pty.slave if stdin else self.null, 0)
                sys.stdin = tty if stdin else null
                asked = len(stream.vt.queries)
                fallback = (fallback[0] + 1, fallback[1] + 2)
                term.resolution_fallback = fallback
                want = (444, 333) if stdin and stdout else fallback
                try:
                    for _ in range(8 if stdin and stdout else 1):
                        pty.discard()
                        if (got := term.resolution) == want:
                            break
                finally:
                    sys.stdin = keep
                    os.dup2(self.null, 0)
                if got != want:
                    raise Violation(f"with standard input {'on' if stdin else 'off'} and the stream"
                                    f" {'on' if stdout else 'off'} a tty, the resolution is {got},"
                                    f" should be {want}")
                if not (stdin and stdout) and len(stream.vt.queries) != asked:
                    raise Violation("off a tty, a query was sent")
                obs.n("ends that come and go")

    def execute(self, case, obs):
        if case["what"] == "closed":
            self.closed(case, obs)
            return
        if case["what"] == "comings":
            self.comings(case, obs)
            return
        want, judged = self.expected(case["what"], case["reply"], case["fallback"])
        on_tty = case["stdin"] and case["stdout"]
        if not on_tty:
            want = {"fg": FALLBACK["fg"], "bg": FALLBACK["bg"], "pixels": tuple(case["fallback"]),
                    "sync": False}[case["what"]]
            judged = True
        well_formed = on_tty and judged and want not in (
            FALLBACK.get(case["what"]), tuple(case["fallback"]), False)
        for attempt in range((10 if case["delay"] else 5) if well_formed else 1):
            got = self.ask(case, obs)
            if not judged or got == want:
                break
        if judged and got != want:
            raise Violation(f"{case['what']}: the terminal replied {case['reply']!r} (tty:"
                            f" {case['stdin']}/{case['stdout']}), the answer was {got!r}, should be"
                            f" {want!r}")
        if not on_tty:
            obs.n("off-tty questions")
        elif not case["reply"]:
            obs.n("silences")
        elif not judged:
            obs.n("unjudged replies")
        elif not well_formed:
            obs.n("garbled replies" if case["what"] != "sync" or "2026" not in case["reply"]
                  else "sync unsupported")
        else:
            obs.n({"fg": "colours replied", "bg": "colours replied", "pixels": "resolutions replied",
                   "sync": "sync supported"}[case["what"]])
            obs.n("late replies", case["delay"] > 0)
            obs.n("earlier input", bool(case["ahead"]))
        obs.state("answers", (case["what"], got))

    def ask(self, case, obs):
        from slate import Terminal
        from slate.core import get_default_color

        pty, what = self.pty, case["what"]
        pty.configure("cooked", case["v"])
        if case["tty"] == "noncanon":
            attrs = pty.attrs()
            attrs[3] &= ~termios.ICANON
            attrs[6][termios.VMIN], attrs[6][termios.VTIME] = 1, 0
            termios.tcsetattr(pty.slave, termios.TCSANOW, attrs)
        if case.get("silent"):
            attrs = pty.attrs()
            attrs[3] &= ~termios.ECHO
            termios.tcsetattr(pty.slave, termios.TCSANOW, attrs)
            obs.n("echo off before")
        os.environ["COLUMNS"], os.environ["LINES"] = "20", "5"
        stream = Stream(pty, {QUERIES[what]: case["reply"]}, case["delay"], case["stdout"])
        colour = what in ("fg", "bg")
        if colour:
            # both colours are asked for when the terminal is made
            other = "fg" if what == "bg" else "bg"
            n = QUERIES[other][3:]
            stream.replies[QUERIES[other]] = f"\x1b]{n};rgb:0101/0202/0303\x1b\\"
        keep = sys.stdin
        term = None
        if not colour:
            term = Terminal(stream=stream, resolution_fallback=tuple(case["fallback"]))
            if stream.log:
                raise Violation(f"off a tty, making a terminal wrote {stream.log!r}")
        before = pty.attrs()
        fired = self.watch.fired
        if case["stdin"]:
            os.dup2(pty.slave, 0)
            sys.stdin = os.fdopen(0, "r", closefd=False)
        try:
            if case["ahead"] and case["stdin"]:
                pty.type(case["ahead"].encode())
                if case["tty"] == "noncanon":
                    pty.wait_pending(len(case["ahead"].encode()))
                else:
                    time.sleep(0.005)
            self.watch.armed.set()
            asked = 1
            if colour and case["direct"]:
                c = get_default_color("10" if what == "fg" else "11", stream=stream)
                got = tuple(c.rgb)
            elif colour:
                term = Terminal(stream=stream, resolution_fallback=tuple(case["fallback"]))
                c = term.foreground_color if what == "fg" else term.background_color
                got = tuple(c.rgb)
                term.foreground_color, term.background_color  # noqa: B018 (no second question)
            elif what == "pixels":
                got = term.resolution
                if case["again"]:
                    # asked again, the terminal may answer differently
                    stream.settle()
                    first = got
                    for _ in range(5):
                        pty.discard()
                        stream.replies["pixels"] = case["again"]
                        got = term.resolution
                        asked += 1
                        if got != tuple(case["fallback"]) or not (case["stdin"] and case["stdout"]):
                            break
                    m = PIXELS.match(case["again"])
                    want = (int(m[2]), int(m[1])) if case["stdin"] and case["stdout"] else tuple(
                        case["fallback"])
                    if got != want:
                        raise Violation(f"pixels: asked again, the terminal replied {case['again']!r},"
                                        f" the answer was {got!r}")
                    got = first
            else:
                got = term.supports_synchronized_update
        finally:
            self.watch.armed.clear()
            if case["stdin"]:
                sys.stdin = keep
                os.dup2(self.null, 0)
            stream.settle()
        obs.n("settings compared")
        after = pty.attrs()
        if after != before:
            raise Violation(f"line settings changed by a {what} query: echo"
                            f" {bool(after[3] & termios.ECHO)}")
        if self.watch.fired > fired:
            raise Violation(f"a {what} query without a reply waits for ever")
        stream.vt.finish()
        if stream.vt.anomalies or stream.pending:
            raise Violation(f"query: {stream.vt.anomalies or stream.pending!r}")
        if stream.vt.painted:
            raise Violation(f"a {what} query printed text")
        expect = []
        if not (case["stdin"] and case["stdout"]):
            if stream.log:
                raise Violation(f"off a tty, a {what} query wrote {stream.log!r}")
        elif what == "sync":
            expect = ["mode2026"]
        elif colour:
            expect = [QUERIES[what]] if case["direct"] else ["osc10", "osc11"]
        elif what == "pixels":
            expect = ["pixels"] * asked
        if sorted(stream.vt.queries) != expect:
            raise Violation(f"{what}: queries sent: {stream.vt.queries}, should be {expect}")
        obs.n("queries seen", len(expect))
        return got


CHECK = C26()
