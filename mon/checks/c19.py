"""C19: keys typed on a pseudo-terminal versus keys read; line settings before and after."""

import os
import signal
import termios
import threading
import time

import gen
from common import Check, Inconclusive, Violation
from ptylab import Pty, Watch, wait_blocked

# xterm key codes and what they are called
KEYS = {
    "\x1b": {"esc", "escape"}, "\x7f": {"backspace"}, "\x1b\x7f": {"alt-backspace"},
    "\x08": {"ctrl-backspace", "ctrl-h"}, "\t": {"tab", "ctrl-i"}, "\n": {"return", "ctrl-j"},
    "\r": {"ctrl-m"}, "\x1b[H": {"home"}, "\x1b[F": {"end"}, "\x1b[2~": {"insert"},
    "\x1b[3~": {"delete"}, "\x1b[Z": {"shift-tab"},
}
for _i, _d in enumerate(("up", "down", "right", "left")):
    _c = "ABCD"[_i]
    KEYS[f"\x1b[{_c}"] = {_d, f"arrow-{_d}"}
    for _n, _m in ((2, "shift"), (3, "alt"), (4, "alt-shift")):
        KEYS[f"\x1b[1;{_n}{_c}"] = {f"{_m}-{_d}", f"{_m}-arrow-{_d}"}
    KEYS[f"\x1b[1;5{_c}"] = {f"ctrl-{_d}"}
KEYS["\x1b[1;6A"] = {"ctrl-shift-up", "ctrl-shift-arrow-up"}
KEYS["\x1b[1;6B"] = {"ctrl-shift-down", "ctrl-shift-arrow-down"}
for _i in range(1, 27):
    KEYS.setdefault(chr(_i), {"ctrl-" + chr(96 + _i)})
for _i, _n in enumerate((11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 23, 24), 1):
    KEYS[f"\x1b[{_n}~"] = {f"F{_i}"}
for _i, _c in enumerate("PQRS", 1):
    KEYS[f"\x1bO{_c}"] = {f"F{_i}"}

# the name a key has as text, where it has several
PRIMARY = {"\x1b": "esc", "\x08": "ctrl-backspace", "\t": "tab", "\n": "return"}
for _k, _v in KEYS.items():
    if len(_v) > 1:
        PRIMARY.setdefault(_k, min(_v, key=len))

WIDE = "aé€😀ß漢z"
MOUSEY = "\x1b[<"

# streams need not be in UTF-8
ENCODINGS = {"latin-1": ["é", "naïve", "\xff\xfe", "a\xa4b", "Ã©"], "cp1252": ["€", "“q”"],
             "koi8-r": ["привет", "я"], "shift_jis": ["漢字", "ｱa"], "euc-jp": ["漢字かな"],
             "ascii": ["abc", "\x1b[A"], "gb18030": ["汉é", "a😀"]}


class C19(Check):
    id = "C19"
    quick, thorough = 5000, 120000
    required = ("reads", "characters read", "typed-ahead chunks", "chunks typed while waiting",
                "split characters", "named keys", "unknown keys", "interrupted reads",
                "settings compared", "cooked cases", "reads ended by an exception", "bursts",
                "bad bytes", "other encodings", "chunks typed after a while")
    rule = ("on a real pty per process: random byte streams in random chunks (splitting UTF-8), typed"
            " ahead or by a thread while the reader waits, in cooked/cbreak/raw settings with varied"
            " flags; every known key; Ctrl-C through the line discipline; results concatenated and"
            " compared, settings compared after every read; non-trivial: input in two chunks, or a key")
    assumptions = ["no incomplete UTF-8 followed by other text", "bytes the line discipline itself consumes are typed only when it is"
                   " told not to", "a stalled reader is unblocked by a sentinel after it has slept"]

    def setup(self):
        signal.signal(signal.SIGHUP, signal.SIG_IGN)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        self.pty = Pty()
        import fcntl
        try:
            fcntl.ioctl(self.pty.slave, termios.TIOCSCTTY, 0)
            self.controlling = True
        except OSError:
            self.controlling = False

    def enumerated(self, tier):
        out = []
        for k in sorted(KEYS):
            out.append({"mode": "key", "s": k, "raw": False, "tty": "raw", "v": 0})
            out.append({"mode": "key", "s": k, "raw": True, "tty": "raw", "v": 0})
            for s in (k + "\x00", "\x00" + k, k + " ", " " + k, k + k, k[:-1], k.swapcase(),
                      k + "\n", k.replace("[", "O"), k.replace("[", "[[")):
                if s and s not in KEYS:
                    out.append({"mode": "key", "s": s, "raw": False, "tty": "raw", "v": 0})
        for bad in (b"\xff", b"\x80", b"\xbf", b"\xfe", b"\xc0", b"\xf9"):
            for rest in ("", "x", "ok then", "é"):
                for t in ("raw", "cbreak"):
                    out.append({"mode": "bad", "bytes": list(bad), "rest": rest, "tty": t, "v": 0})
        for enc, texts in ENCODINGS.items():
            for text in texts:
                for t in ("raw", "cbreak"):
                    for split in (False, True):
                        out.append({"mode": "coded", "enc": enc, "text": text, "tty": t, "v": 0,
                                    "split": split})
        for text, cut in (("é", 1), ("a😀b", 2), ("a😀b", 4), ("€x", 1), ("x€", 2), ("ab", 1)):
            data = list(text.encode())
            for t in ("raw", "cbreak", "cooked"):
                out.append({"mode": "stream", "text": text, "tty": t, "v": 0, "seed": 1,
                            "chunks": [[data[:cut], "wait"], [data[cut:], "slow"]]})
        for _ in range(24 if tier == "quick" else 400):
            for t in ("cooked", "cbreak"):
                out.append({"mode": "int", "tty": t, "v": len(out) % 16, "how": len(out) % 2})
            for t in ("cooked", "cbreak", "raw"):
                out.append({"mode": "boom", "tty": t, "v": len(out) % 16, "raw": len(out) % 2})
        return out

    def generate(self, rng, tier, index):
        r = rng.random()
        if r < 0.12:
            return {"mode": "key", "s": rng.choice(sorted(KEYS)), "raw": rng.random() < 0.3,
                    "tty": "raw", "v": rng.randrange(8)}
        if r < 0.2:
            s = rng.choice(["\x1b[1;7A", "\x1b[99~", "\x1bx", "\x1b[5~", "\x1b[6~", "\x1b[E", "ab",
                            "\x1b\x1b[A", "é", "😀", "hello world", "\x1b[200~p\x1b[201~", "\x1b[A\x1b[A",
                            "\x1b[1;6C", "\x00", "\x1c", "\x1b[AA", "q"])
            return {"mode": "key", "s": s, "raw": rng.random() < 0.3, "tty": "raw",
                    "v": rng.randrange(8)}
        tty_mode = rng.choice(["raw", "raw", "cbreak", "cooked", "cooked"])
        alphabet = rng.choice([gen.PLAIN, gen.PLAIN + gen.TRICKY, WIDE, WIDE + "\x1b[A",
                               gen.UNICODE + gen.PLAIN])
        if tty_mode == "raw":
            alphabet += rng.choice(["", "\x00\x01\x03\x04\x0d\x11\x13\x15\x16\x1a\x1c\x7f\n\t"])
        elif tty_mode == "cooked" and rng.random() < 0.5:
            alphabet += "\n"
        n = rng.choice([1, 3, 10, 40, 200])
        if rng.random() < 0.04:
            # a paste: thousands of bytes at once
            n = rng.randint(500, 3500 // max(len(c.encode()) for c in alphabet))
            text = "".join(rng.choice(alphabet) for _ in range(n))
            return {"mode": "stream", "text": text, "chunks": [[list(text.encode()), "ahead"]],
                    "tty": rng.choice(["raw", "cbreak"]) if tty_mode == "cooked" else tty_mode,
                    "v": rng.randrange(16), "seed": 1, "burst": True}
        text = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, n)))
        data = text.encode()
        chunks = []
        while data:
            k = rng.choice([1, 1, 2, 3, rng.randint(1, 30), 200])
            chunks.append([list(data[:k]), rng.choice(["ahead", "ahead", "wait", "now"])])
            data = data[k:]
        if len(chunks) > 60:
            chunks = [[list(text.encode()), "ahead"]]
        return {"mode": "stream", "text": text, "chunks": chunks, "tty": tty_mode,
                "v": rng.randrange(16), "seed": rng.randrange(1 << 30)}

    def nontrivial(self, case):
        return case["mode"] != "stream" or len(case["chunks"]) > 1

    def shrinkable(self, case):
        return False

    def execute(self, case, obs):
        pty = self.pty
        pty.configure(case["tty"], case["v"])
        obs.n("cooked cases", case["tty"] == "cooked")
        try:
            if case["mode"] == "key":
                self.key(case, obs)
            elif case["mode"] == "int":
                self.interrupt(case, obs)
            elif case["mode"] == "bad":
                self.bad(case, obs)
            elif case["mode"] == "coded":
                self.coded(case, obs)
            elif case["mode"] == "boom":
                self.boom(case, obs)
            else:
                self.stream(case, obs)
        finally:
            pty.configure("raw")

    def settings(self, before, obs, what):
        after = self.pty.attrs()
        obs.n("settings compared")
        if after != before:
            names = ("iflag", "oflag", "cflag", "lflag", "ispeed", "ospeed", "cc")
            diff = {n: (b, a) for n, b, a in zip(names, before, after) if a != b}
            raise Violation(f"line settings after {what} (before, after): {diff}")

    def key(self, case, obs):
        from slate import getch

        s = case["s"]
        before = self.pty.attrs()
        self.pty.type(s.encode())
        self.pty.wait_pending(len(s.encode()))
        with Watch(self.pty) as watch:
            watch.armed.set()
            key = getch(stream=self.pty.stream, raw=case["raw"])
        self.settings(before, obs, "a key read")
        values = set(key)
        obs.n("reads")
        want = {s} if case["raw"] else KEYS.get(s, {s})
        obs.n("named keys" if s in KEYS else "unknown keys")
        if values != want:
            raise Violation(f"key: {s!r} (raw={case['raw']}) read as {sorted(values)}, should be"
                            f" {sorted(want)}")
        for name in want:
            if not key == name or key != name:
                raise Violation(f"the key read for {s!r} does not equal {name!r}")
        if str(key) != (str(key) if case["raw"] else PRIMARY.get(s, str(key))) or str(key) not in want:
            raise Violation(f"the key read for {s!r} prints as {str(key)!r}")
        for other in ("no such key", s + "x", None, 0, 1, True, s.encode(), [s], (s,), object()):
            if key == other or not key != other:
                raise Violation(f"the key read for {s!r} equals {other!r}")
        if self.pty.pending():
            raise Violation(f"key: reading {s!r} left {self.pty.pending()} bytes")

    def bad(self, case, obs):
        """A byte that is no text at all, then text."""

        from slate import getch

        before = self.pty.attrs()
        data = bytes(case["bytes"]) + case["rest"].encode()
        self.pty.type(data)
        self.pty.wait_pending(len(data))
        with Watch(self.pty) as watch:
            watch.armed.set()
            got = str(getch(stream=self.pty.stream, raw=True))
            self.settings(before, obs, "a read of bad bytes")
            if watch.fired and watch.SENTINEL in got:
                raise Violation(f"a read of {data!r} does not end")
            if not got.endswith(case["rest"]) or got == case["rest"]:
                raise Violation(f"{data!r} was read as {got!r}")
            self.pty.type(b"next")
            self.pty.wait_pending(4)
            got = str(getch(stream=self.pty.stream, raw=True))
            if got != "next":
                raise Violation(f"after reading {data!r}, 'next' was read as {got!r}")
        obs.n("bad bytes")

    def coded(self, case, obs):
        """Text in the encoding of the stream that is read."""

        from slate import getch

        before = self.pty.attrs()
        data = case["text"].encode(case["enc"])
        got, wanted = "", len(case["text"])
        with os.fdopen(os.dup(self.pty.slave), "r", encoding=case["enc"]) as stream:
            with Watch(self.pty) as watch:
                if case["split"]:
                    me = threading.get_native_id()
                    done = []

                    def typist():
                        wait_blocked(me, lambda: bool(done), settle=0.02, limit=5)
                        for i in range(len(data)):
                            self.pty.type(data[i:i + 1])
                            if i % 3:
                                wait_blocked(me, lambda: bool(done), settle=0.004, limit=5)
                        watch.armed.set()

                    t = threading.Thread(target=typist)
                    t.start()
                else:
                    self.pty.type(data)
                    self.pty.wait_pending(len(data))
                    watch.armed.set()
                try:
                    while len(got) < wanted and not watch.fired:
                        got += str(getch(stream=stream, raw=True))
                        self.settings(before, obs, "a key read")
                finally:
                    if case["split"]:
                        done.append(1)
                        t.join()
        obs.n("other encodings")
        if got != case["text"]:
            raise Violation(f"{case['text']!r} typed in {case['enc']} was read as {got!r}")

    def interrupt(self, case, obs):
        from slate import getch

        if case["how"] and not self.controlling:
            case = dict(case, how=0)
        before = self.pty.attrs()
        me = threading.get_native_id()
        done = []

        def press():
            if wait_blocked(me, lambda: bool(done)):
                if case["how"]:
                    self.pty.type(b"\x03")
                else:
                    signal.pthread_kill(threading.main_thread().ident, signal.SIGINT)
                if not wait_blocked(me, lambda: bool(done), settle=1.5):
                    return
                # still waiting: let it go with something else
                self.pty.type("\u00a4".encode())

        t = threading.Thread(target=press)
        t.start()
        try:
            try:
                key = getch(stream=self.pty.stream)
            finally:
                done.append(1)
            t.join()
        except KeyboardInterrupt:
            t.join()
            self.settings(before, obs, "an interrupted read")
            raise Violation("ctrl-c: the interrupt escaped from the key read")
        self.settings(before, obs, "an interrupted read")
        obs.n("interrupted reads")
        if not key == "ctrl-c":
            raise Violation(f"ctrl-c was read as {list(key)}")

    def boom(self, case, obs):
        """A signal handler raises while the key is awaited."""

        from slate import getch

        class Boom(Exception):
            pass

        def handler(*_):
            raise Boom

        old = signal.signal(signal.SIGUSR1, handler)
        before = self.pty.attrs()
        me = threading.get_native_id()
        done = []

        def press():
            if wait_blocked(me, lambda: bool(done)):
                signal.pthread_kill(threading.main_thread().ident, signal.SIGUSR1)

        t = threading.Thread(target=press)
        t.start()
        try:
            try:
                key = getch(stream=self.pty.stream, raw=bool(case["raw"]))
            finally:
                done.append(1)
            raise Violation(f"an exception raised during a key read was replaced by {list(key)}")
        except Boom:
            obs.n("reads ended by an exception")
        finally:
            t.join()
            signal.signal(signal.SIGUSR1, old)
        self.settings(before, obs, "a read ended by an exception")

    def stream(self, case, obs):
        from slate import getch
        import random

        pty, text = self.pty, case["text"]
        obs.n("bursts", bool(case.get("burst")))
        rng = random.Random(case["seed"])
        before = pty.attrs()
        chunks = [(bytes(c), how) for c, how in case["chunks"]]
        me = threading.get_native_id()
        got = ""
        split = False
        typed = b""
        finished = threading.Event()
        stop = []
        ahead = [c for c, how in chunks if how == "ahead"]
        k = 0
        # everything up to the first chunk not typed ahead is there before the first read
        while k < len(chunks) and chunks[k][1] == "ahead":
            pty.type(chunks[k][0])
            typed += chunks[k][0]
            obs.n("typed-ahead chunks")
            k += 1
        if typed and case["tty"] != "cooked":
            pty.wait_pending(len(typed))
        whole = self.complete(typed)

        def typist():
            nonlocal split
            for c, how in chunks[k:]:
                if stop:
                    return
                if how == "wait":
                    wait_blocked(me, lambda: bool(stop), settle=0.004, limit=5)
                    obs.n("chunks typed while waiting")
                elif how == "slow":
                    time.sleep(1.3)
                    obs.n("chunks typed after a while")
                elif how == "ahead":
                    time.sleep(rng.random() * 0.001)
                pty.type(c)
                try:
                    c.decode()
                except UnicodeDecodeError:
                    obs.n("split characters")
            finished.set()

        t = threading.Thread(target=typist)
        with Watch(pty) as watch:
            t.start()

            def arm():
                finished.wait()
                watch.armed.set()

            armer = threading.Thread(target=arm)
            armer.start()
            first = True
            try:
                while len(got.rstrip(Watch.SENTINEL)) < len(text) and not (
                        watch.fired and got.endswith(Watch.SENTINEL)):
                    key = getch(stream=pty.stream, raw=True)
                    obs.n("reads")
                    values = list(key)
                    if len(values) != 1:
                        raise Violation(f"a raw read returned {values}")
                    got += values[0]
                    self.settings(before, obs, "a read")
                    pty.drain()
                    if first and k == len(chunks) and case["tty"] != "cooked" and got != text:
                        raise Violation(f"everything was there, but one read returned {got!r} of"
                                        f" {text!r}")
                    first = False
                    if not text.startswith(got.rstrip(Watch.SENTINEL)):
                        break
            finally:
                stop.append(1)
                finished.set()
                t.join()
                armer.join()
        want = text
        obs.n("characters read", len(got))
        if got.rstrip(Watch.SENTINEL) != want:
            raise Violation(f"typed {want!r}, read {got.rstrip(Watch.SENTINEL)!r}")
        obs.state("chunkings", tuple(map(str, case["chunks"])))

    @staticmethod
    def complete(data):
        return data


CHECK = C19()
