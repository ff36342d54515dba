"""C20: history of feeds and reads, checked for exactly-once, integrity and order."""

import io
import os
import re
import signal
import threading
import time

import gen
from common import Check, Inconclusive, Violation
from checks.c19 import KEYS
from perturb import Perturb
from ptylab import Pty, Watch, wait_blocked

TAG = re.compile(r"\{(\d+)\.(\d+):([^{}]*)\}")
PUMP = "~"
PAYLOAD = "abcXYZ019 ;[]mHé€😀漢\n\t"


class C20(Check):
    id = "C20"
    quick, thorough = 3200, 120000
    required = ("feeds", "fed reads", "typed reads", "concurrent feeds", "feeds between two reads",
                "settings compared", "perturbation points", "feeds while a read waits",
                "reads leaving typed input alone", "several feeds before a read", "named keys fed",
                "reads woken by feeds alone", "feeds in a forked child", "empty feeds",
                "fed and typed while a read waits")
    rule = ("single-thread histories of feeds, typing and reads against a queue model; several threads"
            " feeding tagged texts while the main thread reads a pty, with random yields at bytecodes of"
            " slate.core; feeds that alone wake a blocked read; the recorded history is checked offline for"
            " exactly-once, integrity and per-thread order; non-trivial: two feeds, or concurrency")
    assumptions = ["one reading thread", "a read in progress when text is fed may finish with typed input"
                   " first"]

    def setup(self):
        self.pty = Pty()
        self.watch = Watch(self.pty)
        self.watch.__enter__()

    def enumerated(self, tier):
        return ([{"mode": "blocked", "s": s, "tty": t, "how": how} for s in ("x", "hello\x1b[A", "é😀")
                 for t in ("raw", "cooked", "cbreak") for how in ("getch", "timeout")]
                + [{"mode": "blocked", "s": s, "tty": t, "how": how, "empty": n} for s in ("x", "\n")
                   for t in ("raw", "cooked") for how in ("getch", "timeout") for n in (1, 3)]
                + [{"mode": "forked", "s": s} for s in ("x", "hello")]
                + [{"mode": "both", "typed": t, "fed": f, "how": how, "tty": mode}
                   for t, f in (("t", "f"), ("typed", "x"), ("k", "\x1b[A"), ("é", "é"))
                   for how in ("getch", "timeout") for mode in ("raw", "cbreak")]
                + [{"mode": "keys", "s": s} for s in sorted(KEYS)]
                + [{"mode": "sync", "tty": "raw", "v": 0,
                    "ops": [["feed", "0123456789é" * n], ["feed", "x"], ["type", "k"], ["read", how],
                            ["read", how]]} for n in (400, 2000, 20000) for how in ("getch", "timeout")]
                + [{"mode": "sync", "tty": "raw", "v": 0,
                    "ops": [["feed", f"{i},"] for i in range(n)] + [["read", "getch"]]}
                   for n in (300, 70000)]
                + [{"mode": "threads", "texts": [["abé" * n, "c", "d" * n] for _ in range(3)],
                    "pace": [0, 0, 0], "rate": 0.02, "nap": 0.0001, "typed": [], "pump": pump,
                    "how": "getch", "seed": n} for n in (3000, 30000) for pump in (True, False)])

    def generate(self, rng, tier, index):
        if rng.random() < 0.55:
            ops = []
            for _ in range(rng.randint(1, 14)):
                r = rng.random()
                if r < 0.45:
                    ops.append(["feed", self.text(rng) if rng.random() < 0.9 else ""])
                elif r < 0.6:
                    ops.append(["type", self.text(rng)])
                elif r < 0.9:
                    ops.append(["read", rng.choice(["getch", "getch", "timeout"])])
                elif r < 0.95:
                    ops.append(["notty"])
                else:
                    ops.append(["name", rng.choice(sorted(KEYS))])
            return {"mode": "sync", "ops": ops, "tty": rng.choice(["raw", "cbreak", "cooked"]),
                    "v": rng.randrange(8)}
        n = rng.choice([1, 2, 2, 3, 4, 8])
        return {"mode": "threads",
                "texts": [[self.payload(rng) for _ in range(rng.randint(1, 60 // n))] for _ in range(n)],
                "pace": [rng.choice([0, 0, 0.0002, 0.002]) for _ in range(n)],
                "rate": rng.choice([0, 0.02, 0.1, 0.3]), "nap": rng.choice([0.0001, 0.001]),
                "typed": [rng.choice("!@#$%^&*") for _ in range(rng.choice([0, 0, 3]))],
                "pump": rng.random() < 0.5, "how": rng.choice(["getch", "timeout"]),
                "seed": rng.randrange(1 << 30)}

    @staticmethod
    def text(rng):
        return rng.choice([rng.choice(PAYLOAD), gen.text(rng, 1, 6), rng.choice(sorted(KEYS)),
                           gen.text(rng, 1, 40), "é漢😀"])

    @staticmethod
    def payload(rng):
        n = rng.choice([0, 1, 5, 30, 300])
        return "".join(rng.choice(PAYLOAD) for _ in range(n))

    def nontrivial(self, case):
        return case["mode"] != "sync" or sum(o[0] == "feed" for o in case["ops"]) > 1

    def shrinkable(self, case):
        return case["mode"] == "sync"

    def valid(self, case):
        return all(len(o) < 2 or o[0] in ("read",) and o[1] in ("getch", "timeout")
                   or o[0] == "name" and o[1] in KEYS or o[0] == "feed" or o[0] == "type" and o[1]
                   for o in case["ops"]) and case["tty"] in ("raw", "cbreak", "cooked")

    def execute(self, case, obs):
        self.pty.configure(case.get("tty", "raw"), case.get("v", 0))
        self.flush()
        before = self.pty.attrs()
        try:
            getattr(self, case["mode"])(case, obs)
        finally:
            self.flush()
            self.pty.configure("raw")
        obs.n("settings compared")

    def flush(self):
        """Takes whatever a violated case left fed."""

        from slate import getch
        self.pty.discard()
        for _ in range(3):
            self.pty.type(b"\n")
            self.watch.armed.set()
            got = str(getch(stream=self.pty.stream, raw=True))
            self.watch.armed.clear()
            self.pty.discard()
            if got == "\n":
                return

    def read(self, how="getch", raw=True):
        from slate import getch, getch_timeout

        self.watch.armed.set()
        try:
            if how == "timeout":
                return getch_timeout(30.0, stream=self.pty.stream, raw=raw)
            return getch(stream=self.pty.stream, raw=raw)
        finally:
            self.watch.armed.clear()

    def both(self, case, obs):
        """While a read waits, a signal handler has something typed, then feeds."""

        from slate import feed

        me, done = threading.get_native_id(), []
        data = case["typed"].encode()

        def handler(*_):
            self.pty.type(data)
            self.pty.wait_pending(len(data))
            feed(case["fed"])

        def press():
            if wait_blocked(me, lambda: bool(done)):
                signal.pthread_kill(threading.main_thread().ident, signal.SIGUSR1)

        old = signal.signal(signal.SIGUSR1, handler)
        t = threading.Thread(target=press)
        t.start()
        try:
            first = str(self.read(case["how"]))
        finally:
            done.append(1)
            t.join()
            signal.signal(signal.SIGUSR1, old)
        obs.n("fed and typed while a read waits")
        if first != case["fed"]:
            raise Violation(f"with {case['typed']!r} typed and {case['fed']!r} fed while a read waits,"
                            f" it returned {first!r}")
        second = str(self.read(case["how"]))
        if second != case["typed"]:
            raise Violation(f"{case['typed']!r} typed before a feed was read as {second!r}")

    # -- one thread --------------------------------------------------------------
    def keys(self, case, obs):
        from slate import feed

        feed(case["s"])
        key = self.read(raw=False)
        obs.n("named keys fed")
        if set(key) != KEYS[case["s"]]:
            raise Violation(f"fed {case['s']!r}, read {list(key)}")

    def sync(self, case, obs):
        from slate import feed, getch

        pty = self.pty
        before = pty.attrs()
        fed, typed, since = "", "", 0
        for op in case["ops"]:
            if op[0] == "feed":
                feed(op[1])
                fed += op[1]
                since += 1
                obs.n("feeds")
                obs.n("several feeds before a read", since > 1)
            elif op[0] == "type":
                data = op[1]
                if case["tty"] != "raw":
                    data = re.sub(r"[^\w ]", "k", data) + "\n"
                pty.type(data.encode())
                typed += data
                pty.wait_pending(len(typed.encode()))
            elif op[0] == "notty":
                got = str(getch(stream=io.StringIO("zzz"), raw=True))
                if not fed.startswith(got):
                    raise Violation(f"a read off a tty gave {got!r}, with {fed!r} fed")
                fed = fed[len(got):]
            elif op[0] == "name":
                if fed:
                    continue
                feed(op[1])
                got = set(self.read(raw=False))
                if got != KEYS[op[1]]:
                    raise Violation(f"fed {op[1]!r}, read {sorted(got)}")
                obs.n("named keys fed")
            elif fed:
                since = 0
                got = str(self.read(op[1]))
                obs.n("fed reads")
                if not got or not fed.startswith(got):
                    raise Violation(f"with {fed!r} fed and {typed!r} typed, a read returned {got!r}")
                fed = fed[len(got):]
                if typed:
                    obs.n("reads leaving typed input alone")
                    if pty.pending() != len(typed.encode()):
                        raise Violation("reading fed text consumed typed input")
            elif typed:
                got = str(self.read(op[1]))
                obs.n("typed reads")
                if not got or not typed.startswith(got):
                    raise Violation(f"with {typed!r} typed, a read returned {got!r}")
                typed = typed[len(got):]
            if pty.attrs() != before:
                raise Violation(f"settings changed by {op[0]}")
        # what is left, then a marker to prove there is nothing else
        for _ in range(len(fed)):
            if not fed:
                break
            got = str(self.read())
            if not got or not fed.startswith(got):
                raise Violation(f"left with {fed!r} fed, a read returned {got!r}")
            fed = fed[len(got):]
        marker = "\u2026" if case["tty"] == "raw" else "\u2026\n"
        pty.type(marker.encode())
        typed += marker
        while typed:
            got = str(self.read())
            if not got or not typed.startswith(got):
                raise Violation(f"with {typed!r} typed at the end, a read returned {got!r}")
            typed = typed[len(got):]
        if pty.attrs() != before:
            raise Violation("settings changed")
        obs.state("histories", str(case["ops"]))

    # -- feeding while a read waits ------------------------------------------------
    def blocked(self, case, obs):
        from slate import feed, getch, getch_timeout

        pty, me = self.pty, threading.get_native_id()
        before = pty.attrs()
        state = {"done": False, "typed": False, "fed": False}

        def feeder():
            if not wait_blocked(me, lambda: state["done"], settle=0.05):
                return
            for _ in range(case.get("empty", 0)):
                feed("")
                obs.n("empty feeds")
                if not wait_blocked(me, lambda: state["done"], settle=0.05):
                    state["fed"] = True
                    return
            feed(case["s"])
            state["fed"] = True
            if wait_blocked(me, lambda: state["done"], settle=4.0, limit=60):
                state["typed"] = True
                pty.type(b"k" if case["tty"] != "cooked" else b"k\n")

        t = threading.Thread(target=feeder)
        t.start()
        try:
            if case.get("how") == "timeout":
                first = str(getch_timeout(100.0, stream=pty.stream, raw=True))
            else:
                first = str(getch(stream=pty.stream, raw=True))
        finally:
            state["done"] = True
            t.join()
        if not state["fed"]:
            raise Inconclusive("the read did not wait")
        obs.n("feeds while a read waits")
        if state["typed"]:
            raise Violation(f"fed {case['s']!r} to a waiting read, which went on waiting")
        if first != case["s"]:
            raise Violation(f"fed {case['s']!r} to a waiting read, which returned {first!r}")
        if pty.attrs() != before:
            raise Violation("settings changed")

    def forked(self, case, obs):
        """A child's feeds are its own: its reads return them, its parent's do not."""

        from slate import feed, getch

        pty = self.pty
        feed(case["s"] + "before")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                threading.Timer(100, os._exit, (9,)).start()
                got = str(getch(stream=pty.stream, raw=True))
                me = threading.get_native_id()

                def feeder():
                    if wait_blocked(me, settle=0.05):
                        feed(case["s"] + "child")

                threading.Thread(target=feeder, daemon=True).start()
                got += "," + str(getch(stream=pty.stream, raw=True))
                os.write(w, got.encode())
            finally:
                os._exit(0)
        os.close(w)
        got = b""
        while data := os.read(r, 1000):
            got += data
        os.close(r)
        os.waitpid(pid, 0)
        want = f"{case['s']}before,{case['s']}child"
        if got.decode() != want:
            raise Violation(f"a forked child read {got.decode()!r}, should be {want!r}")
        mine = str(self.read())
        if mine != case["s"] + "before":
            raise Violation(f"after a child took its copy of the fed text, the parent read {mine!r}")
        pty.type(b"m")
        pty.wait_pending(1)
        mine = str(self.read())
        if mine != "m":
            raise Violation(f"a child's feed reached the parent, which read {mine!r}")
        obs.n("feeds in a forked child")

    # -- several threads --------------------------------------------------------
    def threads(self, case, obs):
        from slate import core, feed, getch, getch_timeout

        pty = self.pty
        before = pty.attrs()
        me = threading.get_native_id()
        stop = threading.Event()
        log = []  # (what, thread, index)
        pumped = [0]
        total = sum(len(t) for t in case["texts"])

        def feeder(k):
            for i, payload in enumerate(case["texts"][k]):
                if case["pace"][k]:
                    time.sleep(case["pace"][k])
                feed("{%d.%d:%s}" % (k, i, payload))
                log.append(("fed", k, i))

        lost = []

        def pump():
            """Keeps the reader from waiting for ever for typed input."""

            while not stop.is_set():
                if pty.pending() == 0 and wait_blocked(me, stop.is_set, settle=0.003, limit=1):
                    if pty.pending() == 0 and not stop.is_set():
                        pumped[0] += 1
                        pty.type(PUMP.encode())
                time.sleep(0.001)

        def closer():
            """Only feeds wake the reader; releases it if one did not."""

            for w in workers:
                w.join(60)
            feed("{END}")
            if wait_blocked(me, stop.is_set, settle=4.0, limit=100) and not stop.is_set():
                lost.append(1)
                pumped[0] += 1
                pty.type(PUMP.encode())

        workers = [threading.Thread(target=feeder, args=(k,), name=f"f{k}", daemon=True)
                   for k in range(len(case["texts"]))]
        pumper = threading.Thread(target=pump if case["pump"] else closer)
        reads = []
        with Perturb(core, case["seed"], case["rate"], case["nap"]) as perturb:
            for w in workers:
                w.start()
            pumper.start()
            try:
                closing, idle, marks = False, 0, 0
                while True:
                    alive = any(w.is_alive() for w in workers)
                    if case["how"] == "timeout":
                        got = str(getch_timeout(90.0, stream=pty.stream, raw=True))
                    else:
                        got = str(getch(stream=pty.stream, raw=True))
                    reads.append(got)
                    log.append(("read", len(got), 0))
                    if "{END}" in got:
                        break
                    if lost:
                        raise Violation("text was fed to a waiting read, which went on waiting")
                    idle = idle + 1 if len(log) == marks + 1 and set(got) == {PUMP} else 0
                    marks = len(log)
                    if idle > 1000:
                        if alive:
                            raise Violation("a feeding thread is stuck")
                        break
                    if case["pump"] and not alive and not closing:
                        feed("{END}")
                        closing = True
                    if pty.attrs() != before:
                        raise Violation("settings changed by a read")
            finally:
                stop.set()
                pumper.join()
                for w in workers:
                    w.join(5)
            # typed input still there must be exactly what was pumped
            rest = pumped[0] - sum(r.count(PUMP) for r in reads)
        end = time.monotonic() + 10
        while pty.pending() < rest and time.monotonic() < end:
            time.sleep(0.001)  # the kernel is still passing it on
        if rest < 0 or pty.pending() != rest:
            raise Violation(f"typed input: {pumped[0]} typed, {sum(r.count(PUMP) for r in reads)} read,"
                            f" {pty.pending()} left")
        obs.n("concurrent feeds", total)
        obs.n("reads woken by feeds alone", 0 if case["pump"] else len(reads))
        obs.n("feeds", total)
        obs.n("perturbation points", perturb.points)
        obs.state("instruction interleavings", perturb.trace)
        obs.state("feed/read orders", tuple(log))
        last = None
        for e in log:
            if e[0] == "fed" and last == "read":
                obs.n("feeds between two reads")
            last = e[0]
        self.check_history(case, reads, obs)
        if pty.attrs() != before:
            raise Violation("settings changed")

    @staticmethod
    def check_history(case, reads, obs):
        for r in reads:
            if set(r) == {PUMP}:
                obs.n("typed reads")
            elif PUMP in r:
                raise Violation(f"a read mixed typed and fed text: {r[:200]!r}")
            elif not r:
                raise Violation("a read returned nothing")
            else:
                obs.n("fed reads")
        stream = "".join(r for r in reads if PUMP not in r)
        if not stream.endswith("{END}"):
            raise Violation(f"the last fed text never arrived; read ...{stream[-80:]!r}")
        stream = stream[:-5]
        pos, nxt = 0, [0] * len(case["texts"])
        while pos < len(stream):
            m = TAG.match(stream, pos)
            if m is None:
                raise Violation(f"fed text broken at ...{stream[max(0, pos - 30):pos + 60]!r}")
            k, i = int(m[1]), int(m[2])
            if k >= len(nxt) or i >= len(case["texts"][k]) or i < nxt[k]:
                raise Violation(f"text {i} of thread {k} read again or out of order (next is"
                                f" {nxt[k] if k < len(nxt) else None})")
            if i > nxt[k]:
                raise Violation(f"text {nxt[k]} of thread {k} lost or overtaken")
            if m[3] != case["texts"][k][i]:
                raise Violation(f"text {i} of thread {k} damaged: {m[3]!r}")
            nxt[k] += 1
            pos = m.end()
        if nxt != [len(t) for t in case["texts"]]:
            raise Violation(f"texts lost at the end: {nxt} of {[len(t) for t in case['texts']]}")


CHECK = C20()
