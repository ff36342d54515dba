"""C21: what a timeout does to the block, the alarm, its handler, the key read and the tty."""

import gc
import os
import select
import signal
import sys
import threading
import time

from common import Check, Reach, Violation
from checks.c19 import KEYS
from ptylab import Pty, Watch, wait_blocked


class Own(Exception):
    pass


EXCS = {"own": Own, "value": ValueError, "key": KeyboardInterrupt, "exit": SystemExit,
        "timeout": TimeoutError, "os": OSError, "genexit": GeneratorExit, "stop": StopIteration,
        "base": BaseException, "exception": Exception, "interrupted": InterruptedError}

LONG = 3.0


class Exits:
    """A context manager that takes its time to clean up."""

    def __init__(self, log, length=0.05):
        self.log, self.length = log, length

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        time.sleep(self.length)
        self.log.append(1)


class Slow:
    """Its destructor swallows exceptions, as all do."""

    def __del__(self):
        hook, sys.unraisablehook = sys.unraisablehook, lambda *_: None
        UNHOOK.append(hook)
        time.sleep(0.06)


UNHOOK = []


class C21(Check):
    id = "C21"
    quick, thorough = 2600, 60000
    required = ("blocks finished in time", "blocks abandoned", "own exceptions", "keys read in time",
                "typed while waiting", "defaults returned", "handlers compared", "timers compared",
                "settings compared", "durations compared", "very short times",
                "clean-ups", "reads after a timeout", "reads without waiting", "half characters", "reads in other threads")
    rule = ("random sequences of timed blocks (finishing, overrunning in sleep/select/read/lock/busy"
            " waits, raising) and timed key reads on a pty (typed ahead, while waiting, never, fed)"
            " under default/ignored/function alarm handlers; after each the pending timer, handler and"
            " line settings are read back; non-trivial: all")
    assumptions = ["blocks run in the main thread", "no alarm of the application's own is pending",
                   "half a character typed before the time is up need not be kept"]

    def setup(self):
        self.pty = Pty()
        self.calls = []
        self.watch = Watch(self.pty, settle=1.5)
        self.watch.__enter__()

    def generate(self, rng, tier, index):
        steps = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.25:
                steps.append(["fast", rng.choice([0.02, 0.5, 5, 60]),
                              rng.choice(["pass", "work", "sleep", "return", "break", "nosig"])])
            elif r < 0.45:
                steps.append(["slow", rng.choice([0.01, 0.02, 0.05]),
                              rng.choice(["sleep", "select", "read", "lock", "busy", "naps", "event", "tidy",
                                          "tidy", "exits"])])
            elif r < 0.455:
                steps.append(["slow", 0.02, "destructor"])
            elif r < 0.62:
                steps.append(["raise", rng.choice([0.05, 1, 30]), rng.choice(sorted(EXCS))])
            elif r < 0.64:
                steps.append(["length", rng.choice([0.01, 0.02, 0.2, 0.3])])
            elif r < 0.68:
                steps.append(["brief", rng.choice(["key", "sleep", "raise", "empty", "busy"]),
                              [rng.choice([5, 20, 50, 100, 200, 400, 1000]) for _ in range(4)]])
            elif r < 0.69:
                steps.append(["zero", rng.choice(["key", "none"]),
                              rng.choice(["q", "é", "hello", "\x1b[A", "\t"]), rng.random() < 0.5])
            elif r < 0.715:
                steps.append(["worker", rng.choice(["key", "none"]),
                              rng.choice(["q", "é", "\x1b[A", "hello"]), rng.random() < 0.5])
            elif r < 0.8:
                s = rng.choice(sorted(k for k in KEYS if k != "\x03") + ["q", "é", "😀", "hello"])
                steps.append(["key", rng.choice(["ahead", "ahead", "wait", "fed"]), s,
                              rng.random() < 0.3, rng.choice([5, 20.0, 60])])
            else:
                steps.append(["none", rng.choice([0.015, 0.03, 0.05]),
                              rng.choice([None, "", "x", "\x1b[4;1;2t", "unset"]), rng.random() < 0.3])
        return {"steps": steps, "handler": rng.choice(["default", "ignore", "function", "lambda"]),
                "tty": rng.choice(["raw", "raw", "cbreak", "cooked"]), "v": rng.randrange(8)}

    def enumerated(self, tier):
        return [{"steps": [["instant", k]], "handler": "function", "tty": "raw", "v": 0}
                for k in ("q", "\x1b[A", "hello")] + [
            {"steps": [["partial", 0.1], ["key", "ahead", "q", True, 5]], "handler": "function",
             "tty": t, "v": 0} for t in ("raw", "cbreak")] + [
            {"steps": [["late", d]], "handler": "function", "tty": t, "v": 0}
            for t in ("raw", "cbreak") for d in (0.2, 0.5)] + [
            {"steps": [["slow", 0.02, how]], "handler": "function", "tty": "raw", "v": 0}
            for how in ("longtidy", "longexits", "longhandler")]

    def shrinkable(self, case):
        return True

    def valid(self, case):
        for s in case["steps"]:
            if s[0] in ("instant", "partial", "worker", "late", "zero"):
                continue
            if s[0] == "brief":
                if not all(isinstance(d, int) and d > 0 for d in s[2]):
                    return False
                continue
            if s[0] != "key" and len(s) > 1 and not (isinstance(s[1], (int, float)) and s[1] > 0):
                return False
            if s[0] != "key" and len(s) > 1 and s[1] < 0.01 or s[0] == "fast" and s[1] < 0.02:
                return False
            if s[0] == "key" and (s[4] < 5 or not s[2]):
                return False
        return case["handler"] in ("default", "ignore", "function", "lambda") and case["tty"] in (
            "raw", "cbreak", "cooked")

    def handler(self, signum, frame):
        self.calls.append(signum)

    def execute(self, case, obs):
        self.pty.configure(case["tty"], case["v"])
        previous = {"default": signal.SIG_DFL, "ignore": signal.SIG_IGN, "function": self.handler,
                    "lambda": lambda s, f: self.calls.append(s)}[case["handler"]]
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)
        self.calls.clear()
        before = self.pty.attrs()
        try:
            for step in case["steps"]:
                start = time.monotonic()
                getattr(self, "do_" + step[0])(*step[1:], case=case, obs=obs)
                timer = signal.getitimer(signal.ITIMER_REAL)
                if timer != (0.0, 0.0):
                    raise Violation(f"an alarm is left pending after {step}: {timer}")
                obs.n("timers compared")
                now = signal.getsignal(signal.SIGALRM)
                # bound methods are equal, not identical
                if now != previous:
                    raise Violation(f"the alarm handler after {step} is {now}, was {previous}")
                obs.n("handlers compared")
                if self.pty.attrs() != before:
                    raise Violation(f"line settings changed by {step}")
                obs.n("settings compared")
                if self.calls:
                    raise Violation(f"the application's alarm handler was called during {step}")
                obs.state("steps", str(step))
            if case["handler"] in ("function", "lambda"):
                # the handler is really back
                os.kill(os.getpid(), signal.SIGALRM)
                if not self.calls:
                    raise Violation("the application's alarm handler is not called any more")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            self.pty.configure("raw")

    # -- blocks ----------------------------------------------------------------
    def do_fast(self, d, how, case, obs):
        from slate.core import timeout

        done = []

        def body():
            for _ in range(2):
                with timeout(d):
                    if how == "work":
                        sum(range(200))
                    elif how == "sleep":
                        time.sleep(0 if d < 1 else 0.005)
                    elif how == "nosig":
                        os.kill(os.getpid(), 0)
                    done.append(1)
                    if how == "return":
                        return "value"
                    if how == "break":
                        break
                    done.append(2)
                if how not in ("return", "break"):
                    done.append(3)
                    return "end"
            return "broke"

        begin = time.monotonic()
        got = body()
        if d < 1 and time.monotonic() - begin > d * 0.8:
            return  # not in time after all
        want = {"return": "value", "break": "broke"}.get(how, "end")
        if got != want or done != ([1] if how in ("return", "break") else [1, 2, 3]):
            raise Violation(f"a block that ended in time ({how}) was cut: {got} {done}")
        obs.n("blocks finished in time")

    def do_slow(self, d, how, case, obs):
        from slate.core import timeout

        done, inside, tidy = [], [], []
        r, w = os.pipe()
        helper = None
        if how == "read":
            helper = threading.Timer(LONG, os.write, (w, b"x"))
            helper.start()
        begin = time.monotonic()
        try:
            with timeout(d):
                done.append(1)
                if how == "sleep":
                    time.sleep(LONG)
                elif how == "select":
                    select.select([r], [], [], LONG)
                elif how == "read":
                    os.read(r, 1)
                elif how == "lock":
                    lock = threading.Lock()
                    with lock:
                        lock.acquire(timeout=LONG)
                elif how == "event":
                    threading.Event().wait(LONG)
                elif how == "busy":
                    while time.monotonic() - begin < LONG:
                        pass
                elif how == "tidy":
                    try:
                        inside.append(1)
                        time.sleep(LONG)
                    finally:
                        time.sleep(0.04)
                        try:
                            raise Own
                        except Own:
                            time.sleep(0.02)
                        tidy.append(1)
                elif how == "longtidy":
                    try:
                        inside.append(1)
                        time.sleep(LONG)
                    finally:
                        # longer than any sensible pause between alarms
                        try:
                            raise Own
                        except Own:
                            time.sleep(1.3)
                        time.sleep(0.3)
                        tidy.append(1)
                elif how == "longhandler":
                    try:
                        inside.append(1)
                        time.sleep(LONG)
                    except Exception as exc:  # pylint: disable=broad-except
                        time.sleep(1.3)
                        try:
                            raise Own from None
                        except Own:
                            time.sleep(0.6)
                        tidy.append(1)
                        raise exc
                elif how == "longexits":
                    with Exits(tidy, 1.3):
                        inside.append(1)
                        time.sleep(LONG)
                elif how == "exits":
                    with Exits(tidy):
                        inside.append(1)
                        time.sleep(LONG)
                elif how == "destructor":
                    slow = Slow()
                    del slow
                    time.sleep(LONG)
                else:
                    for _ in range(30):
                        time.sleep(LONG / 30)
                done.append(2)
        finally:
            if UNHOOK:
                sys.unraisablehook = UNHOOK.pop()
            if helper:
                helper.cancel()
                helper.join()
            os.close(r)
            os.close(w)
        took = time.monotonic() - begin
        if inside:
            obs.n("clean-ups")
            if tidy != [1]:
                raise Violation(f"the clean-up ({how}) of an abandoned block was cut short")
        if 2 in done:
            raise Violation(f"a block waiting {LONG} s ({how}) was not abandoned after {d} s")
        if done == [1] and took < 0.9 * d:
            raise Violation(f"a block was abandoned after {took} s instead of {d} s")
        obs.n("blocks abandoned")

    def do_length(self, d, case, obs):
        """The time is neither longer nor shorter than asked for (retried if the machine is slow)."""

        from slate.core import timeout

        tries = []
        for _ in range(8 if d > 0.1 else 60):
            begin = time.monotonic()
            with timeout(d):
                time.sleep(LONG)
            tries.append(time.monotonic() - begin)
            if tries[-1] < 0.9 * d:
                raise Violation(f"a block was abandoned after {tries[-1]} s instead of {d} s")
            if tries[-1] < max(1.6 * d, d + 0.025):
                obs.n("durations compared")
                return
        raise Violation(f"a block under a timeout of {d} s was abandoned only after {tries} s")

    def do_raise(self, d, what, case, obs):
        from slate.core import timeout

        exc = EXCS[what]("mine")
        begin = time.monotonic()
        try:
            with timeout(d):
                raise exc
        except BaseException as got:  # pylint: disable=broad-except
            if time.monotonic() - begin > d * 0.5:
                return
            if got is not exc:
                raise Violation(f"{exc!r} raised in a block came out as {got!r}") from None
            obs.n("own exceptions")
            return
        if time.monotonic() - begin > d * 0.5:
            return
        raise Violation(f"{exc!r} raised in a block was swallowed")

    def do_brief(self, how, micros, case, obs):
        """Times so short that the alarm may come anywhere, even before the block is entered."""

        # an alarm handled in a callback of the interpreter's (our line monitor, the collector's
        # weak references) says nothing about Slate
        events = sys.monitoring.get_events(Reach.TOOL) if sys.monitoring.get_tool(Reach.TOOL) else None
        gc.disable()
        if events:
            sys.monitoring.set_events(Reach.TOOL, 0)
        try:
            for us in micros:
                self.one_brief(how, us, obs)
        finally:
            gc.enable()
            if events:
                sys.monitoring.set_events(Reach.TOOL, events)

    def one_brief(self, how, us, obs):
        from slate import getch_timeout
        from slate.core import timeout

        d = us / 1e6
        if how == "key":
            got = getch_timeout(d, default="none", stream=self.pty.stream)
            if got != "none":
                raise Violation(f"nothing typed for {us} us: the read returned {got!r}")
        else:
            mine, ended = Own("mine"), False
            try:
                with timeout(d):
                    begin = time.monotonic()
                    if how == "sleep":
                        time.sleep(LONG)
                        ended = True
                    elif how == "busy":
                        while time.monotonic() - begin < LONG:
                            pass
                        ended = True
                    elif how == "raise":
                        raise mine
            except Own as exc:
                if exc is not mine:
                    raise
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(f"{exc!r} came out of a block under a timeout of {us} us"
                                f" ({how})") from None
            if ended:
                raise Violation(f"a block waiting {LONG} s ({how}) was not abandoned after"
                                f" {us} us")
        timer = signal.getitimer(signal.ITIMER_REAL)
        if timer != (0.0, 0.0):
            raise Violation(f"an alarm is left pending after {us} us ({how}): {timer}")
        obs.n("very short times")

    def do_instant(self, key, case, obs):
        """The time is up just when the key has been taken off the terminal: it is not lost."""

        from slate import getch_timeout

        real = os.read
        late = []

        def read(fd, n):
            data = real(fd, n)
            if fd != self.pty.master and not late and data and data in key.encode():
                late.append(1)
                begin = time.monotonic()
                time.sleep(0.3)
                while time.monotonic() - begin < 0.3:
                    pass
            return data

        self.pty.type(key.encode())
        self.pty.wait_pending(len(key))
        os.read = read
        try:
            got = getch_timeout(0.2, default="none", stream=self.pty.stream, raw=True)
        finally:
            os.read = real
        rest = os.read(self.pty.slave, 100).decode() if self.pty.pending() else ""
        if ("" if got == "none" else str(got)) + rest != key:
            raise Violation(f"{key!r} read when the time was up: {got!r} was returned, {rest!r} is"
                            " left")
        obs.n("keys read in the last instant", len(late))

    def do_partial(self, d, case, obs):
        """The beginning of a character is no key, and does not make the wait longer."""

        from slate import getch_timeout

        if case["tty"] == "cooked":
            return
        self.pty.type(b"\xc3")
        self.pty.wait_pending(1)
        self.watch.armed.set()
        fired = self.watch.fired
        try:
            got = getch_timeout(d, default="none", stream=self.pty.stream, raw=True)
        finally:
            self.watch.armed.clear()
        if self.watch.fired > fired:
            raise Violation(f"half a character typed, a read with a timeout of {d} s did not end"
                            f" ({got!r})")
        self.pty.discard()
        obs.n("half characters")

    def do_late(self, d, case, obs):
        """Nor does one that is begun when most of the time has passed (retried on a slow machine)."""

        from slate import getch_timeout

        tries = []
        for _ in range(8):
            helper = threading.Timer(0.7 * d, self.pty.type, (b"\xc3",))
            helper.start()
            begin = time.monotonic()
            self.watch.armed.set()
            try:
                getch_timeout(d, default="none", stream=self.pty.stream, raw=True)
            finally:
                self.watch.armed.clear()
            tries.append(time.monotonic() - begin)
            helper.join()
            self.pty.discard()
            if tries[-1] < 1.5 * d:
                obs.n("half characters")
                return
        raise Violation(f"half a character typed after {0.7 * d} s, reads with a timeout of {d} s took"
                        f" {tries} s")

    def do_zero(self, what, key, raw, case, obs):
        """No time at all: the input that is there, or the default."""

        from slate import getch_timeout

        if case["tty"] != "raw":
            key = "q" if case["tty"] == "cbreak" else "q\n"
        if what == "key":
            self.pty.type(key.encode())
            self.pty.wait_pending(len(key.encode()))
        fired = self.watch.fired
        self.watch.armed.set()
        try:
            got = getch_timeout(0, default="none", stream=self.pty.stream, raw=raw)
        finally:
            self.watch.armed.clear()
        if self.watch.fired > fired:
            raise Violation(f"a read with a timeout of 0 s did not end by itself ({what})")
        want = {"none"} if what != "key" else {key} if raw else KEYS.get(key, {key})
        if ({got} if isinstance(got, str) or got is None else set(got)) != want:
            raise Violation(f"a read with a timeout of 0 s, {key if what == 'key' else None!r} typed"
                            f" ahead, returned {got!r}")
        obs.n("reads without waiting")

    def do_worker(self, what, key, raw, case, obs):
        """Timed reads in another thread."""

        from slate import getch_timeout

        if case["tty"] != "raw":
            key = "q" if case["tty"] == "cbreak" else "q\n"
        result = []

        def work():
            try:
                result.append(getch_timeout(60 if what == "key" else 0.03, default="none",
                                            stream=self.pty.stream, raw=raw))
            except BaseException as exc:  # pylint: disable=broad-except
                result.append(exc)

        if what == "key":
            self.pty.type(key.encode())
            self.pty.wait_pending(len(key.encode()))
        t = threading.Thread(target=work, daemon=True)
        t.start()
        t.join(30)
        if not result:
            self.pty.type(b"\n")
            t.join(30)
            raise Violation(f"a timed read in another thread does not end ({what})")
        got = result[0]
        if isinstance(got, BaseException):
            raise Violation(f"a timed read in another thread raised {got!r}")
        values = {got} if isinstance(got, str) else set(got)
        want = {"none"} if what == "none" else {key} if raw else KEYS.get(key, {key})
        if values != want:
            raise Violation(f"a timed read in another thread gave {values}, should be {want}")
        obs.n("reads in other threads")

    # -- key reads ----------------------------------------------------------------
    def do_key(self, when, s, raw, d, case, obs):
        from slate import feed, getch_timeout

        pty = self.pty
        if case["tty"] != "raw":
            s = "q"
        data = s if case["tty"] != "cooked" else s + ("\n" if when == "ahead" else "")
        me, state, helper = threading.get_native_id(), {"done": False}, None
        if when == "fed":
            feed(data)
        elif when == "ahead":
            pty.type(data.encode())
            pty.wait_pending(len(data.encode()))
        else:
            def typist():
                if wait_blocked(me, lambda: state["done"]):
                    pty.type(data.encode())
            helper = threading.Thread(target=typist)
            helper.start()
            obs.n("typed while waiting")
        self.watch.armed.set()
        try:
            got = getch_timeout(d, default="no input", stream=pty.stream,
                                **({"raw": True} if raw else {}))
        finally:
            self.watch.armed.clear()
            state["done"] = True
            if helper:
                helper.join()
        want = {data} if raw else KEYS.get(data, {data})
        values = {got} if isinstance(got, str) or got is None else set(got)
        if values != want:
            raise Violation(f"{data!r} typed ({when}) within {d} s, the read returned {values}")
        obs.n("keys read in time")

    def do_none(self, d, default, raw, case, obs):
        from slate import getch_timeout

        pty = self.pty
        kwargs = {} if default == "unset" else {"default": default}
        want = None if default == "unset" else default
        begin = time.monotonic()
        self.watch.armed.set()
        try:
            got = getch_timeout(d, stream=pty.stream, raw=raw, **kwargs)
        finally:
            self.watch.armed.clear()
        took = time.monotonic() - begin
        if (got is None) != (want is None) or (want is not None and not (got == want)):
            raise Violation(f"nothing typed for {d} s: the read returned {got!r}, should be {want!r}")
        if took < 0.9 * d:
            raise Violation(f"a read with a timeout of {d} s gave up after {took} s")
        obs.n("defaults returned")
        # and the next input is unharmed
        self.do_key("ahead", "z", True, 30, case, obs)
        obs.n("reads after a timeout")


CHECK = C21()
