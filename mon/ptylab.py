"""Pseudo-terminals for the monitors: typing, waiting for delivery, settings, blocked readers."""

from __future__ import annotations

import fcntl
import os
import select
import struct
import termios
import threading
import time
import tty

from common import Inconclusive

FIONREAD = termios.FIONREAD


class Pty:
    """A pty pair; `stream` is a text stream on the slave, as sys.stdin would be."""

    def __init__(self):
        self.master, self.slave = os.openpty()
        self.sane = termios.tcgetattr(self.slave)
        self.stream = os.fdopen(os.dup(self.slave), "r", encoding="utf-8")
        os.set_blocking(self.master, False)
        self.output = b""

    def close(self):
        self.stream.close()
        os.close(self.slave)
        os.close(self.master)

    def configure(self, mode, variation=0):
        """'cooked', 'raw' (no input processing) or 'cbreak'; variation flips harmless bits."""

        termios.tcsetattr(self.slave, termios.TCSANOW, self.sane)
        if mode == "raw":
            tty.setraw(self.slave, termios.TCSANOW)
        elif mode == "cbreak":
            tty.setcbreak(self.slave, termios.TCSANOW)
        attrs = termios.tcgetattr(self.slave)
        if variation & 1:
            attrs[0] ^= termios.IXANY
        if variation & 2:
            attrs[3] ^= termios.ECHOCTL
        if variation & 4:
            attrs[3] ^= termios.ECHOK
        if variation & 8 and mode == "cooked":
            attrs[6][termios.VWERASE] = b"\x00"
        termios.tcsetattr(self.slave, termios.TCSANOW, attrs)
        termios.tcflush(self.slave, termios.TCIOFLUSH)
        self.drain()

    def attrs(self):
        return termios.tcgetattr(self.slave)

    def type(self, data: bytes):
        view = data
        end = time.monotonic() + 20
        while view:
            try:
                n = os.write(self.master, view)
                view = view[n:]
            except BlockingIOError:
                self.drain()
                if time.monotonic() > end:
                    raise Inconclusive("the pty does not take input")
                time.sleep(0.001)

    def pending(self):
        """Bytes ready for a non-canonical reader."""

        return struct.unpack("i", fcntl.ioctl(self.slave, FIONREAD, b"\0\0\0\0"))[0]

    def wait_pending(self, n):
        end = time.monotonic() + 20
        while self.pending() < n:
            if time.monotonic() > end:
                raise Inconclusive(f"typed input did not arrive: {self.pending()} of {n} bytes")
            time.sleep(0.0002)

    def drain(self):
        while True:
            try:
                data = os.read(self.master, 65536)
            except (BlockingIOError, OSError):
                return
            if not data:
                return
            self.output += data

    def discard(self):
        """Leaves no input behind."""

        termios.tcflush(self.slave, termios.TCIOFLUSH)
        self.drain()


def state(tid):
    """R, S, ... of a thread of this process."""

    try:
        with open(f"/proc/self/task/{tid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return "?"


def ticks(tid):
    """Times the thread was put to sleep voluntarily."""

    try:
        with open(f"/proc/self/task/{tid}/status") as f:
            for line in f:
                if line.startswith("voluntary_ctxt_switches"):
                    return int(line.split()[1])
    except OSError:
        pass
    return -1


def wait_blocked(tid, gone=lambda: False, settle=0.02, limit=20.0):
    """Waits until a thread sleeps and does not wake for a while (or `gone()`)."""

    end = time.monotonic() + limit
    since, last = None, None
    while time.monotonic() < end:
        if gone():
            return False
        now = (state(tid), ticks(tid))
        if now[0] == "S" and now == last:
            if since is None:
                since = time.monotonic()
            if time.monotonic() - since >= settle:
                return True
        else:
            since = None
        last = now
        time.sleep(0.002)
    return False


class Watch:
    """Unblocks a stalled reader by typing a sentinel, so a loss shows as a wrong result.

    Nothing is judged by the clock: a sentinel after complete input is ignored.
    """

    SENTINEL = "\u00a4"

    def __init__(self, pty, tid=None, settle=1.0):
        self.pty, self.settle = pty, settle
        self.tid = tid or threading.get_native_id()
        self.armed = threading.Event()
        self.stop = False
        self.fired = 0
        self.thread = threading.Thread(target=self.run, daemon=True)

    def __enter__(self):
        self.thread.start()
        return self

    def __exit__(self, *exc):
        self.stop = True
        self.armed.set()
        self.thread.join()

    def run(self):
        while not self.stop:
            self.armed.wait()
            if self.stop:
                return
            if wait_blocked(self.tid, lambda: self.stop or not self.armed.is_set(), self.settle):
                if self.armed.is_set() and not self.stop:
                    self.fired += 1
                    self.pty.type(self.SENTINEL.encode())
            time.sleep(0.01)
