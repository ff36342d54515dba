"""C27: the command-line tools, run as processes on a pseudo-terminal or on pipes."""

import ast
import fcntl
import os
import re
import select
import struct
import subprocess
import sys
import termios
import time

import vt
from checks.c19 import KEYS
from common import REPO, Check, Inconclusive, Violation
from ptylab import Pty

FALLBACK = {"fg": (0xDE, 0xDE, 0xDE), "bg": (0x14, 0x14, 0x14)}
STYLE_WORDS = ("bold", "italic", "dim", "underline", "blink", "invert", "strike")
SPACES = ("standard", "no_color", "eight_bit", "true_color")
LIMIT = 120.0


def plain_rows(term):
    return ["".join(c[0] for c in row).rstrip() for row in term.grid]


class C27(Check):
    id = "C27"
    quick, thorough = 260, 4000
    cap_quick = 400.0
    required = ("commands run", "sizes", "keys", "raw keys", "debug reports", "on a tty", "off a tty",
                "refused command lines", "values judged", "style words judged", "half on a tty", "terminals that never reply")
    rule = ("`python -m slate` with every command, random sizes, environments, keys, replies of the"
            " terminal (an emulator behind a pty) and pipes instead of it; the emulated display is read"
            " back; non-trivial: all")
    assumptions = ["key sequences arrive in one piece, after the tool has asked for them",
                   "where a reply was sent and not reported, the command is repeated up to 5 times,"
                   " in case the machine was slower than the library waits"]

    def enumerated(self, tier):
        out = []
        keys = sorted(KEYS) if tier == "thorough" else ["\x1b[A", "\t", "\x01", "\x1b[15~", "\n"]
        for k in [*keys, "q", "é", "\xa0", "\u200b", "\ue000", "\x1b[<0;3;4M"]:
            for raw in (False, True):
                out.append({"cmd": "getch", "raw": raw, "key": k, "tty": True, "size": [80, 24],
                            "env": {}})
        for argv in ([], ["nonsense"], ["size", "--raw"], ["getch", "x"], ["debug", "debug"], ["--raw"]):
            out.append({"cmd": "bad", "argv": argv, "tty": False, "size": [80, 24], "env": {}})
        for flag in ("-v", "--version"):
            out.append({"cmd": "version", "argv": [flag], "tty": False, "size": [80, 24], "env": {}})
        return out

    def generate(self, rng, tier, index):
        case = {"cmd": rng.choice(["size", "getch", "debug", "debug"]), "tty": rng.random() < 0.75,
                "size": [rng.choice([1, 20, 80, rng.randint(2, 300)]),
                         rng.choice([1, 24, rng.randint(2, 100)])], "env": {}}
        env = case["env"]
        env["TERM"] = rng.choice(["xterm", "xterm-256color", "dumb", "linux"])
        if rng.random() < 0.6:
            env["COLORTERM"] = rng.choice(["truecolor", "24bit", "256color", "x", "TrueColor"])
        if rng.random() < 0.3:
            env["NO_COLOR"] = rng.choice(["1", "yes", "0"])
        if rng.random() < 0.4:
            env["SLATE_COLORSYS"] = rng.choice(
                [rng.choice(SPACES), rng.choice(SPACES).upper()])
        case["fg"] = [rng.randrange(256) for _ in range(3)]
        case["bg"] = [rng.randrange(256) for _ in range(3)]
        case["sync"] = rng.choice([None, 0, 1, 2, 4])
        case["silent"] = rng.random() < 0.04
        if rng.random() < 0.2:
            case["tty"] = rng.choice(["in", "out"])
        if case["cmd"] == "getch":
            case["tty"] = True
            case["raw"] = rng.random() < 0.4
            case["key"] = rng.choice([rng.choice(sorted(KEYS)), rng.choice("aZ7 ~é"), "hello",
                                      "\x1b[<35;%d;%dM" % (rng.randint(1, 300), rng.randint(1, 99))])
        return case

    def shrinkable(self, case):
        return False

    # -- running -----------------------------------------------------------------------
    def run(self, case, argv):
        """(exit code, bytes, stderr); on a pty the terminal answers queries."""

        env = {k: os.environ[k] for k in ("PATH", "HOME", "LANG", "LC_ALL", "PYTHONDONTWRITEBYTECODE",
                                          "PYTHONPYCACHEPREFIX", "PYTHONHASHSEED") if k in os.environ}
        env.update(case["env"], PYTHONPATH=REPO)
        args = [sys.executable, "-B", "-m", "slate", *argv]
        w, h = case["size"]
        if case["tty"] is False:
            env["COLUMNS"], env["LINES"] = str(w), str(h)
            p = subprocess.run(args, env=env, stdin=subprocess.DEVNULL, capture_output=True,
                               timeout=LIMIT, check=False)
            return p.returncode, p.stdout.replace(b"\n", b"\r\n"), p.stderr.decode(), None
        pty = Pty()
        try:
            pty.configure("cooked")
            # the line discipline passes every key
            attrs = pty.attrs()
            attrs[0] &= ~(termios.IXON | termios.ICRNL)
            attrs[3] &= ~(termios.ISIG | termios.IEXTEN)
            termios.tcsetattr(pty.slave, termios.TCSANOW, attrs)
            fcntl.ioctl(pty.slave, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))
            before = pty.attrs()
            term = vt.VT(400, 60)
            one = {"stdin": pty.slave, "stdout": pty.slave}
            if case["tty"] == "in":
                one["stdout"] = subprocess.PIPE
                env["COLUMNS"], env["LINES"] = str(w), str(h)
            elif case["tty"] == "out":
                one["stdin"] = subprocess.DEVNULL
            p = subprocess.Popen(args, env=env, stderr=subprocess.PIPE, start_new_session=True, **one)
            end = time.monotonic() + LIMIT
            seen, out, typed = 0, b"", False
            try:
                while True:
                    gone = p.poll() is not None
                    select.select([pty.master], [], [], 0.01)
                    mark = len(pty.output)
                    pty.drain()
                    out = pty.output
                    term.feed(out[mark:].decode("utf-8", "ignore"))
                    for q in term.queries[seen:]:
                        self.answer(pty, q, case)
                    seen = len(term.queries)
                    if case["cmd"] == "getch" and not typed and b"Waiting" in out:
                        if not pty.attrs()[3] & termios.ICANON:
                            pty.type(case["key"].encode())
                            typed = True
                    if gone:
                        break
                    if time.monotonic() > end:
                        raise Violation(f"slate {argv} does not end; it showed"
                                        f" {[r for r in plain_rows(term) if r]}")
            finally:
                if p.poll() is None:
                    p.kill()
                if case["tty"] == "in":
                    out = p.stdout.read().replace(b"\n", b"\r\n")
                    p.stdout.close()
                err = p.stderr.read().decode()
                p.stderr.close()
                p.wait()
            after = pty.attrs()
            if after != before:
                raise Violation(f"slate {argv} leaves other line settings: echo"
                                f" {bool(after[3] & termios.ECHO)}, canonical"
                                f" {bool(after[3] & termios.ICANON)}")
            return p.returncode, out, err, term
        finally:
            pty.close()

    @staticmethod
    def answer(pty, query, case):
        if query in ("osc10", "osc11"):
            if case.get("silent"):
                return
            c = case.get("fg" if query == "osc10" else "bg") or (1, 2, 3)
            pty.type(("\x1b]%s;rgb:%02x%02x/%02x%02x/%02x%02x\x1b\\" % (
                query[3:], c[0], c[0], c[1], c[1], c[2], c[2])).encode())
        elif query == "mode2026" and case.get("sync") is not None and not case.get("silent"):
            pty.type(f"\x1b[?2026;{case['sync']}$y".encode())

    @staticmethod
    def late(case, rows):
        """Whether a reply may have come later than the library waits."""

        text = "\n".join(rows)
        if case["cmd"] == "getch":
            return "rgb:" in text or "2026" in text
        return case["cmd"] == "debug" and (
            case["sync"] in (1, 2) and "True" not in text
            or any("#%02X%02X%02X" % tuple(case[k]) not in text.upper() for k in ("fg", "bg")))

    def execute(self, case, obs):
        cmd = case["cmd"]
        argv = case.get("argv", [cmd] + ["--raw"] * bool(case.get("raw")))
        for attempt in range(5):
            try:
                code, out, err, _ = self.run(case, argv)
            except subprocess.TimeoutExpired:
                raise Violation(f"slate {argv} does not end") from None
            term = vt.VT(400, 60)
            term.feed(out.decode("utf-8", "replace"))
            term.finish()
            rows = plain_rows(term)
            if attempt < 4 and case["tty"] is True and not case.get("silent") and self.late(case, rows):
                continue
            break
        obs.n("commands run")
        obs.n({True: "on a tty", False: "off a tty"}.get(case["tty"], "half on a tty"))
        if case["tty"] is not True and term.queries:
            raise Violation(f"slate {argv}, not reached by a terminal's replies, asks for them:"
                            f" {term.queries}")
        obs.n("terminals that never reply", bool(case["tty"] is True and case.get("silent")))
        if "Traceback" in err:
            raise Violation(f"slate {argv} crashed: {err.strip().splitlines()[-1]}")
        if term.anomalies:
            raise Violation(f"slate {argv}: malformed output: {term.anomalies[:3]}")
        if not term.attrs.is_default:
            raise Violation(f"slate {argv} leaves text attributes set")
        if cmd == "bad":
            obs.n("refused command lines")
            if code == 0 or not err.strip():
                raise Violation(f"slate {argv} is not refused: exit code {code}, {err!r}")
            return
        if code != 0:
            raise Violation(f"slate {argv} exits with {code}: {err!r}")
        text = [r for r in rows if r.strip()]
        obs.state("outputs", tuple(text))
        getattr(self, cmd)(case, term, rows, text, obs)

    def version(self, case, term, rows, text, obs):
        from slate.__about__ import __version__
        if [t.strip() for t in text] != [__version__]:
            raise Violation(f"--version prints {text}, the version is {__version__}")

    def size(self, case, term, rows, text, obs):
        obs.n("sizes")
        m = re.fullmatch(r"\s*(\d+)\s*x\s*(\d+)\s*", text[0]) if len(text) == 1 else None
        if not m or [int(m[1]), int(m[2])] != case["size"]:
            raise Violation(f"size printed as {text}, the terminal has {case['size']}")
        obs.n("values judged")

    def getch(self, case, term, rows, text, obs):
        obs.n("raw keys" if case["raw"] else "keys")
        shown = "\n".join(text)
        k = shown.find("input...")
        if k < 0:
            raise Violation(f"getch printed {text}")
        names = shown[k + len("input..."):].strip(" ").split(" | ")
        key = case["key"]
        if case["raw"]:
            want = {key}
        else:
            m = re.fullmatch(r"\x1b\[<(\d+);(\d+);(\d+)M", key)
            want = KEYS.get(key, {key})
            if m:
                want = {f"mouse:{ {'0': 'left_click', '35': 'hover'}[m[1]]}@{m[2]};{m[3]}"}
        got = set()
        for name in names:
            literal = None
            try:
                literal = ast.literal_eval(name)
            except (ValueError, SyntaxError):
                pass
            if not isinstance(literal, str):
                if case["raw"] or len(name) == 1:
                    raise Violation(f"getch{' --raw' * case['raw']}: typed {key!r}, printed {name},"
                                    " not as a literal")
                literal = name
            got.add(literal)
        if got != want:
            raise Violation(f"getch{' --raw' * case['raw']}: typed {key!r}, printed {names}")
        obs.n("values judged")

    def debug(self, case, term, rows, text, obs):
        obs.n("debug reports")
        env = case["env"]
        space = self.space(env)
        fg, bg = (tuple(case["fg"]), tuple(case["bg"])) if case["tty"] is True and not case.get(
            "silent") else (FALLBACK["fg"], FALLBACK["bg"])
        sync = case["tty"] is True and case["sync"] in (1, 2) and not case.get("silent")
        w, h = case["size"]
        hexed = lambda c: "#%02X%02X%02X" % tuple(c)
        want = {"$TERM": env.get("TERM") or "-", "$COLORTERM": env.get("COLORTERM") or "-",
                "$NO_COLOR": env.get("NO_COLOR") or "-",
                "$SLATE_COLORSYS": env.get("SLATE_COLORSYS") or "-", "size": f"{w}x{h}",
                "colorspace": space, "synchronized update support": str(sync),
                "foreground color": hexed(fg), "background color": hexed(bg)}
        for label, value in want.items():
            y = [i for i, r in enumerate(rows) if r.startswith(label + " ")]
            if len(y) != 1:
                raise Violation(f"debug reports {label!r} on {len(y)} rows: {text}")
            got = rows[y[0]][len(label):].strip()
            if label == "colorspace":
                ok = got.rsplit(".", 1)[-1].lower() == value
            elif label.endswith("ground color"):
                ok = got.upper() == value
                cells = [c for c in term.grid[y[0]] if c[0] in got]
                shown = term.grid[y[0]][rows[y[0]].rindex(got[0])]
                if ok and space == "true_color" and vt.to_rgb(shown[2]) != (
                        fg if "fore" in label else bg):
                    raise Violation(f"the {label} {got} is shown in {shown[2]}")
                obs.n("colours shown", len(cells) > 0)
            else:
                ok = got == value
            obs.n("values judged")
            if not ok:
                raise Violation(f"debug reports {label} {got!r}, should be {value!r} (environment"
                                f" {env}, tty {case['tty']})")
        where = {}
        for y, row in enumerate(rows):
            for m in re.finditer(r"[a-z]+", row):
                where.setdefault(m[0], []).append(term.grid[y][m.start()])
        for word in STYLE_WORDS:
            cells = where.get(word, [])
            obs.n("style words judged")
            if not any(frozenset({word}) == c[1] for c in cells):
                raise Violation(f"the sample of {word} is not shown in that style")

    @staticmethod
    def space(env):
        if "SLATE_COLORSYS" in env:
            return env["SLATE_COLORSYS"].lower()
        if "NO_COLOR" in env:
            return "no_color"
        term = env.get("COLORTERM", "").strip().lower() or env.get("TERM", "").split("xterm-")[-1]
        return {"24bit": "true_color", "truecolor": "true_color", "256color": "eight_bit"}.get(
            term, "standard")


CHECK = C27()
