"""setup_cmd: nothing to build; checks that the oracle and the sandbox work as the monitors assume."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt  # noqa: E402
from ptylab import Pty  # noqa: E402


def main():
    t = vt.VT(5, 2)
    t.feed("\x1b[1;2H\x1b[1;38;2;1;2;3mab\x1b[0mc")
    assert t.cell(1, 0) == ("a", frozenset({"bold"}), (1, 2, 3), None), t.cell(1, 0)
    assert t.cell(3, 0) == ("c", frozenset(), None, None)
    t.feed("\x1b[2;5Hxy")
    assert len(t.scrolled) == 1 and t.cell(4, 0)[0] == "x" and t.cell(0, 1)[0] == "y"
    t.feed("\x1b[?1049h\x1b[22;0t\x1b]0;new\a")
    assert t.modes[1049] and t.title == "new" and t.title_stack == ["initial"]
    t.feed("\x1b[23;0t")
    assert t.title == "initial" and not t.anomalies
    p = Pty()
    p.configure("raw")
    p.type(b"abc")
    p.wait_pending(3)
    assert os.read(p.slave, 10) == b"abc"
    p.close()
    print("self-test passed")


main()
