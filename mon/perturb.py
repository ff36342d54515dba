"""Schedule perturbation: gives up the processor at random bytecodes of Slate."""

import random
import sys
import threading
import time


def codes(module, names=None):
    """All code objects of a module's functions, nested ones included."""

    out, seen = [], set()

    def add(code):
        if code in seen or code.co_filename != module.__file__:
            return
        seen.add(code)
        out.append(code)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                add(c)

    for value in list(vars(module).values()):
        value = getattr(value, "__wrapped__", value)
        if hasattr(value, "__code__"):
            add(value.__code__)
        elif isinstance(value, type):
            for m in vars(value).values():
                m = getattr(m, "__wrapped__", m)
                if hasattr(m, "__code__"):
                    add(m.__code__)
    return out


class Perturb:
    """`with Perturb(module, seed, rate)`: random sleeps at instructions of the module."""

    TOOL = 4

    def __init__(self, module, seed, rate=0.05, nap=0.0003):
        self.codes = codes(module)
        self.rng = random.Random(seed)
        self.rate, self.nap = rate, nap
        self.points = 0
        self.trace = []

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "perturb")
        rng, trace = self.rng, self.trace

        def instruction(code, offset):
            self.points += 1
            if len(trace) < 4000:
                trace.append((threading.current_thread().name, offset))
            r = rng.random()
            if r < self.rate:
                time.sleep(0 if r < self.rate / 2 else self.nap * rng.random())

        mon.register_callback(self.TOOL, mon.events.INSTRUCTION, instruction)
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, mon.events.INSTRUCTION)
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        sys.setswitchinterval(self.interval)
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, 0)
        mon.register_callback(self.TOOL, mon.events.INSTRUCTION, None)
        mon.free_tool_id(self.TOOL)
