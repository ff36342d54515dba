"""Runner: cases, shards, monitors' verdicts, shrinking, evidence, replays."""

from __future__ import annotations

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("SLATE_REPO", "/repo")
EVIDENCE = Path(os.environ.get("SLATE_MON_EVIDENCE") or VERIF / "evidence")
REPLAYS = EVIDENCE / "replays"


class Violation(Exception):
    """The monitor saw the property broken."""


class Inconclusive(Exception):
    """The monitor could not decide (watchdog, hook not reached...)."""


def h64(obj) -> int:
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big"
    )


class Obs:
    """What the monitors observed: counters, distinct states, samples."""

    def __init__(self):
        self.counts: dict[str, int] = {}
        self.distinct: dict[str, set] = {}
        self.findings: set[str] = set()

    def n(self, key, by=1):
        self.counts[key] = self.counts.get(key, 0) + by

    def state(self, key, value):
        self.distinct.setdefault(key, set()).add(h64(value))

    def merge(self, other: "Obs"):
        for k, v in other.counts.items():
            self.n(k, v)
        for k, v in other.distinct.items():
            self.distinct.setdefault(k, set()).update(v)
        self.findings |= other.findings


class Check:
    """One property's monitor and workload.

    A case is JSON data; `execute` runs the real code on it and raises Violation when the
    oracle disagrees. Case number i always is the same for a given seed and tier.
    """

    id = "C00"
    level = "exploration"
    rule = ""
    assumptions: list[str] = []
    quick = 1000
    thorough = 10000
    shards = 8
    # counters that must be non-zero for "held" to mean anything
    required: tuple[str, ...] = ()
    cap_quick = 240.0
    cpu_limit = 25.0
    cap_thorough = 3000.0

    def enumerated(self, tier):
        """Systematic cases, run before the random ones."""

        return []

    def generate(self, rng: random.Random, tier: str, index: int):
        raise NotImplementedError

    def execute(self, case, obs: Obs):
        raise NotImplementedError

    def nontrivial(self, case) -> bool:
        return True

    def setup(self):
        """Per process preparation."""

    def shrinkable(self, case):
        return True

    def valid(self, case) -> bool:
        """Whether a shrunk case is still in the property's domain."""

        return True


class Hang(BaseException):
    """A case used far more processor time than any case needs."""


def _hang(signum, frame):
    raise Hang("used 25 s of processor time")


def in_library(tb) -> bool:
    """Whether an exception was raised from (or through) Slate itself."""

    prefix = str(Path(REPO) / "slate")
    return any(f.filename.startswith(prefix) for f in traceback.extract_tb(tb))


def run_case(check: Check, case, obs: Obs):
    """None if held, a message if violated. Harness errors propagate."""

    try:
        signal.signal(signal.SIGVTALRM, _hang)
        signal.setitimer(signal.ITIMER_VIRTUAL, check.cpu_limit)
        try:
            check.execute(case, obs)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as exc:
        return str(exc)
    except Hang as exc:
        if in_library(exc.__traceback__):
            return f"does not end: {exc}"
        raise
    except Inconclusive:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        if in_library(exc.__traceback__):
            last = traceback.extract_tb(exc.__traceback__)[-1]
            return (
                f"raised {type(exc).__name__}: {exc} at"
                f" {os.path.basename(last.filename)}:{last.name}"
            )
        # An answer the oracle cannot even read (None for a colour, too few items, ...).
        # Trouble of the sandbox (OSError, MemoryError) and missing modules stay harness errors.
        if isinstance(exc, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError,
                            AssertionError, RecursionError)) and "module" not in str(exc):
            last = traceback.extract_tb(exc.__traceback__)[-1]
            return f"unusable answer: {type(exc).__name__}: {exc} at {last.filename}:{last.lineno}"
        raise
    return None


def _variants(value):
    """Smaller versions of a JSON value."""

    if isinstance(value, list):
        n = len(value)
        step = n // 2
        while step >= 1:
            for i in range(0, n, step):
                yield value[:i] + value[i + step:]
            step //= 2
        for i, item in enumerate(value):
            if i == 0 and isinstance(item, str) and item.isalpha() and len(value) > 1:
                continue  # a tag
            for v in _variants(item):
                yield value[:i] + [v] + value[i + 1:]
    elif isinstance(value, dict):
        for k, item in value.items():
            if k in ("kind", "op", "space", "mode"):
                continue
            for v in _variants(item):
                yield {**value, k: v}
    elif isinstance(value, str):
        if len(value) > 1:
            yield value[: len(value) // 2]
            yield value[1:]
            yield value[:-1]
    elif isinstance(value, bool):
        if value:
            yield False
    elif isinstance(value, int):
        if value:
            yield 0
            if abs(value) > 1:
                yield value // 2
                yield value - (1 if value > 0 else -1)


def shrink(check: Check, case, message, budget=8.0):
    """Greedy shrinking; keeps any violating variant that the case format allows."""

    end = time.monotonic() + budget
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cand in _variants(case):
            if time.monotonic() > end:
                break
            try:
                if not check.valid(cand):
                    continue
                msg = run_case(check, cand, Obs())
            except Exception:  # an ill-formed candidate
                continue
            if msg is not None and msg.split(":")[0][:25] == message.split(":")[0][:25]:
                case, message, improved = cand, msg, True
                break
    return case, message


def case_at(check: Check, seed, tier, index, enumerated):
    if index < len(enumerated):
        return enumerated[index]
    rng = random.Random(f"{seed}/{check.id}/{tier}/{index}")
    return check.generate(rng, tier, index)


def run_shard(check: Check, seed, tier, shard, shards, total, deadline, outpath):
    """Runs cases shard, shard+shards, ... and pickles the result."""

    import pickle

    obs = Obs()
    result = {"evaluations": 0, "nontrivial": set(), "samples": [], "violation": None,
              "error": None, "inconclusive": [], "stopped_early": False}
    reach = Reach()
    try:
        check.setup()
        reach.start()
        enumerated = list(check.enumerated(tier))
        for index in range(shard, len(enumerated) + total, shards):
            if time.monotonic() > deadline:
                result["stopped_early"] = True
                break
            case = case_at(check, seed, tier, index, enumerated)
            try:
                message = run_case(check, case, obs)
            except Inconclusive as exc:
                result["inconclusive"].append(f"case {index}: {exc}")
                if len(result["inconclusive"]) > 3:
                    break
                continue
            result["evaluations"] += 1
            if check.nontrivial(case):
                result["nontrivial"].add(h64(case))
            if len(result["samples"]) < 2 and index >= len(enumerated):
                result["samples"].append(case)
            if message is not None:
                if check.shrinkable(case) and not message.startswith(("does not end",
                                                                       "unusable")):
                    small, smsg = shrink(check, case, message)
                else:
                    small, smsg = case, message
                result["violation"] = {"index": index, "message": smsg, "case": small,
                                       "original": case, "original_message": message}
                break
    except BaseException:  # pylint: disable=broad-except
        result["error"] = traceback.format_exc()
    result["obs"] = obs
    result["reach"] = reach.stop()
    with open(outpath, "wb") as f:
        pickle.dump(result, f)


class Reach:
    """Which lines of Slate the workload executed (sys.monitoring, near-zero cost)."""

    TOOL = 3

    def __init__(self):
        self.lines: dict[str, set] = {}
        self.on = False

    def start(self):
        mon = sys.monitoring
        prefix = str(Path(REPO) / "slate") + "/"
        lines = self.lines

        def line(code, lineno):
            fn = code.co_filename
            if fn.startswith(prefix):
                lines.setdefault(fn[len(prefix):], set()).add(lineno)
            return mon.DISABLE

        try:
            mon.use_tool_id(self.TOOL, "reach")
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.register_callback(self.TOOL, sys.monitoring.events.LINE, None)
            sys.monitoring.free_tool_id(self.TOOL)
            self.on = False
        return {k: sorted(v) for k, v in self.lines.items()}


def known_findings(prop):
    """Entries `finding: property=<id> key=<key> <text>` of the committed file."""

    out = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:"):
                fields = line[len("finding:"):].split(None, 2)
                if fields[0] == f"property={prop}":
                    out[fields[1].removeprefix("key=")] = fields[2]
    return out


def main(check: Check, argv):
    import pickle
    import shutil
    import tempfile

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scale = float(os.environ.get("VERIF_SCALE", "1"))

    if len(argv) >= 2 and argv[0] == "--replay":
        data = json.loads(Path(argv[1]).read_text())
        check.setup()
        message = run_case(check, data["case"], Obs())
        print("held" if message is None else f"violated: {message}")
        return 0 if message is None else 1

    start = time.monotonic()
    total = int((check.quick if tier == "quick" else check.thorough) * scale)
    cap = check.cap_quick if tier == "quick" else check.cap_thorough
    deadline = start + cap
    shards = max(1, check.shards)
    tmp = tempfile.mkdtemp(prefix="slate-mon-")
    results, errors = [], []
    try:
        pids = {}
        for k in range(shards):
            out = os.path.join(tmp, f"shard{k}")
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setsid()
                    run_shard(check, seed, tier, k, shards, total, deadline, out)
                except BaseException:  # pylint: disable=broad-except
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            pids[pid] = (k, out)
        hard = deadline + 60
        while pids:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid in pids:
                k, out = pids.pop(pid)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    with open(out, "rb") as f:
                        results.append(pickle.load(f))
                except Exception as exc:
                    errors.append(f"shard {k} gave no result: {exc!r}")
                continue
            if time.monotonic() > hard:
                for p, (k, _) in pids.items():
                    errors.append(f"shard {k} exceeded its time (watchdog)")
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                break
            time.sleep(0.01)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    obs = Obs()
    nontrivial: set = set()
    evaluations, samples, inconclusive, reach = 0, [], [], {}
    violations = []
    stopped = False
    for r in results:
        obs.merge(r["obs"])
        nontrivial |= r["nontrivial"]
        evaluations += r["evaluations"]
        samples += r["samples"]
        inconclusive += r["inconclusive"]
        stopped |= r["stopped_early"]
        if r["error"]:
            errors.append(r["error"])
        if r["violation"]:
            violations.append(r["violation"])
        for f, ls in r["reach"].items():
            reach.setdefault(f, set()).update(ls)

    known = known_findings(check.id)
    unlisted = sorted(obs.findings - set(known))
    violations.sort(key=lambda v: v["index"])
    replay = None
    if violations or unlisted:
        REPLAYS.mkdir(parents=True, exist_ok=True)
        replay = REPLAYS / f"{check.id}-{tier}-{seed}.json"
        body = violations[0] if violations else {"case": None, "message": f"finding {unlisted}"}
        replay.write_text(json.dumps({"property": check.id, "seed": seed, "tier": tier, **body},
                                     indent=1, default=repr))

    missing = [k for k in check.required if not obs.counts.get(k)]
    wall = time.monotonic() - start
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{check.id}.json").write_text(json.dumps({
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": check.rule,
            "samples": samples[:3],
            "monitor_events": dict(sorted(obs.counts.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(obs.distinct.items())},
            "slate_lines_reached": {k: len(v) for k, v in sorted(reach.items())},
            "stopped_at_time_cap": stopped,
            "inconclusive_cases": inconclusive[:10],
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(violations) + len(unlisted),
    }, indent=1, default=repr) + "\n")

    for key in sorted(obs.findings & set(known)):
        print(f"KNOWN-FINDING: property={check.id} {known[key]}")
    if violations or unlisted:
        if violations:
            print(f"{check.id}: {violations[0]['message']}")
            print("  case:", json.dumps(violations[0]["case"], default=repr)[:2000])
        print(f"VIOLATION property={check.id} replay={replay}")
        return 1
    if errors:
        print(f"{check.id}: harness error\n" + "\n".join(errors[:2]), file=sys.stderr)
        return 2
    if missing or evaluations == 0:
        print(f"{check.id}: inconclusive, never observed: {missing}", file=sys.stderr)
        return 2
    if inconclusive and len(inconclusive) > max(3, evaluations // 50):
        print(f"{check.id}: inconclusive: {inconclusive[:5]}", file=sys.stderr)
        return 2
    print(f"{check.id}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial),"
          f" {sum(obs.counts.values())} monitor events, {wall:.1f} s")
    return 0
