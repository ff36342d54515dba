"""Mutation campaign: which single-site changes that pass the tests do the checks miss?

mutate.py OUT.jsonl [--files color,core] [--jobs 3] [--scale 0.3] [--every N] [--offset K]
Works in scratch copies under /tmp; never touches /repo.
"""

import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import threading
import queue
from pathlib import Path

PY = "/opt/venv/bin/python"
VERIF = Path(__file__).resolve().parent.parent
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
RELEVANT = {
    "color": "C13 C14 C15 C16 C12 C07 C01 C11".split(),
    "color_info": "C13 C14 C09".split(),
    "core": "C18 C17 C10 C22 C26 C20 C21 C19 C14 C09 C24 C27 C28".split(),
    "event": "C25 C23 C17".split(),
    "key_names": "C19 C20 C21".split(),
    "screen": "C01 C02 C03 C04 C05 C06 C07 C11 C24".split(),
    "span": "C08 C09 C11 C10 C01 C12".split(),
    "terminal": "C24 C22 C23 C05 C26 C06 C11 C17 C01 C04 C03 C02".split(),
}
ALL = [f"C{i:02d}" for i in range(1, 29)]

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
       ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult]}


def sites(tree):
    """Yields (node path setter, description, lineno): closures that mutate a deep copy."""

    doc = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(
                n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
        if isinstance(n, ast.FunctionDef) and n.name in ("_getch_nt",):
            for m in ast.walk(n):
                skip.add(id(m))
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                for m in ast.walk(a):
                    skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        n._skip = False
    out = []
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for alt in CMP.get(type(op), []):
                    out.append((n, ("cmp", i, alt), line))
        elif isinstance(n, ast.BinOp):
            for alt in BIN.get(type(n.op), []):
                out.append((n, ("bin", alt), line))
        elif isinstance(n, ast.BoolOp):
            out.append((n, ("bool",), line))
            for i in range(len(n.values)):
                out.append((n, ("drop", i), line))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((n, ("not",), line))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (bytes, type(None), type(...))):
            v = n.value
            if isinstance(v, bool):
                out.append((n, ("const", not v), line))
            elif isinstance(v, int):
                out.append((n, ("const", v + 1), line))
                if v > 1:
                    out.append((n, ("const", v - 1), line))
            elif isinstance(v, float):
                out.append((n, ("const", v * 1.1 + 0.01), line))
            elif isinstance(v, str) and v and len(v) < 30:
                out.append((n, ("const", ""), line))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((n, ("test", True), line))
            out.append((n, ("test", False), line))
        if isinstance(n, ast.Return) and n.value is not None:
            out.append((n, ("retnone",), line))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and id(n) not in doc:
            out.append((n, ("delete",), line))
        if isinstance(n, ast.Break):
            out.append((n, ("brk",), line))
        if isinstance(n, ast.Continue):
            out.append((n, ("cont",), line))
        if isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)):
                out.append((n, ("dropkw", i), line))
        if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            out.append((n, ("swap",), line))
        if isinstance(n, ast.Try) and n.finalbody:
            out.append((n, ("nofinally",), line))
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            pass
    return out


def mutate(source, index):
    tree = ast.parse(source)
    node, what, line = sites(tree)[index]
    before = ast.unparse(node) if not isinstance(node, (ast.If, ast.While, ast.Try)) else (
        ast.unparse(node.test) if hasattr(node, "test") else "try")
    k = what[0]
    parents = {}
    for p in ast.walk(tree):
        for field, value in ast.iter_fields(p):
            if isinstance(value, list):
                for i, c in enumerate(value):
                    if isinstance(c, ast.AST):
                        parents[id(c)] = (p, field, i)
            elif isinstance(value, ast.AST):
                parents[id(value)] = (p, field, None)

    def replace(new):
        p, f, i = parents[id(node)]
        if i is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[i] = new

    if k == "cmp":
        node.ops[what[1]] = what[2]()
    elif k == "bin":
        node.op = what[1]()
    elif k == "bool":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif k == "drop":
        if len(node.values) == 2:
            replace(node.values[1 - what[1]])
        else:
            del node.values[what[1]]
    elif k == "not":
        replace(node.operand)
    elif k == "const":
        node.value = what[1]
    elif k == "test":
        node.test = ast.Constant(what[1])
    elif k == "retnone":
        node.value = ast.Constant(None)
    elif k == "delete":
        replace(ast.Pass())
    elif k == "brk":
        replace(ast.Continue())
    elif k == "cont":
        replace(ast.Pass())
    elif k == "dropkw":
        del node.keywords[what[1]]
    elif k == "swap":
        node.elts.reverse()
    elif k == "nofinally":
        p, f, i = parents[id(node)]
        lst = getattr(p, f)
        if node.handlers:
            fin, node.finalbody = node.finalbody, []
            lst[i + 1:i + 1] = fin
        else:
            lst[i:i + 1] = node.body + node.finalbody
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), f"{line}: {k} {what[1:] if k != 'cmp' else what[2].__name__} in `{before[:90]}`"


def test(copy_, env):
    xml = copy_ / "junit.xml"
    if xml.exists():
        xml.unlink()
    try:
        subprocess.run([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60",
                        f"--junitxml={xml}", "-o", "junit_family=xunit2", "tests"], cwd=copy_, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       timeout=200)
    except subprocess.TimeoutExpired:
        return False
    if not xml.exists():
        return False
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(xml).getroot().iter("testcase"):
        if not any(e.tag in ("failure", "error", "skipped") for e in c):
            ok.add(f"{c.get('classname')}::{c.get('name')}")
    return set(STABLE) <= ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(RELEVANT))
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--all", action="store_true", help="fall back to every check")
    args = ap.parse_args()
    done = set()
    if os.path.exists(args.out):
        done = {(r["file"], r["index"]) for r in map(json.loads, open(args.out))}
    work = queue.Queue()
    for f in args.files.split(","):
        source = Path(f"/repo/slate/{f}.py").read_text()
        n = len(sites(ast.parse(source)))
        idx = range(args.offset, n, args.every)
        if f == "color_info":
            idx = range(args.offset, n, max(args.every, n // 30))
        for i in idx:
            if (f, i) not in done:
                work.put((f, i, source))
    print(work.qsize(), "mutants", flush=True)
    lock = threading.Lock()

    def worker(w):
        root = Path(f"/tmp/slate-mut-{w}")
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        env = {"PATH": os.environ["PATH"], "PYTHONPATH": str(root), "PYTHONDONTWRITEBYTECODE": "1",
               "LANG": "C.UTF-8", "TERM": "xterm"}
        while True:
            try:
                f, i, source = work.get_nowait()
            except queue.Empty:
                break
            rec = {"file": f, "index": i}
            try:
                text, rec["what"] = mutate(source, i)
            except Exception as exc:
                rec["status"] = f"bad: {exc!r}"
                text = None
            if text is not None:
                path = root / "slate" / f"{f}.py"
                path.write_text(text)
                if not test(root, env):
                    rec["status"] = "tests"
                else:
                    rec["status"] = "SURVIVED"
                    order = RELEVANT[f] + ([c for c in ALL if c not in RELEVANT[f]] if args.all else [])
                    for c in order:
                        r = subprocess.run([PY, "-B", str(VERIF / "mon/run.py"), c], cwd=VERIF,
                                           capture_output=True, text=True, env={
                                               **os.environ, "SLATE_REPO": str(root),
                                               "SLATE_MON_EVIDENCE": str(root / "ev"),
                                               "VERIF_SCALE": args.scale})
                        if r.returncode == 1 and "VIOLATION" in r.stdout:
                            rec["status"], rec["by"] = "caught", c
                            rec["msg"] = r.stdout.splitlines()[0][:150]
                            break
                        if r.returncode not in (0, 1):
                            rec.setdefault("odd", []).append((c, r.stderr[-300:]))
                path.write_text(source)
            with lock:
                with open(args.out, "a") as o:
                    o.write(json.dumps(rec) + "\n")
        shutil.rmtree(root, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(args.jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
