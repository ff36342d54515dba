"""Entry point: run.py C01 [--replay FILE]. Re-executes itself in a fixed environment."""

import importlib
import os
import shutil
import sys
import tempfile


def bootstrap():
    keep = {k: os.environ[k] for k in ("VERIF_SEED", "VERIF_TIER", "VERIF_SCALE", "SLATE_REPO", "SLATE_MON_EVIDENCE",
                                       "HOME", "TMPDIR") if k in os.environ}
    scratch = tempfile.mkdtemp(prefix="slate-mon-run-")
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "TERM": "xterm",
        "PYTHONDONTWRITEBYTECODE": "1",
        # never a stale .pyc of the code under test
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pycache"),
        "SLATE_MON_CHILD": scratch,
        **keep,
    }
    replay = [os.path.abspath(a) if os.path.exists(a) else a for a in sys.argv[1:]]
    import subprocess
    try:
        return subprocess.call(
            [sys.executable, "-B", os.path.abspath(__file__), *replay],
            env=env, stdin=subprocess.DEVNULL, cwd=scratch,
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def child():
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.environ.get("SLATE_REPO", "/repo")
    sys.path[:0] = [repo, here]
    import slate
    if os.path.realpath(slate.__file__) != os.path.realpath(os.path.join(repo, "slate", "__init__.py")):
        print("slate was imported from", slate.__file__, file=sys.stderr)
        return 2
    import common
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    return common.main(mod.CHECK, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(child() if os.environ.get("SLATE_MON_CHILD") else bootstrap())
