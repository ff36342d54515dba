"""Which check catches which planted change (in scratch copies). try_seeds.py [ids...] [--all-checks]"""
import json, os, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(p.name for p in (V / "seeded").iterdir())
for id in ids:
    d = V / "seeded" / id
    prop = json.loads((d / "meta.json").read_text())["property"]
    copy = Path(f"/tmp/slate-try-{os.getpid()}")
    shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("__pycache__"))
    subprocess.run(["git", "-C", str(copy), "apply", str(d / "patch.diff")], check=True)
    checks = [prop] if "--all-checks" not in sys.argv else [f"C{i:02d}" for i in range(1, 29)]
    caught = []
    for c in checks:
        r = subprocess.run(["/opt/venv/bin/python", "-B", "mon/run.py", c], cwd=V, capture_output=True,
                           text=True, env={**os.environ, "SLATE_REPO": str(copy),
                                           "SLATE_MON_EVIDENCE": str(copy / "ev")})
        if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
            caught.append(c)
        elif r.returncode:
            caught.append(f"{c}?{r.returncode}")
    print(f"{id:20} {prop} {'caught by ' + ' '.join(caught) if caught else 'MISSED'}", flush=True)
    shutil.rmtree(copy)
