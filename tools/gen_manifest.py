"""Regenerates MANIFEST.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "runtime monitor: VT emulator versus cell model over random histories",
    "C02": "runtime monitor: redraw and incremental draws compared in VT emulators",
    "C03": "runtime monitor: painted cells and change counts versus cell model",
    "C04": "runtime monitor: placement and cursor versus cell model",
    "C05": "runtime monitor: draws after resizes versus cell model on a scrambled emulator",
    "C06": "runtime monitor: bulk versus sequential twin execution, in VT emulators",
    "C07": "runtime monitor: displayed colours checked against compositing bounds",
    "C08": "runtime monitor: derived spans and printed forms versus attribute model and emulator",
    "C09": "runtime monitor: parsed spans versus an independent terminal's reading",
    "C10": "runtime monitor: width versus cells occupied in an emulator and a screen",
    "C11": "runtime monitor: parsed SVG versus the emulated display",
    "C12": "runtime monitor: repeated queries on shared and fresh objects, recorded and compared",
    "C13": "runtime monitor: denotation oracle and SGR decoder, formats enumerated",
    "C14": "runtime monitor: emitted codes decoded and judged per colour space",
    "C15": "runtime monitor: results versus independent colour arithmetic",
    "C16": "runtime monitor: results versus independent WCAG/CIE computation",
    "C17": "runtime monitor: precedence model over environments and override histories",
    "C18": "runtime monitor: decoder versus report grammar, direct and through key reads on a pty",
    "C19": "runtime monitor: typed versus read streams and line settings on a pseudo-terminal",
    "C20": "runtime monitor: offline exactly-once/order checker over feed/read histories under schedule perturbation",
    "C21": "runtime monitor: timers, handlers, line settings and results around timed blocks and reads",
    "C22": "runtime monitor: modes, title stack and echo in an emulator under injected exceptions",
    "C23": "runtime monitor: listener call log versus presented sizes",
    "C24": "runtime monitor: interpreter audit hook, recorded stream calls and descriptors",
    "C25": "runtime monitor: listener call log versus list model",
    "C26": "runtime monitor: replying terminal emulator behind a pseudo-terminal",
    "C27": "runtime monitor: the tools as processes on a pseudo-terminal, emulated display read back",
    "C28": "runtime monitor: traced memory per window of operations, resource counts",
}
NOTE = ("Held on every execution observed; the executions come from seeded generators (and enumerations"
        " where small), so absence of violations outside them is not shown. Trusts CPython, the oracle in"
        " mon/ and, where used, the kernel's pty. What was observed is counted in the evidence file.")
checks = []
for line in (root / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    cmd = f"/opt/venv/bin/python -B mon/run.py {pid}"
    checks.append({
        "property": pid, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
        "evidence_file": f"evidence/{pid}.json", "technique": TECH[pid], "level": "exploration",
        "level_note": NOTE,
    })
(root / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B mon/selftest.py",
    "checks": checks, "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed at the public boundary. Known and fixed defects:"
             " known_findings.txt.",
}, indent=1) + "\n")
