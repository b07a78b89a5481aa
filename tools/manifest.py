"""Writes MANIFEST.json from the property list and the sections registered in mon/ (via grep, no imports)."""
import json
import re

NOTE = ("Held on the executions observed by this run (counts in the evidence file), not proved for all inputs. "
        "Oracle: {o}. Trusts the reference model in /verif/mon, NumPy and CPython.")

TECH = {}
TECH_DEFAULT = "runtime monitoring: events at the public API boundary judged by an independent reference-model oracle under generated workloads"


def write(root, P):
    have = set()
    for f in (root / "mon").glob("p_*.py"):
        have |= set(re.findall(r'@section\("([A-Z]\d\d)"', f.read_text()))
    orc = {}
    p = root / "tools" / "oracles.json"
    if p.exists():
        orc = json.loads(p.read_text())
    checks, na = [], []
    for q in P:
        i = q["id"]
        if i in have:
            checks.append({
                "property": i,
                "quick_cmd": f"bash check.sh {i} quick",
                "thorough_cmd": f"bash check.sh {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH.get(i, TECH_DEFAULT),
                "level": "exploration",
                "level_note": NOTE.format(o=orc.get(i, "independent executable model of the property (DESIGN.md)")),
            })
        else:
            na.append({"property": i, "reason": "monitor not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Pure-Python subject: no hooks in /repo are needed; the monitors interpose on the public API from "
                  "the harness (mon/observe.py). check.sh PROPERTY TIER runs one monitor; "
                  "python -m mon.run --replay FILE replays one recorded violation."}
    (root / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
