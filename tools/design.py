"""Assemble DESIGN.md (python3 tools/design.py with the project interpreter) from the chapters and the registered monitors."""
import json, os, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
import mon.run as R
R.load()
from mon import core
sys.path.insert(0, str(ROOT / "tools"))
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
out = [(ROOT / "tools/design_head.md").read_text(), "## 3. Property by property\n",
       "Sections are listed as name (quick cases / thorough cases); a description follows where the section has one.\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Specified:* {p['statement']}\n")
    out.append(f"*Range:* {p['quantifier']['text']}. *Why tests cannot settle it:* {p['why_tests_cant']}\n")
    rule = core.RULES.get(i, "")
    out.append(f"*Monitor and oracle:* {rule}\n")
    for s in core.SECTIONS[i]:
        d = " ".join((s.fn.__doc__ or "").split())
        out.append(f"- `{s.name}` ({s.count('quick')} / {s.count('thorough')}){': ' + d if d else ''}")
    out.append("")
tail = (ROOT / "tools/design_tail.md").read_text()
lines = (ROOT / "known_findings.txt").read_text().splitlines()
f = "\n".join("- " + l for l in lines if l.strip() and not l.startswith("#"))
tail = tail.replace("@@FINDINGS@@", f)
res = ROOT / "tools/seeded_results.json"
res = json.loads(res.read_text()) if res.exists() else {}
rows = ["| change | needs | what it breaks | reported by |", "|---|---|---|---|"]
for sid, v in sorted(res.items()):
    rows.append(f"| {sid} | {v['needs']} | {v['breaks']} | {v['by']} |")
tail = tail.replace("@@SEEDED@@", "\n".join(rows))
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n" + tail)
