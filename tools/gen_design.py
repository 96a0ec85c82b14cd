#!/opt/venv/bin/python
"""DESIGN.md = tools/design_*.md (prose) + tables drawn from the checks and the planted bugs.  Run after adding checks or bugs."""
import glob
import importlib
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
sys.dont_write_bytecode = True
read = lambda n: open(os.path.join(HERE, "tools", n)).read().strip()  # noqa
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
notes = {}
for part in re.split(r"^### ", read("design_properties.md"), flags=re.M)[1:]:
    head, body = part.split("\n", 1)
    notes[head.strip()] = body.strip()


def short(names, n=12):
    return "; ".join(names[:n]) + (f"; and {len(names) - n} more" if len(names) > n else "")


bugs = {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    bugs.setdefault(m["property"], []).append((os.path.basename(d), m))
out = [read("design_head.md"), "", "## 4. The properties one by one", ""]
for p in props:
    i = p["id"]
    m = importlib.import_module("checks." + i.lower())
    q, t = [c.name for c in m.cases("quick")], [c.name for c in m.cases("thorough")]
    out += [f"### {i} {p['title']}", "", notes[i], "",
            f"- Code: {', '.join(p['anchors']['files'][:4])}{' and others' if len(p['anchors']['files']) > 4 else ''}",
            f"- Quick ({len(q)} cases): {short(q)}",
            f"- Thorough adds ({len(t)} cases in all): {short([x for x in t if x not in q]) or 'more time only'}",
            "- Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", []) or ["nothing further"]),
            "- Planted: " + (", ".join(b for b, _ in bugs.get(i, [])) or "none"), ""]
out += [read("design_tail.md"), "", "### Planted bugs, what they need, and the check that reports them", "",
        "| bug | check | needs | breaks |", "|---|---|---|---|"]
for i in sorted(bugs):
    out += [f"| {b} | {m.get('caught_by', i)} | {m['needs']} | {m['what_it_breaks']} |" for b, m in bugs[i]]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(props), "properties", sum(map(len, bugs.values())), "bugs")
