"""Rewrites the generated part of DESIGN.md (run: python3 tools/mkdesign.py)."""
import glob, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
from claims import CLAIMS
from costs import THOROUGH, QUICK
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
bugs = {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    bugs.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
MISSED = set(open(os.path.join(ROOT, "tools", "missed.txt")).read().split())
out = []
for p in props:
    pid = p["id"]
    modules, note = CLAIMS[pid]
    cfgs = {}
    for mod in modules.split(", "):
        for c in sorted(glob.glob(os.path.join(ROOT, "specs", mod + "_*.cfg")) + glob.glob(os.path.join(ROOT, "specs", mod + ".cfg"))):
            cfgs[os.path.basename(c)[:-4]] = 1
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Quantifier:* {p['quantifier'] if isinstance(p['quantifier'], str) else json.dumps(p['quantifier'])}\n" if 0 else "")
    out.append(f"- Specification: " + ", ".join(f"`{m}`" for m in modules.split(", ")) + " (configurations " + ", ".join(f"`{c}`" for c in cfgs) + f"); harness `harness/{pid.lower()}.py`.")
    out.append(f"- Decided by: {note}")
    out.append(f"- What tests cannot reach: {p['why_tests_cant']}")
    out.append(f"- Cost: quick about {QUICK.get(pid, '?')} s, thorough about {THOROUGH.get(pid, '?')} s.")
    if pid in bugs:
        out.append("- Planted bugs, all detected by this check: " + "; ".join(f"`{b}` ({d['what_it_breaks']})" + (" **missed at first**" if b in MISSED else "") for b, d in bugs[pid]) + ".")
    out.append("")
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
a, b = "<!-- generated: begin -->\n", "<!-- generated: end -->"
i, j = s.index(a) + len(a), s.index(b)
open(path, "w").write(s[:i] + "\n".join(x for x in out if x is not None).replace("\n\n\n", "\n\n") + s[j:])
print(len(props), "properties", sum(map(len, bugs.values())), "planted bugs")
