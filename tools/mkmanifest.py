"""Writes /verif/MANIFEST.json from the table of claims (run: python3 tools/mkmanifest.py)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
from claims import CLAIMS
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for pid in props:
    if pid in CLAIMS:
        module, note = CLAIMS[pid]
        checks.append(dict(
            property=pid, quick_cmd=f"VERIF_TIER=quick ./run.sh {pid}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {pid}",
            evidence_file=f"evidence/{pid}.json",
            technique=f"TLA+ model ({module}) checked with TLC; behaviours replayed into the code" + (", recorded executions validated against it" if "Trace" in module else ""),
            level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in CLAIMS],
         notes="TLA+/TLC; no hooks in /repo. Known findings and repaired defects: known_findings.txt. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "not claimed")
