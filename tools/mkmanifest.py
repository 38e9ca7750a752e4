"""Writes /verif/MANIFEST.json from contracts/props.py (run from /verif with python3-vt)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from contracts.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in PROPS:
        continue
    i = PROPS[p]
    checks.append({"property": p, "quick_cmd": "python3-vt -m vc.main %s --tier quick" % p, "thorough_cmd": "python3-vt -m vc.main %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": i["technique"], "level": i["level"], "level_note": i["note"]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not claimed yet: its contracts are not finished")} for p in ids if p not in PROPS]
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, vc.main\" && cvc5 --version >/dev/null && mkdir -p evidence replays",
     "hooks": {"guard": "VERIF_NO_HOOKS_NEEDED", "enable": "no hooks: the checks parse and run /repo/src as it is", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
