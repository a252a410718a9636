"""Writes MANIFEST.json: what is claimed, at which level."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT / "tools"))
from claims import CLAIMS, NOT_APPLICABLE
from props import PROPS

PROOF = "contract verification: symbolic execution of the real source under contracts, obligations discharged by normal forms, z3 and cvc5"
checks, na = [], []
for p in PROPS:
    pid = p["id"]
    if pid in CLAIMS:
        level, note = CLAIMS[pid]
        checks.append(dict(property=pid, quick_cmd=f"python3-vt check.py {pid} --tier quick", thorough_cmd=f"python3-vt check.py {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=PROOF if level == "proof" else "contracts evaluated on the real code, bounded (no deductive proof yet)",
                           level=level, level_note=note))
    else:
        na.append(dict(property=pid, reason=NOT_APPLICABLE.get(pid, "no contract built yet")))
(ROOT / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="python3-vt setup.py", checks=checks, not_applicable=na,
    notes="Contracts in contracts/, verifier in pyvc/, deciding command check.py; see DESIGN.md."), indent=1) + "\n")
print(len(checks), "claimed", len(na), "not claimed")
