"""Writes MANIFEST.json from vx/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vx"))
from props import PROPS, NOT_APPLICABLE
m = {"version": 1,
     "setup_cmd": "cd /verif && cargo build --offline --locked --quiet --manifest-path replay/Cargo.toml && verus --version",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "notes": "Every check extracts the functions from /repo, splices in /verif/contracts, lets Verus discharge all obligations, refutes a vacuity canary in every verified body and runs the real crate on concrete inputs (bounded). No hooks in /repo."}
for p, c in sorted(PROPS.items()):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique", "contracts on the real code, discharged by Verus"),
                        "level": c.get("level", "proof"), "level_note": c["note"], "theorems": c.get("theorems", [])})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
