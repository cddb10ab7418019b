"""Writes MANIFEST.json from vc/props.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif")
from vc import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i not in props.P: continue
    c = props.P[i]
    checks.append(dict(property=i, quick_cmd=f"python3-vt vc/run.py {i} --tier quick", thorough_cmd=f"python3-vt vc/run.py {i} --tier thorough",
        technique="contract-based deductive verification of the C++ source (contracts + loop/class invariants, verification conditions generated from the clang AST, discharged by z3/cvc5); failed obligations are replayed natively against the real code, functions outside the verifier's subset get a bounded native stand-in",
        level="proof", level_note=c.get("note", "All obligations of the functions under contract are discharged on every run; see evidence for what is assumed. " + ("Bounded only: " + "; ".join(c["bounded"]) if c.get("bounded") else "")),
        evidence_file=f"evidence/{i}.json"))
m = dict(version=1, setup_cmd="python3-vt vc/setup.py", hooks=dict(guard="REVERB_VERIF", enable="not used: no hooks were added to /repo", source_commits=[]),
    checks=checks, not_applicable=[dict(property=i, reason=props.NA.get(i, "not yet under contract")) for i in ids if i not in props.P],
    notes="Checks rebuild everything from /repo's working tree; caches under /verif/build are keyed by content.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
