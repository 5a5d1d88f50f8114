#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
C = json.load(open(V + "/checks.json"))["properties"]
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in C:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "contracts on the extracted real functions, discharged by Verus/Z3; failed obligations replayed on the compiled contracts",
            "level": "proof",
            "level_note": C[i].get("note", "Unbounded proof over the functions under contract; library contracts (contracts/shim_*.rs) are assumed. If the verifier cannot decide an edited source the check falls back to a bounded, labelled exploration.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet: the contracts for this part of the repository are not finished"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
