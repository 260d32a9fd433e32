#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and checks.py
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
NA = {
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
out = {"version": 1, "setup_cmd": "make -j8 -C engine", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": c.get("technique", "symbolic execution of the LLVM IR of /repo's headers and source with an SMT solver (Z3); counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": c.get("note", "all paths and all values within: " + "; ".join(u["bounds"] for u in c["units"] if u.get("tier", "quick") == "quick")[:1500]),
        })
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(out, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
