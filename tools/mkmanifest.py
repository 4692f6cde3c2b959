#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with an entry in jobs.CHECKS is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "none: the harness uses the public interface only", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "The executor (symx), the harness, the models of cryptographic primitives and the replay program are built by setup_cmd "
             "and, when needed, by every check. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in jobs.CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the crate's LLVM IR; assertions and path conditions decided by an SMT solver (z3, bit vectors)",
            "level": "model_checking",
            "level_note": "Exhaustive within stated bounds: " + jobs.CHECKS[i]["bounds"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
