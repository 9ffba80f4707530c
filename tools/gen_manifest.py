#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl. Unclaimed properties need a reason in NA below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import registry as R
sys.path.insert(0, os.path.join(V, "tools"))
from gen_manifest_na import NA, DEFAULT_NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = {h["property"] for h in R.HARNESSES}
NOTE = getattr(R, "LEVEL_NOTES", {})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", 
     "hooks": {"guard": "VP_VERIF", "enable": "no hooks are needed: harnesses compile the unmodified sources of /repo", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        tiers = {t for h in R.HARNESSES if h["property"] == i for t in h.get("tiers", ("quick", "thorough"))}
        b = sorted({h["bounds"] for h in R.HARNESSES if h["property"] == i})
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "CBMC symbolic execution of the real C sources, SAT-decided assertions, counterexamples replayed natively",
            "level": "other",
            "level_note": (NOTE.get(i, "") + " Bounded symbolic verdict, for all values within: " + "; ".join(b) + ". Trusts CBMC's C encoding and the environment stubs listed in DESIGN.md.").strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, DEFAULT_NA)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not applicable")
