#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (property section, findings, seed table) between markers, from the registry and the notes."""
import json, os, sys, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import registry as R
from design_notes import NOTES
from gen_manifest_na import NA, DEFAULT_NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = ["## Properties", ""]
for p in props:
    hs = [h for h in R.HARNESSES if h["property"] == p["id"]]
    o.append("### %s %s" % (p["id"], p["title"])); o.append("")
    if not hs: o += ["Not claimed: " + NA.get(p["id"], DEFAULT_NA), ""]; continue
    if p["id"] in NOTES: o += [NOTES[p["id"]].strip(), ""]
    seen = set()
    for h in hs:
        k = (h["entry"], h["what"])
        if k in seen: continue
        seen.add(k)
        o.append("* `%s` (%s, config %s): %s. Code: %s. Bounds: %s." % (h["entry"], h["file"], h["config"], h["what"], ", ".join(s for s in h["srcs"] if not s.startswith("@")) or "see the harness's includes", h["bounds"]))
    o.append("")
s = open(V + "/tools/DESIGN.in.md").read()
s = s.replace("PROPERTY_SECTION", "\n".join(o))
f = []
for l in open(V + "/known_findings.jsonl"):
    if l.strip():
        k = json.loads(l); f.append("* %s (%s): %s" % (k["property"], k["status"], k["what"]))
s = s.replace("FINDINGS", "\n".join(f))
t = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    t.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], res.get(d, "not run yet")))
s = s.replace("SEED_TABLE", "\n".join(t))
open(V + "/DESIGN.md", "w").write(s)
