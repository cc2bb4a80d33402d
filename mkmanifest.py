#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, subprocess
props=[json.loads(l) for l in open("properties.jsonl")]
ck=json.load(open("checks.json")); na=json.load(open("not_applicable.json"))
checks=[]; nas=[]
for p in props:
    i=p["id"]
    if i in ck:
        c=ck[i]
        checks.append(dict(property=i,quick_cmd="./check.py %s --tier quick"%i,thorough_cmd="./check.py %s --tier thorough"%i,
            evidence_file="evidence/%s.json"%i,technique=c["technique"],level=c.get("level","exploration"),level_note=c["note"]))
    else: nas.append(dict(property=i,reason=na.get(i,"No check built yet.")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=nas,
  hooks=dict(guard="none",enable="No hooks in /repo: the seams are put in at link level, on object code compiled from /repo's sources (sim/build.sh renames the library's calls of fopen, malloc and so on).",source_commits=[]),
  notes="Deterministic simulation with fault injection; see DESIGN.md. replay.sh PLAN replays a violation.")
json.dump(m,open("MANIFEST.json","w"),indent=1)
try:
    import jsonschema; jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid",len(checks),len(nas))
except ImportError: print("no jsonschema")
