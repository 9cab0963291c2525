#!/usr/bin/env python3
"""Writes MANIFEST.json from the scenario sources and properties.jsonl."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
have = set()
for f in glob.glob(here + "/mc/scen*/*.go"):
    have |= set(re.findall(r'reg\("(C\d\d)"', open(f).read()))
have.add("C32")  # mc/js
NA = {
}
T = "stateless model checking of the real code: delay-bounded exhaustive schedule/fault/input enumeration under a controlled scheduler, virtual time and simulated network"
TJ = "explicit exhaustive enumeration of event sequences (calls, messages, closes, timers, HTTP results) on the real JavaScript client under virtual time and simulated WebSocket/XMLHttpRequest, against a reference model"
checks = []
na = []
for p in props:
    if p in have:
        checks.append({
            "property": p,
            "quick_cmd": "bash check.sh %s quick" % p,
            "thorough_cmd": "bash check.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TJ if p == "C32" else T,
            "level": "model_checking",
            "level_note": "Every execution of the listed closed scenarios within the stated deviation bound (schedule preemptions, early timers, read splits) and all data choices, run on the working tree's own code; bounds, states and transitions are in the evidence file.",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", [x["property"] for x in na])
