#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (status fixed, suppress nothing)
and recorded ones (status known, matched by scenario, configuration and text)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git","-C","/repo","log","--format=%h\t%s"],capture_output=True,text=True).stdout
commit = {}
for l in log.splitlines():
    h, s = l.split("\t",1)
    commit[s] = h
F = []
def fixed(prop, subject, what):
    h = commit.get("fix: "+subject)
    assert h, subject
    F.append({"property":prop,"status":"fixed","commit":h,"what":what,"line":"fixed: property=%s %s %s"%(prop,h,what)})
def known(prop, scenario, config, match, what):
    F.append({"property":prop,"status":"known","scenario":scenario,"config":config,"match":match,"what":what,"line":"KNOWN-FINDING: property=%s %s"%(prop,what)})
exec(open(here+"/tools/findings.list").read())
json.dump(F, open(here+"/known_findings.json","w"), indent=1)
open(here+"/known_findings.json","a").write("\n")
