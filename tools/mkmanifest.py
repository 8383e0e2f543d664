#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check registry and properties.jsonl."""
import os, sys, json
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "py"))
import check
reg = check.registry()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
NA = TECH.pop("_not_applicable", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg and i not in NA:
        t, note = TECH.get(i, ["runtime monitoring: reference-model oracle over instrumented executions, ASan/UBSan", "Held on the executions explored (see evidence)."])
        checks.append(dict(property=i, quick_cmd="python3 /verif/check.py %s --tier quick" % i, thorough_cmd="python3 /verif/check.py %s --tier thorough" % i,
                           technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 /verif/tools/setup.py", hooks=dict(guard="none", enable="no hooks in /repo: harnesses compile the working tree's sources and interpose with the linker's --wrap", source_commits=[]),
         checks=checks, not_applicable=na, notes="check.py compiles /repo's current sources into /verif/.build (content-addressed) on every run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
