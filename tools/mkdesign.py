#!/usr/bin/env python3
"""Writes DESIGN.md from its parts."""
import os, json, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(V + "/tools/technique.json")); NA = T.get("_not_applicable", {}); D = json.load(open(V + "/tools/design_props.json"))
out = open(V + "/tools/design_head.md").read() + "\n"
for p in map(json.loads, open(V + "/properties.jsonl")):
    i = p["id"]
    if i in NA: out += "### %s %s\n\nNot claimed: %s.\n\n" % (i, p["title"], NA[i]); continue
    out += "### %s %s\n\n%s\n\n*%s.* %s\n\n" % (i, p["title"], D.get(i, ""), T[i][0][0].upper() + T[i][0][1:], T[i][1])
out += open(V + "/tools/design_limits.md").read() + "\n## 4. Findings\n\nGenuine defects of reactor-c found by these checks. Each fixed one is a `fix:` commit; the check that found it passes since.\n\n"
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed:"): x = l.split(None, 3); out += "* %s, fixed in %s: %s" % (x[1].split("=")[1], x[2], x[3])
out += "\nRecorded, not repaired (the check prints KNOWN-FINDING and exits 0):\n\n"
for l in open(V + "/known_findings.txt"):
    if l.startswith("known:"): x = l.split(None, 3); out += "* %s `%s`: %s" % (x[1].split("=")[1], x[2], x[3])
out += "\n" + open(V + "/tools/design_seeded.md").read() + "\n| Bug | Property | Needs | What it breaks | Caught by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); out += "| %s | %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"]))
open(V + "/DESIGN.md", "w").write(out)
