#!/usr/bin/env python3
"""Puts DESIGN.md together: design_head.md, the table and paragraphs per property, the list of fixes, design_tail.md with
the table of planted bugs."""
import json, os, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import specs, design_notes
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
known = json.load(open(os.path.join(V, "known_findings.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), ""]
fixes = collections.Counter(f.split("property=")[1].split()[0] for f in known["fixed"])
out += ["| property | sanitizer builds | jobs (cases per shard quick / thorough x shards) | gate (least observed) | defects fixed |", "|---|---|---|---|---|"]
for p in props:
    s = specs.SPECS[p["id"]]
    jobs = "; ".join("%s %d / %d x %d" % (j["name"], j["quick"], j["thorough"], j["shards"]) for j in s["jobs"])
    gate = ", ".join("%s %d" % (k, v) for k, v in list(s["gate"].items())[:5]) + (", ..." if len(s["gate"]) > 5 else "")
    out.append("| %s | %s | %s | %s | %d |" % (p["id"], "+".join(sorted(set(j["flavor"] for j in s["jobs"]))), jobs, gate, fixes.get(p["id"], 0)))
out.append("")
for p in props:
    s = specs.SPECS[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "", "*Specified:* " + p["statement"], "",
            "*Why tests cannot settle it:* " + p["why_tests_cant"], "",
            "*Explored:* " + s["rule"] + ".", "", design_notes.N[p["id"]], "",
            "*Harness:* " + ", ".join(sorted(set("`harness/%s`" % j["src"] for j in s["jobs"]))) + "; *anchors:* " + ", ".join("`%s`" % f for f in p["anchors"]["files"]), ""]
out.append(open(os.path.join(V, "tools", "design_tail.md")).read().rstrip().replace("@FIXES@", "%d" % len(known["fixed"])).replace("@FINDINGS@", "%d" % len(known["findings"])))
out += ["", "| planted bug | property, caught by | needs |", "|---|---|---|"]
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
