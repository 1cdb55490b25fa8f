#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props_data.py, the checks' own descriptions, known_findings.json and seeded/.

    python3 design.py
"""
import importlib, json, os, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
import props  # noqa: E402

PART = {}
cur = None
for l in open(os.path.join(HERE, "design_notes.md")):
    if l.startswith("## "):
        cur = l[3:].strip()
        PART[cur] = ""
    elif cur:
        PART[cur] += l
known = json.load(open(os.path.join(HERE, "known_findings.json")))
seeded = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    seeded.setdefault(m["property"], []).append((d, m))
catches = json.load(open(os.path.join(HERE, "catches.json"))) if os.path.exists(os.path.join(HERE, "catches.json")) else {}

o = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), ""]
for x in sorted(props.P, key=lambda x: x["id"]):
    if x["na"]:
        continue
    m = importlib.import_module(x["id"].lower())
    o += ["### %s  %s" % (x["id"], x["title"]), "", x["statement"], "",
          "*Quantified over* %s: %s. *Why the tests cannot settle it:* %s" % (", ".join(x["over"]), x["quant"], x["why"]), "",
          "*Analysed (checks/%s.py):* %s" % (x["id"].lower(), m.EXPLAIN), "", "*Rule:* %s" % m.RULE, "",
          "*Taken as given:* %s" % " ".join(m.ASSUME), ""]
    if x["id"] in PART:
        o += [PART[x["id"]].strip(), ""]
    fx = [k["what"] for k in known if k["property"] == x["id"]]
    if fx:
        o += ["*Defects of the original tree the check found or led to:*", ""] + ["- " + f for f in fx] + [""]
    for d, mm in seeded.get(x["id"], ()):
        o += ["- planted `seeded/%s`: %s (needs: %s). %s" % (d, mm["what_it_breaks"].strip().rstrip("."), mm["needs"].strip().rstrip("."), "Caught by: " + catches[d] if d in catches else "")]
    if x["id"] in seeded:
        o.append("")
o += ["## Not applicable", "", "Properties users rely on that this family of technique cannot decide here. Each is in MANIFEST.json under `not_applicable`.", ""]
for x in sorted(props.P, key=lambda x: x["id"]):
    if x["na"]:
        o += ["- **%s %s.** %s *Why not:* %s" % (x["id"], x["title"], x["statement"], x["na"])]
o += ["", PART.get("tail", "").strip(), ""]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o))
