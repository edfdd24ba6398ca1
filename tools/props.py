#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.registry import WHERE

H = "ndt_gslam/include/ndt_gslam/"
S = "ndt_gslam/src/"
PG = H + "slam_optimizer/pose_graph.h"
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}))
    P[-1]["_"] = (tech, note, na)


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

PUB = [{k: v for k, v in p.items() if k != "_"} for p in P]
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in PUB:
        fh.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    tech, note, why = p["_"]
    if p["id"] in WHERE:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": tech or "abstract interpretation of the typed syntax trees (trace-partitioned value numbering), compared with an expected abstract value per partition",
            "level": "other",
            "level_note": note or "Every partition of the anchored functions is interpreted from the current source and its effect compared with the expected normal form; holds for all inputs of the interpreted partitions. Reals and unbounded integers are assumed, distinct symbolic paths are assumed not to alias; constructs the interpreter cannot follow are reported as undecided in the evidence and raise nothing.",
        })
    else:
        na.append({"property": p["id"], "reason": why or "no check yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "make -s -C analyzer", "checks": checks, "not_applicable": na}, fh, indent=1)
    fh.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
