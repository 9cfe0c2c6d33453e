#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
A = "crates/mapping-algorithms/src/"
KD, DS, LX, PC, NN = A+"kd_tree/mod.rs", A+"point_clouds/downsample.rs", A+"point_clouds/lex_sort.rs", A+"point_clouds/mod.rs", A+"point_clouds/nearest_neighbour.rs"
ICP, ICPH, ICPT, ISO, NAN, UT = A+"point_clouds/icp/mod.rs", A+"point_clouds/icp/helpers.rs", A+"point_clouds/icp/types.rs", A+"types/isometry.rs", A+"types/is_nan.rs", A+"utils/mod.rs"
GS, JM, PM, PIP, BR, HV, LIB = A+"polygons/graham_scan.rs", A+"polygons/jarvis_march.rs", A+"polygons/mod.rs", A+"polygons/point_in_polygon.rs", A+"lines/bresenham.rs", A+"geo/haversine.rs", A+"lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "table.py")).read())

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "hook_needed": None}
        if q["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
        if q["observe"]: a["observe_at"] = q["observe"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every monitored fact is visible through the public interface, through a user-defined scalar type, or through the process (heap, stack, CPU time). See DESIGN.md."}
for q in P:
    m["checks"].append({"property": q["id"], "quick_cmd": "./check.sh " + q["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + q["id"],
        "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": "exploration", "level_note": q["note"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
