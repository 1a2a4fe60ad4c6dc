#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the reasons below."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(H, "..")
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
import index
NA = {
    "C40": "whether exactly the visible parts of the edges are drawn is a statement about real-valued geometry of arbitrary meshes computed in floating point; no static rule in reach bounds the rounding and the clipping recursion",
    "C42": "the internal CHECKs of line generation compare floating-point values derived from the mesh (slopes, intersections); no sound static argument in reach excludes them for every mesh",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = index.TECHNIQUES
checks = []
na = []
for p in props:
    i = p["id"]
    if i in index.CHECKS:
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s thorough" % i, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check is registered yet")})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
