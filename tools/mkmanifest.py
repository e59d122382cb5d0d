#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "vp"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": "function contracts and loop invariants on the real C code, discharged by CBMC for all inputs; contract replay on the built library as bounded stand-in for the rest",
            "level": "proof", "level_note": props.note(i)})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
