#!/usr/bin/env python3
"""Derives floors.json from a quick run on the unchanged tree: every rule must
keep at least a tenth of its obligations (a rewrite may need fewer cases), and every entry point must be analysed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for i in range(1, 40):
    p = "C%02d" % i
    f = os.path.join(V, "evidence", p + ".json")
    if not os.path.exists(f): continue
    c = json.load(open(f))["coverage"]
    out[p] = dict(rules={r: max(1, x["obligations"] // 10) for r, x in c["rules"].items()}, entry_points=len(c.get("entry_points", [])))
json.dump(out, open(os.path.join(V, "floors.json"), "w"), indent=1, sort_keys=True)
