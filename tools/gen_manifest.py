#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props.json, properties.jsonl and the texts below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/sim/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = json.load(open(V + "/tools/techniques.json"))
NA = {
 "C16": "Number conversions are pure functions of their argument: no schedule, clock, I/O, fault or interleaving decides them, so simulation has nothing to control. (Their use inside documents is exercised by C01, C11 and C14.)",
 "C17": "The charset, base64 and hex helpers are pure functions of their argument; their only environmental inputs (iconv_open failing, allocation failing) are injected by C06. Their use inside documents is exercised by C01, C02 and C14.",
}
checks, na = [], []
for i in ids:
    if i in props:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "level": "exploration", "technique": T[i][0], "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check under construction.")})
m = json.load(open(V + "/MANIFEST.json"))
m["checks"] = checks; m["not_applicable"] = na
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
