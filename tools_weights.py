#!/usr/bin/env python3
"""Updates weights.json (job costs, used only to order jobs) from the evidence files of finished runs."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import run
V = os.path.dirname(os.path.abspath(__file__)); w = {}
try: w = json.load(open(V + "/weights.json"))
except OSError: pass
for p in sys.argv[1:]:
    for j in json.load(open(V + "/evidence/%s.json" % p))["coverage"]["per_job"]:
        if j.get("wall_s"): w[run.wkey(j["harness"], j["config"], j["preset"])] = round(j["wall_s"], 1)
json.dump(w, open(V + "/weights.json", "w"), sort_keys=True, separators=(",", ":"))
