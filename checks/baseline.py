#!/usr/bin/env python3
"""Developer tool: records the functions, signatures and loops a unit's contracts are written for."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
for u in (sys.argv[1:] or run.UNITS):
    d = os.path.join(run.BUILD, "baseline"); os.makedirs(d, exist_ok=True)
    subprocess.run([os.path.join(run.BUILD, "extract/release/extract"), os.path.join(run.VERIF, "units", u + ".vrs"), run.REPO, d + "/o.rs", d + "/o.json"], check=True)
    s = run.shape(json.load(open(d + "/o.json")))
    json.dump(s, open(os.path.join(run.VERIF, "units", u + ".shape.json"), "w"), indent=0, sort_keys=True)
    print(u, len(s))
