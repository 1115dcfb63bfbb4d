#!/usr/bin/env python3
"""writes MANIFEST.json: every property that has a module in dst/props is claimed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over rank schedules, message timing, thread interleavings and faults of the whole application, against "
TECH = json.load(open(V + "/tools/techniques.json"))
PURE = "A pure function of its arguments: no schedule, clock, I/O, message or fault can influence it, so there is nothing for a simulator to decide; generating inputs for it would be property-based testing, a different technique."
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if os.path.exists(V + "/dst/props/%s.py" % i.lower()) and i in TECH:
        t = TECH[i]
        c = "python3-vt check.py %s " % i
        checks.append(dict(property=i, quick_cmd=c + "quick", thorough_cmd=c + "thorough", technique=T + t["oracle"], level=t.get("level", "exploration"), level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=PURE if int(i[1:]) >= 30 else "check under construction"))
json.dump(dict(version=1, setup_cmd="python3-vt sim/build.py mpi ser mpisdm sersdm mpi_t ser_t sersdm_t mpisdm_t drv drvs", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks])
