"""dbg.py replay.json : runs the scenario keeping its scratch directory in /dev/shm/dbg"""
import sys, json, os, shutil
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import engine, sim
rp=json.load(open(sys.argv[1])); p=engine.load(rp["property"]); sim.prepare(p.VARIANTS)
shutil.rmtree('/dev/shm/dbg',ignore_errors=True)
c=sim.Ctx('/dev/shm/dbg'); o=engine.Outcome(); p.run(rp["scenario"] if len(sys.argv)<3 else rp["original"],c,o)
for v in o.violations: print(v)
