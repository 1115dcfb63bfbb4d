"""case.py ID seed i: run one generated case and print its violations; the run directories stay in /dev/shm/case"""
import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import engine, sim
import shutil, json
p=engine.load(sys.argv[1]); engine.PROP=p; sim.prepare(p.VARIANTS)
sc=engine.scenario_of(p,int(sys.argv[2]),int(sys.argv[3]),'quick')
print(json.dumps(sc)[:3000])
json.dump(dict(property=p.ID,scenario=sc),open('/tmp/case.json','w'))
if len(sys.argv)>4:
    shutil.rmtree('/dev/shm/dbg',ignore_errors=True)
    c=sim.Ctx('/dev/shm/dbg'); o=engine.Outcome(); p.run(sc,c,o)
    for v in o.violations: print(v)
