import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import engine, sim
import multiprocessing as mp, json
p=engine.load(sys.argv[1]); seed=int(sys.argv[2]); engine.PROP=p; sim.prepare(p.VARIANTS); engine.ROOT='/dev/shm/det'
N=int(sys.argv[3])
with mp.Pool(8) as pool:
    a=pool.map(engine._work,[(i,engine.scenario_of(p,seed,i,'quick'),'a%d'%i) for i in range(N)],1)
    b=pool.map(engine._work,[(i,engine.scenario_of(p,seed,i,'quick'),'b%d'%i) for i in range(N)],1)
for (i,x),(_,y) in zip(a,b):
    if x['fp']!=y['fp']: print(i,x['runs'],y['runs'], engine.scenario_of(p,seed,i,'quick').get('knobs'))
