"""explore.py ID N [seed]: run N cases without stopping; group the violations"""
import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import os; os.environ.setdefault("OPENBLAS_NUM_THREADS","1")
from dst import engine, sim
import multiprocessing as mp, collections, re, time
p=engine.load(sys.argv[1]); N=int(sys.argv[2]); seed=int(sys.argv[3]) if len(sys.argv)>3 else 1
engine.PROP=p; sim.prepare(p.VARIANTS); engine.ROOT='/dev/shm/explore%d'%os.getpid(); import atexit, shutil; M=os.getpid(); atexit.register(lambda: os.getpid()==M and shutil.rmtree(engine.ROOT,ignore_errors=True))
g=collections.OrderedDict(); t=time.time(); non=0; st={}
with mp.Pool(int(os.environ.get('PPK_WORKERS','8'))) as pool:
    for i,r in pool.imap_unordered(engine._work,[(i,engine.scenario_of(p,seed,i,'quick'),'a%d'%i) for i in range(N)],1):
        if r['error']: print('ERROR case',i,r['error']); break
        non+=bool(r['nontrivial'])
        for k,v in r['stats'].items(): st[k]=st.get(k,0)+v
        for k,kk,m in r['violations']:
            h=k+': '+re.sub(r'[-+]?\d[\d.e+-]*','#',m)[:110]
            g.setdefault(h,[]).append((i,m,r['key']))
for h,l in sorted(g.items(),key=lambda x:-len(x[1])): print(len(l),h,'\n     e.g. case',l[0][0],l[0][1][:500],'\n     cases',[x[0] for x in l[:12]])
print(N,'cases',non,'nontrivial %.1fs'%(time.time()-t), {k:v for k,v in st.items() if k.startswith(('m.','fault'))})
