import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import h5,sim
import numpy as np,glob
a,b=sys.argv[1:3]
for f in sorted(glob.glob(a+'/out_*.h5')):
    g=f.replace(a,b); A,B=h5.read(f),h5.read(g)
    if A is None or B is None: print(f,'unreadable'); continue
    for v in A:
        if v[0]=='@': 
            if A[v]!=B[v]: print(f[-10:],v,A[v],B[v])
        else:
            d=np.abs(A[v]-B[v]); print(f[-10:],v,d.max(), [tuple(map(int,x)) for x in np.argwhere(d>1e-12)[:6]])
