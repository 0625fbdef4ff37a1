import sys,time,traceback
from trace import *
E=mkengine()
lim=int(sys.argv[1]) if len(sys.argv)>1 else 60
import signal
def h(*a): raise TimeoutError()
signal.signal(signal.SIGALRM,h)
for p,b in sorted(E.bodies.items()):
    if '::test' in p or b.kind=='Closure' or b.derived or b.impltrait: continue
    st=State()
    E.unknown.clear(); E.weak_notes.clear(); E.steps=0
    t0=time.time()
    signal.alarm(lim)
    try:
        r=E.run_fn(p,opaque_args(E,st,b),st)
        vals=[r]+[v for c,v in st.c.items() if c[0]=='arg']
        w=sum(1 for v in vals if v.wk)
        s='ok' if not w else 'WEAK'
    except Exception as e:
        s='EXC %s %s'%(type(e).__name__,str(e)[:100])
        fr=traceback.extract_tb(e.__traceback__)
        s+=' @'+' < '.join('%s:%d'%(f.name,f.lineno) for f in fr[-3:][::-1])
    signal.alarm(0)
    E.stack.clear()
    print('%-60s %5.1fs %s unk=%s notes=%s'%(p,time.time()-t0,s,dict(E.unknown),sorted(set(E.weak_notes))[:4]),flush=True)
