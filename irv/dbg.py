import sys, time; sys.path.insert(0,'/verif/irv'); sys.setrecursionlimit(100000)
from build import *; import ir
from exec import Engine
import solver
solver.TRACE='-t' in sys.argv
src, names = sys.argv[1], sys.argv[2].split(',')
opts = dict(trace='-t' in sys.argv)
for a in sys.argv[3:]:
    if '=' in a and a[0]!='-': k,v=a.split('='); opts[k]=int(v)
os.makedirs('/tmp/w/b',exist_ok=True)
t=time.time()
mods=[a[3:] for a in sys.argv if a.startswith('-m=')]
p = build_ir(src,'/tmp/w/b', models=mods, exceptions='-x' in sys.argv) if '-n' not in sys.argv else '/tmp/w/b/'+os.path.splitext(os.path.basename(src))[0]+'.2.ll'
print('build',round(time.time()-t,1))
M = ir.Module(p)
if names==['all']: names=[n[9:] for n in M.fns if n.startswith('contract_')]
for nm in names:
    t=time.time(); e=Engine(M,'contract_'+nm,opts)
    try: e.verify(); st='ok'
    except Exception as x:
        st='EXC %s %s'%(type(x).__name__,x)
        if '-e' in sys.argv: raise
    print(nm, st, 'time',round(time.time()-t,1),'paths',e.paths,'obl',sum(v[0] for v in e.obl.values()),'ok',sum(v[1] for v in e.obl.values()),'nexec',e.nexec,'covers',e.covers, e.cover_names-e.covers, e.loops_cut, e.slow)
    for f in e.failures: print('   FAIL',f.name,f.status,f.loc, [ (x[1], f.model.eval(x[3]) if f.model is not None and x[0]=='int' else x[2]) for x in f.nondet])
    if '-v' in sys.argv:
        for k,v in e.obl.items(): print('     ',k,v)
    print({k:(round(v,2) if isinstance(v,float) else v) for k,v in solver.STATS.items()})
