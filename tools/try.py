import sys,time
sys.path.insert(0,'/verif')
from engine import interp,terms as TT
from engine.values import *
from engine import build
eng=interp.load(build.dump())
def find(sfx): return [f for f in eng.fns if f['path'].endswith(sfx) and f['key'] is not None]
from engine import run as R
def show(r,name):
    print('##',name,len(r.outs),'outs',r.steps,'steps','BUDGET '+r.budget if r.budget else '')
    for s,v in r.outs:
        print('   ',v,'TAINT' if s.taint else '')
        for k,x in s.F.items(): print('        ',k,(x[0] if x[0]>-TT.INF else '-'),(x[1] if x[1]<TT.INF else '-'),set(x[2]) or '')
        for e in interp.tlist(s.trace): print('      >',e)
    print('ALARMS')
    for k,v in r.alarms.items(): print('  ',k,v['span'],v['cond'])
    print('UNDECIDED')
    for k,v in r.undecided.items(): print('  ',k,v['span'],v['cond'])
    print('UNMODELLED',r.unmodelled)
if __name__=='__main__':
    for a in sys.argv[1:]:
        for f in find(a):
            t=time.time()
            r=R.run_fn(eng,f)
            show(r,f['path']); print('%.2fs'%(time.time()-t))
            for k,l in r.spawned.items():
                for st,co in l:
                    t=time.time()
                    show(R.run_spawned(eng,f,k,st,co),str(k)); print('%.2fs'%(time.time()-t))
    print('LOOPS')
    for i,d in eng.loopseg.items():
        for h,segs in d.items():
            print('  ',i,h)
            for s in segs: print('      ',s)
