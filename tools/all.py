import sys; sys.argv=['x']
exec(open('/verif/tools/try.py').read().split("if __name__")[0])
import traceback
for f in eng.fns:
    if f['key'] is None or not f['pub'] or f.get('async'): continue
    if f.get('derived'): continue
    b=eng.B[f['key']]
    eng.root=f['path']
    st=interp.St()
    args=[eng.sym(ty,('a%d'%i,)) for i,ty in enumerate(f['inputs'])]
    t=time.time(); eng.steps=0
    try: outs=eng.exec_body(st,b,args,((b['path'],0),),1)
    except interp.Budget as e: print('BUDGET',f['path'],e); continue
    except Exception as e:
        print('EXC',f['path']); traceback.print_exc(limit=-4); continue
    d=time.time()-t
    print('##',f['path'],len(outs),'outs','taint %d'%sum(s.taint for s,_ in outs) if any(s.taint for s,_ in outs) else '','%.2fs'%d if d>0.3 else '')
print('ALARMS'); 
for k,v in eng.alarms.items(): print('  ',k,v['span'],v['cond'])
print('UNDECIDED'); 
for k,v in eng.undecided.items(): print('  ',k,v['span'],v['cond'])
print('UNMODELLED'); 
for k,v in eng.unmodelled.items(): print('  ',k,v)
