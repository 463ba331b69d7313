import sys; sys.path.insert(0,'/verif')
from engine.props.codec import *
from engine import core
a=core.A('X')
eng=a.eng
for f in eng.fns:
    if f['path'].endswith('::packet') and f['key'] is not None and (len(sys.argv)<2 or sys.argv[1] in f['path']):
        r=a.run(f)
        print('##',short(f['path']),len(r.outs), r.alarms or '', r.undecided or '')
        for s,q in r.outs:
            print('   E',str(q)[:600].replace('knx_ip_client::',''))
        ty=f['path'].split('::')[-2]
        g=a.have(ty+'::from_packet')
        if not g: continue
        for s,q in r.outs:
            orig=eng.deref(s,r.args[0])
            d=decode(a,g,q,s.F)
            print('   D',len(d.outs),d.alarms or '',d.undecided or '',d.budget or '')
            for s2,v in d.outs:
                if v.var==0:
                    print('      OK',veq(v.fs[0],orig,s2.F,eng),'TAINT' if s2.taint else '')
                    if veq(v.fs[0],orig,s2.F,eng) is not True:
                        print('         ',str(v.fs[0])[:700]); print('         ',str(orig)[:700])
                        for k,x in s2.F.items(): print('              ',str(k)[:150],x)
                else:
                    print('      ERR','TAINT' if s2.taint else '',v)
                    for k,x in s2.F.items(): print('              ',str(k)[:150],x)
