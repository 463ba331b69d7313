import json,collections,sys
D=json.load(open('/verif/build/dump.json'));T=D['types']
c=collections.Counter()
only=len(sys.argv)>1
for b in D['bodies']:
    if not b or (not b['local'] and not only): continue
    if only and b['local']: continue
    for b in [b]+b['promoted']:
        for bl in b['blocks']:
            if bl['cleanup']: continue
            t=bl['t']
            if t[0]=='call':
                f=t[1]
                if f[0]=='k' and T[f[1]['ty']]['k']=='fndef':
                    ca=T[f[1]['ty']]['callee']
                    if ca.get('local') and not ca.get('unresolved') : continue
                    if ca.get('ctor'): continue
                    k=(ca['path'],ca.get('rpath') or '','B' if ca.get('body') is not None else '-', 'U' if ca.get('unresolved') else '')
                    c[k]+=1
for k,n in sorted(c.items()):
    print(n,k[2]+k[3],k[0],'|',k[1] if k[1]!=k[0] else '')
