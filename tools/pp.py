#!/usr/bin/env python3
"""Pretty-print a dumped body: tools/pp.py <substring of path>"""
import json,sys,os
d=json.load(open(os.environ.get('DUMP','/verif/build/dump.json')))
T=d['types'];B=d['bodies']
def ty(i): return T[i]['s'][:90]
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+=' as v%d'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o[0] in 'cm' and len(o)>1 and isinstance(o[1],list): return ('move ' if o[0]=='m' else '')+pl(o[1])
    if o[0]=='k':
        k=o[1]; t=T[k['ty']]
        if t['k']=='fndef': return 'fn '+t['callee']['path']+('[%s]'%t['callee'].get('body'))
        return 'const '+str({a:b for a,b in k.items() if a!='ty'})[:80]+':'+ty(k['ty'])[:30]
    return str(o)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return '&'+('mut ' if r[2] else '')+pl(r[1])
    if r[0]=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
    if r[0]=='cast': return '%s as %s (%s)'%(op(r[2]),ty(r[3]),r[1])
    if r[0]=='discr': return 'discr(%s)'%pl(r[1])
    if r[0]=='agg':
        k=r[1]
        n=k[0] if len(k)<2 else ty(k[1]) + ('::v%d'%k[2] if k[0]=='adt' else '')
        return 'agg %s {%s}'%(n,', '.join(op(x) for x in r[2]))
    return str(r)
for i,b in enumerate(B):
    if not any(a==str(i) or (not a.isdigit() and b['path'].endswith(a)) for a in sys.argv[1:]): continue
    print('=== [%d] %s'%(i,b['name']),'argc',b.get('argc'))
    for n,p in b['names']: print('   ',n,pl(p))
    for j,t in enumerate(b['locals'] if os.environ.get('LOC') else []): print('  _%d: %s'%(j,ty(t)))
    for j,bl in enumerate(b['blocks']):
        if bl['cleanup']: continue
        print(' bb%d:'%j, bl['sp'].split('/')[-1])
        for s in bl['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            elif s[0] in('live','dead'): pass
            else: print('   ',s)
        t=bl['t']
        if t[0]=='call': print('    %s = %s(%s) -> %s'%(pl(t[3]),op(t[1]),', '.join(op(x) for x in t[2]),t[4]))
        elif t[0]=='switch': print('    switch %s %s else %s'%(op(t[1]),t[2],t[3]))
        elif t[0]=='drop': print('    drop %s -> %s  %s'%(pl(t[1]),t[2],ty(t[3])))
        elif t[0]=='assert': print('    assert %s==%s %s -> %s'%(op(t[1]),t[2],t[3],t[5]))
        else: print('   ',t)
