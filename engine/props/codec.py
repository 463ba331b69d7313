"""C04-C07, C09: frame and block codecs"""
from ..core import *
from .. import terms as TT
from ..interp import St, LENMAX
from ..values import Subst

IN = ('in',)


def cursor(a, f, seq, pos=ZERO):
    """(prepare, args) for a decoder called on the octets seq"""
    eng = a.eng
    t = eng.T[f['inputs'][0]]
    assert t['k'] == 'ref'
    cty = t['to']

    def mk(st):
        st.mem[('H', ('cursor',))] = mkagg(cty, 0, [mkref(('C', seq)), pos])
        return [mkref(('H', ('cursor',)))]
    return mk


def u8(a):
    return a.eng.tyid('u8')


def inseq(a):
    return mkseq(u8(a), [('c', IN, u8(a), ZERO, S((IN, 'len'), 0, LENMAX))])


def inlen():
    return S((IN, 'len'), 0, LENMAX)


def byte(i):
    return S((IN, K(i) if isinstance(i, int) else i), 0, 255)


def decode(a, f, seq, F=None, pos=ZERO):
    st = St()
    if F:
        st.F = dict(F)
    args = cursor(a, f, seq, pos)(st)
    return R.run_fn(a.eng, f, args=args, st=st)


def veq(x, y, F, eng=None):
    """True: provably equal, False: provably (or plainly) different, None: unknown"""
    if x is y:
        return True
    if isinstance(x, T) and isinstance(y, T):
        r = TT.eq(x, y, F)
        if r is None and samebits(x, y, 64, F):
            return True
        return r
    if isinstance(x, Sym) and isinstance(y, Agg) and eng:
        return veq(y, x, F, eng)
    if isinstance(x, Agg) and isinstance(y, Sym) and eng and x.ty == y.ty:
        t = eng.T[x.ty]
        if t['k'] == 'adt' and t['kind'] == 'enum':
            d = eng.discr(_Stub(F), y, x.ty)
            dv = t['variants'][x.var]['discr'] if 'discr' in t['variants'][x.var] else x.var
            r = TT.eq(d, K(dv), F)
            if r is not True:
                return r
            fs = [eng.sym(fl['ty'], (y.name, 'v%d' % x.var, i)) for i, fl in enumerate(t['variants'][x.var]['fields'])]
            return all3(veq(p, q, F, eng) for p, q in zip(x.fs, fs))
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.ty != y.ty or x.var != y.var or len(x.fs) != len(y.fs):
            return False
        return all3(veq(p, q, F, eng) for p, q in zip(x.fs, y.fs))
    if isinstance(x, Seq) and isinstance(y, Seq):
        return seq_eq(x, y, F, eng)
    if isinstance(x, Sym) and isinstance(y, Sym):
        return None
    if isinstance(x, Opq) and isinstance(y, Opq) and x.kind == y.kind and len(x.args) == len(y.args):
        return all3(veq(p, q, F, eng) if isinstance(p, (T, V)) else (p == q) for p, q in zip(x.args, y.args))
    if isinstance(x, Str) and isinstance(y, Str):
        return None
    if type(x) is not type(y):
        return None
    return None


def factbits(t, F, w):
    """bits of t (lowest first) with everything the facts pin; None when t may not fit w bits"""
    t = simp(t, F)
    if t.op == 'l':
        t = TT.lin2bits(t, F, 1)
    b = nbits(t, F, w)
    if b is None:
        return None
    out = []
    for x in b:
        if isinstance(x, tuple):
            y = simp(frombits([x]), F)
            if isk(y):
                x = kv(y)
        out.append(x)
    return out


def samebits(x, y, w, F):
    if not isinstance(x, T) or not isinstance(y, T):
        return None
    p, q = factbits(x, F, w), factbits(y, F, w)
    if p is not None and q is not None and p == q:
        return True
    return TT.eq(x, y, F)


class _Stub:
    def __init__(self, F):
        self.F = F
        self.mem = {}


def all3(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def expand(segs, F, eng):
    """short chunks of known length as single elements"""
    out = []
    for s in segs:
        if s[0] == 'c':
            n = simp(s[4], F)
            if isk(n) and kv(n) <= 64:
                out += [('e', eng.sym(s[2], (s[1], add(s[3], K(i))))) for i in range(kv(n))]
                continue
        out.append(s)
    return out


def seq_eq(x, y, F, eng):
    a, b = expand(x.segs, F, eng), expand(y.segs, F, eng)
    res = True
    while a and b:
        p, q = a[0], b[0]
        if p == q:
            a.pop(0)
            b.pop(0)
            continue
        if p[0] == 'e' and q[0] == 'e':
            r = veq(p[1], q[1], F, eng)
            if r is False:
                return False
            if r is None:
                res = None
            a.pop(0)
            b.pop(0)
            continue
        if p[0] == q[0] == 'c' and p[1] == q[1]:
            if TT.eq(p[3], q[3], F) is True and TT.eq(p[4], q[4], F) is True:
                a.pop(0)
                b.pop(0)
                continue
            return None
        if p[0] == q[0] == 'r':
            r = all3([veq(p[1], q[1], F, eng), TT.eq(p[2], q[2], F)])
            if r is not True:
                return r
            a.pop(0)
            b.pop(0)
            continue
        if p[0] in 'crl' and TT.eq(seqlen(mkseq(x.ety, [p])), ZERO, F) is True:
            a.pop(0)
            continue
        if q[0] in 'crl' and TT.eq(seqlen(mkseq(x.ety, [q])), ZERO, F) is True:
            b.pop(0)
            continue
        if p[0] == 'l' and q[0] == 'c' or p[0] == 'c' and q[0] == 'l':
            l, c = (p, q) if p[0] == 'l' else (q, p)
            # the loop rebuilds exactly the elements of the chunk
            if len(l[3]) == 1 and l[3][0][0] == 'e' and TT.eq(l[2], c[4], F) is True:
                e = eng.sym(c[2], (c[1], add(c[3], l[1])))
                r = veq(l[3][0][1], e, F, eng)
                if r is True:
                    a.pop(0)
                    b.pop(0)
                    continue
            return None
        return None
    for rest in (a, b):
        for s in rest:
            n = TT.eq(seqlen(mkseq(x.ety, [s])), ZERO, F)
            if n is not True:
                lo, _ = rng(seqlen(mkseq(x.ety, [s])), F)
                return False if lo > 0 else None
    return res


# ------------------------------------------------------------------ what the format fixes
# kind -> (service identifier, fixed total length or None, offset of the first nested block or None)
FRAMES = {
    'ConnectionRequest': (0x0205, 26, 6),
    'ConnectionResponse': (0x0206, 20, 8),
    'ConnectionstateRequest': (0x0207, 16, 8),
    'ConnectionstateResponse': (0x0208, 8, None),
    'DisconnectRequest': (0x0209, 16, 8),
    'DisconnectResponse': (0x020a, 8, None),
    'SearchRequest': (0x0201, 14, 6),
    'SearchResponse': (0x0202, None, 6),
    'TunnelingRequest': (0x0420, None, None),
    'TunnelingAck': (0x0421, 10, None),
    'FeatureResp': (0x0423, 13, None),
    'FeatureSet': (0x0424, None, None),
}
CONHDR = ('TunnelingRequest', 'TunnelingAck', 'FeatureResp', 'FeatureSet')     # connection header at 6, length 4
BLOCKS = ['HPAI', 'CRI', 'CRD', 'DIB']
ROUND = ['KnxNetIpHeader', 'HPAI', 'CRD', 'ConnectionResponse', 'ConnectionstateRequest', 'ConnectionstateResponse', 'DisconnectRequest',
         'DisconnectResponse', 'SearchRequest', 'SearchResponse', 'DIB', 'TunnelingRequest', 'TunnelingAck', 'FeatureResp']
REFUSED = {0x22, 0x23, 0x24, 0x29}


def limits(a, size=True):
    """values the wire fields can express"""
    for t in a.eng.T:
        if t['k'] == 'adt' and t.get('local'):
            n = t['path'].split('::')[-1]
            if n == 'IndividualAddress':
                a.eng.limits[t['path']] = {0: (0, 15), 1: (0, 15), 2: (0, 255)}
            elif n == 'InternalBitFlags':
                a.eng.limits[t['path']] = {0: (0, 1)}


def selfty(a, f):
    t = a.eng.T[f['inputs'][0]]
    return t['to'] if t['k'] in ('ref', 'ptr') else f['inputs'][0]


def bound_lens(a, v, F, isdib):
    """sequences no longer than their length field can count"""
    if isinstance(v, Agg):
        tn = a.eng.T[v.ty]['s'] if v.ty is not None else ''
        d = isdib or tn.endswith('DIB')
        for f in v.fs:
            bound_lens(a, f, F, d)
    elif isinstance(v, Seq):
        n = seqlen(v)
        if not isk(n):
            TT.assume(F, TT.cmp('Le', n, K(125 if isdib else 65525)), True)


def instances(a, f):
    """(label, args, state) covering every value of the receiver that its wire form can express"""
    eng = a.eng
    ty = selfty(a, f)
    t = eng.T[ty]
    out = []
    if t['k'] == 'adt' and t['kind'] == 'enum':
        vs = [(v['name'], mkagg(ty, i, [eng.sym(x['ty'], (('m',), i, j)) for j, x in enumerate(v['fields'])])) for i, v in enumerate(t['variants'])]
    else:
        vs = [('', eng.sym(ty, ('m',)))]
    for lab, v in vs:
        st = St()
        bound_lens(a, v, st.F, False)
        if eng.T[f['inputs'][0]]['k'] == 'ref':
            st.mem[('H', ('self',))] = v
            args = [mkref(('H', ('self',)))]
        else:
            args = [v]
        out.append((lab, v, args, st))
    return out


def encodings(a, name):
    """(label, value, state, octets) for every way `name` is encoded"""
    f = a.meth(name, 'packet')
    res = []
    for lab, v, args, st in instances(a, f):
        r = R.run_fn(a.eng, f, args=args, st=st)
        a.note_run(r)
        a.count('encoder_paths', len(r.outs))
        for s, q in r.outs:
            res.append((lab, v, s, q))
    if not res:
        a.violation('%s::packet' % name, 'never returns')
    return f, res


def at(a, s, q, i):
    try:
        return a.eng.seq_get(s, q, K(i) if isinstance(i, int) else i)
    except Exception:
        return None


def proved(a, key, r, text, s=None):
    """r: True proven / False or None: not so on some path"""
    if s is not None and s.taint and r is not True:
        r = None
    elif r is None:
        r = False
    a.ob(r, key, text)


def eqk(v, n, F):
    return TT.eq(v, K(n) if isinstance(n, int) else n, F) if isinstance(v, T) else None


def word(hi, lo):
    if not isinstance(hi, T) or not isinstance(lo, T):
        return None
    return add(scale(hi, 256), lo)


def word_is(hi, lo, n, F):
    """do the octets hi lo hold the number n (0 <= n < 65536)?"""
    if not isinstance(hi, T) or not isinstance(lo, T):
        return None
    n = simp(n, F)
    w = nbits(n, F, 16)
    a, b = nbits(simp(hi, F), F, 8), nbits(simp(lo, F), F, 8)
    if w is not None and a is not None and b is not None:
        if list(b) + list(a) == list(w):
            return True
    return TT.eq(add(scale(hi, 256), lo), n, F)


def c04(a):
    limits(a)
    for name, (svc, fixed, nest) in FRAMES.items():
        f, encs = encodings(a, name)
        for lab, v, s, q in encs:
            k = '%s::packet' % name
            if not isinstance(q, Seq):
                proved(a, k + ' result', None, 'not a sequence of octets: %r' % (q,), s)
                continue
            F = s.F
            n = seqlen(q)
            b = [at(a, s, q, i) for i in range(8)]
            proved(a, k + ' header size', eqk(b[0], 6, F), 'octet 0 is %r' % (b[0],), s)
            proved(a, k + ' version', eqk(b[1], 0x10, F), 'octet 1 is %r' % (b[1],), s)
            proved(a, k + ' service identifier', all3([eqk(b[2], svc >> 8, F), eqk(b[3], svc & 255, F)]), 'octets 2-3 are %r %r, service 0x%04x' % (b[2], b[3], svc), s)
            proved(a, k + ' total length', word_is(b[4], b[5], n, F), 'octets 4-5 are %r %r but %r octets are produced' % (b[4], b[5], n), s)
            if fixed is not None:
                proved(a, k + ' fixed length', TT.eq(n, K(fixed), F), '%r octets' % (n,), s)
            if name in CONHDR:
                proved(a, k + ' connection header length', eqk(b[6], 4, F), 'octet 6 is %r' % (b[6],), s)
            if nest is not None:
                pos = K(nest)
                for _ in range(8):
                    if TT.eq(pos, n, F) is True:
                        break
                    L = at(a, s, q, pos)
                    if not isinstance(L, T):
                        break
                    pos = add(pos, simp(L, F))
                proved(a, k + ' nested blocks', TT.eq(simp(pos, F), simp(n, F), F), 'block lengths lead to %r, the frame has %r octets' % (pos, n), s)
            a.sample('%s: %r' % (name, q))
    for name in BLOCKS:
        f, encs = encodings(a, name)
        for lab, v, s, q in encs:
            k = '%s::packet %s' % (name, lab)
            if not isinstance(q, Seq):
                proved(a, k, None, 'not a sequence of octets', s)
                continue
            L, n = at(a, s, q, 0), simp(seqlen(q), s.F)
            r = TT.eq(simp(L, s.F), n, s.F) if isinstance(L, T) else None
            if r is not True and isinstance(L, T) and (name == 'DIB' or name.endswith('DIB')):
                # padding of an odd block
                lo, hi = rng(sub(n, simp(L, s.F)), s.F)
                last = q.segs[-1]
                r = lo == 0 and hi <= 1 or (lo == hi == 1 and last == ('e', ZERO))
            proved(a, k + 'block length', r, 'length octet %r, block has %r octets' % (L, n), s)
    a.count('frame_kinds', len(FRAMES))
    a.count('block_kinds', len(BLOCKS))


def norm_exempt(a, v, w):
    """copy of the decoded value v with the redundant fields of description blocks taken from w"""
    eng = a.eng
    if isinstance(v, Agg) and isinstance(w, Agg) and v.ty == w.ty and v.var == w.var and v.ty is not None and len(v.fs) == len(w.fs):
        fs = []
        t = eng.T[v.ty]
        flds = t['variants'][v.var]['fields'] if 'variants' in t and v.var < len(t['variants']) else []
        for i, (p, q) in enumerate(zip(v.fs, w.fs)):
            if i < len(flds):
                ts = eng.T[flds[i]['ty']]['s']
                if ts.endswith('DescriptionTypeCode'):
                    fs.append(q)
                    continue
                if ts == 'u8' and i + 1 < len(flds) and eng.T[flds[i + 1]['ty']]['s'].endswith('DescriptionTypeCode'):
                    fs.append(q)
                    continue
            fs.append(norm_exempt(a, p, q))
        return mkagg(v.ty, v.var, fs)
    return v


def diff(x, y, F, eng, path=''):
    """first differing field"""
    if isinstance(x, Agg) and isinstance(y, Agg) and x.ty == y.ty and x.var == y.var:
        t = eng.T[x.ty] if x.ty is not None else {}
        fl = t['variants'][x.var]['fields'] if 'variants' in t and x.var < len(t['variants']) else None
        for i, (p, q) in enumerate(zip(x.fs, y.fs)):
            if veq(p, q, F, eng) is not True:
                return diff(p, q, F, eng, path + '.' + (fl[i]['name'] if fl and i < len(fl) else str(i)))
    return '%s: %.200r instead of %.200r' % (path, x, y)


def c05(a):
    limits(a)
    for name in ROUND:
        f, encs = encodings(a, name)
        g = a.meth(name, 'from_packet')
        for lab, v, s, q in encs:
            k = '%s %s' % (name, lab)
            if not isinstance(q, Seq):
                proved(a, k, None, 'encoder result is not a sequence', s)
                continue
            r = decode(a, g, q, s.F)
            a.note_run(r)
            if r.budget:
                a.undecided(k, r.budget)
                continue
            if not r.outs:
                proved(a, k + 'decodes', None, 'decoding its own encoding never returns', s)
            for s2, w in r.outs:
                tn = s2.taint or s.taint
                s2.taint = tn
                if not isinstance(w, Agg):
                    proved(a, k + ' decodes', None, repr(w), s2)
                    continue
                if w.var != 0:
                    if name == 'ConnectionResponse':
                        st = at(a, s, q, 7)
                        lo, hi = rng(simp(st, s2.F), s2.F) if isinstance(st, T) else (0, 255)
                        if all(x in REFUSED or isinstance(st, T) and TT.eq(st, K(x), s2.F) is False for x in range(lo, hi + 1)):
                            a.ob(True, k)
                            continue
                    proved(a, k + ' decodes', False, 'its encoding is rejected: %r when %s' % (w.fs[0], facts(s2.F)), s2)
                    continue
                got = norm_exempt(a, w.fs[0], v)
                e = veq(got, v, s2.F, a.eng)
                proved(a, k + ' fields', e, '' if e is True else diff(got, v, s2.F, a.eng), s2)
            a.sample('%s: %d decode partitions of %.200r' % (k, len(r.outs), q))
        a.count('message_kinds')


def facts(F, n=12):
    out = []
    for k, x in list(F.items())[:n]:
        out.append('%s in [%s,%s]' % (repr(k)[:80], x[0] if x[0] > -INF else '', x[1] if x[1] < INF else ''))
    return '; '.join(out)


# ------------------------------------------------------------------ decoders
POS = S(('pos',), 0, LENMAX)


def pb(i):
    """octet i after the cursor's position"""
    return S((IN, add(POS, K(i) if isinstance(i, int) else i)), 0, 255)


def decoded(a, name):
    g = a.meth(name, 'from_packet')
    r = decode(a, g, inseq(a), None, POS)
    a.note_run(r)
    if r.budget:
        a.undecided(name, r.budget)
    a.count('decoder_paths', len(r.outs))
    oks = [(s, v.fs[0]) for s, v in r.outs if isinstance(v, Agg) and v.var == 0]
    if not oks and not r.budget:
        a.violation('%s::from_packet' % name, 'never succeeds')
    return r, oks


DECODERS = ['ConnectionResponse', 'ConnectionstateRequest', 'ConnectionstateResponse', 'DisconnectRequest', 'DisconnectResponse',
            'SearchRequest', 'SearchResponse', 'TunnelingRequest', 'TunnelingAck', 'FeatureResp']


def c06(a):
    for name in DECODERS:
        svc, fixed, nest = FRAMES[name]
        r, oks = decoded(a, name)
        want = [('header size', 0, 6), ('protocol version', 1, 0x10), ('service identifier high', 2, svc >> 8), ('service identifier low', 3, svc & 255)]
        if name in ('ConnectionstateResponse', 'DisconnectResponse', 'TunnelingAck', 'FeatureResp'):
            want += [('total length high', 4, 0), ('total length low', 5, fixed)]
        if name in CONHDR:
            want.append(('connection header length', 6, 4))
        if nest is not None:
            want.append(('endpoint block length', nest, 8))
        if name == 'ConnectionResponse':
            want.append(('data block length', 16, 4))
        for s, v in oks:
            for what, i, n in want:
                proved(a, '%s::from_packet %s' % (name, what), TT.eq(simp(pb(i), s.F), K(n), s.F),
                       'a frame whose octet %d is not 0x%02x is accepted' % (i, n), s)
            if name == 'ConnectionResponse':
                for c in sorted(REFUSED):
                    e = TT.eq(simp(pb(7), s.F), K(c), s.F)
                    proved(a, 'ConnectionResponse::from_packet refusal 0x%02x' % c, e is False or None, 'status 0x%02x is accepted as a connection' % c, s)
        a.count('decoders')
        a.sample('%s: %d accepting paths' % (name, len(oks)))
    for name, n in (('HPAI', 8), ('CRD', 4)):
        r, oks = decoded(a, name)
        for s, v in oks:
            proved(a, '%s::from_packet block length' % name, TT.eq(simp(pb(0), s.F), K(n), s.F), 'another block length is accepted', s)
    r, oks = decoded(a, 'KnxNetIpHeader')
    for s, v in oks:
        proved(a, 'KnxNetIpHeader::from_packet header size', TT.eq(simp(pb(0), s.F), K(6), s.F), 'another header size is accepted', s)
        proved(a, 'KnxNetIpHeader::from_packet version', TT.eq(simp(pb(1), s.F), K(0x10), s.F), 'another version is accepted', s)


def need(name, s):
    """octets a successful decoder must have had available"""
    w = lambda i: add(scale(pb(i), 256), pb(i + 1))
    fixed = {'KnxNetIpHeader': 6, 'HPAI': 8, 'CRD': 4, 'ConnectionResponse': 20, 'ConnectionstateRequest': 16, 'ConnectionstateResponse': 8,
             'DisconnectRequest': 16, 'DisconnectResponse': 8, 'SearchRequest': 14, 'TunnelingAck': 10, 'FeatureResp': 13}
    if name in fixed:
        return [K(fixed[name])]
    if name == 'TunnelingRequest':
        return [K(10), w(4)]
    if name == 'DIB':
        return [dib_need(s, 0)]
    if name == 'SearchResponse':
        return [K(70), add(K(68), dib_need(s, 68))]
    if name == 'CEMI':
        return [K(2)]


def dib_need(s, at):
    """octets of the description block at offset `at`"""
    k = simp(pb(at + 1), s.F)
    L = simp(pb(at), s.F)
    k = kv(k) if isk(k) else None
    if k in (2, 5):
        h = 2 if k == 2 else 4
        return add(K(h), scale(div(sub(L, K(h)), 2, s.F), 2))
    return {1: K(54), 3: K(16), 4: K(20)}.get(k, L)


def octets(v, out, eng):
    """octet sequences inside a decoded value"""
    if isinstance(v, Agg):
        for f in v.fs:
            octets(f, out, eng)
    elif isinstance(v, Seq):
        if v.ety is not None and eng.T[v.ety]['s'] == 'u8':
            out.append(v)
        else:
            for s in v.segs:
                if s[0] == 'e':
                    octets(s[1], out, eng)
                elif s[0] == 'l':
                    for x in s[3]:
                        if x[0] == 'e':
                            octets(x[1], out, eng)
    return out


def invented(a, s, v):
    """first octet of a result that is not an octet of the input"""
    for q in octets(v, [], a.eng):
        for g in q.segs:
            if g[0] == 'r':
                z = TT.eq(g[2], ZERO, s.F)
                if z is not True:
                    return 'filled with %r times %r' % (g[2], g[1])
            if g[0] == 'e' and isinstance(g[1], T) and isk(g[1]):
                return 'constant octet %r' % (g[1],)
            if g[0] == 'c' and '@partial' in repr(g[1]):
                return 'octets of a failed read'
    return None


def short_loop(a, s):
    """a read inside a loop that got fewer octets than asked for and went on"""
    for e in tlist(s.trace):
        if e[0] == 'L':
            for segs in a.eng.loopseg.get(e[1], {}).values():
                for g in segs:
                    for x in g:
                        if x[0] == 'short':
                            return 'short read in a loop of %s' % short(x[1])
    return None


def c07(a):
    for name in ['KnxNetIpHeader', 'HPAI', 'CRD'] + DECODERS + ['DIB', 'CEMI']:
        r, oks = decoded(a, name)
        for s, v in oks:
            k = '%s::from_packet' % name
            for n in need(name, s):
                e = avail(s, n)
                proved(a, k + ' length %s' % sh(n), e, 'succeeds although fewer than %s octets are there; %s' % (sh(n), facts(s.F)), s)
            x = invented(a, s, v) or short_loop(a, s)
            proved(a, k + ' octets', x is None, 'result holds octets that were not received: %s' % x, s)
            if name == 'TunnelingRequest':
                # the content is exactly what the length announces
                q = [x for x in octets(v, [], a.eng)]
                n = sub(add(scale(pb(4), 256), pb(5)), K(10))
                e = len(q) == 1 and TT.eq(seqlen(q[0]), simp(n, s.F), s.F) or len(q) == 1 and TT.eq(add(seqlen(q[0]), K(10)), word_t(s, 4), s.F)
                proved(a, k + ' content length', e or None, 'cEMI content has %r octets' % (seqlen(q[0]) if q else None), s)
        a.count('decoders')
        a.sample('%s: %d accepting paths, needs %s' % (name, len(oks), [sh(n) for n in need(name, oks[0][0])] if oks else ''))
    for name in ('LDataInd', 'LDataCon'):
        f = a.meth(name, 'from_cemi')
        r = a.run(f)
        cemi = r.args[0]
        svc = [x for x in cemi.fs if isinstance(x, Seq) and a.eng.T[x.ety]['s'] == 'u8']
        if len(svc) != 1:
            raise Missing('CEMI.service_info')
        svc = svc[0]
        L = seqlen(svc)
        b6 = a.eng.sym(u8(a), (svc.segs[0][1], K(6)))
        oks = [(s, v.fs[0]) for s, v in r.outs if isinstance(v, Agg) and v.var == 0]
        for s, v in oks:
            k = '%s::from_cemi' % name
            ns = [K(6)] if name == 'LDataCon' else [K(9), add(K(8), b6)]
            for n in ns:
                e = TT.truth(TT.cmp('Ge', L, simp(n, s.F)), s.F)
                proved(a, k + ' length %s' % sh(n), e, 'succeeds although fewer than %s octets are there; %s' % (sh(n), facts(s.F)), s)
            x = None
            for fv in v.fs:
                if isinstance(fv, Seq):
                    x = x or invented(a, s, fv)
            proved(a, k + ' octets', x is None, 'result holds octets that were not received: %s' % x, s)
        if not oks:
            a.violation(name + '::from_cemi', 'never succeeds')
        a.count('decoders')
    for ty, w in DPT_WIDTH.items():
        f = a.meth(ty, 'from_bytes')
        r = a.run(f)
        q = a.eng.deref(St(), r.args[0])
        oks = [(s, v.fs[0]) for s, v in r.outs if isinstance(v, Agg) and v.var == 0]
        for s, v in oks:
            e = TT.truth(TT.cmp('Ge', seqlen(q), K(w)), s.F)
            proved(a, '%s::from_bytes length' % ty, e, 'succeeds with fewer than %d octets' % w, s)
        a.count('decoders')


DPT_WIDTH = {'PdtKnxScaledValue': 1, 'PdtKnxInt': 2, 'PdtKnxFloat': 2, 'PdtKnxByte': 1, 'PdtKnxWord': 2, 'PdtKnxULong': 4, 'PdtKnxBit': 1, 'PdtKnxB1U3': 1}


def word_t(s, i):
    return simp(add(scale(pb(i), 256), pb(i + 1)), s.F)


def avail(s, n):
    d = sub(inlen(), add(POS, n))
    r = TT.truth(TT.cmp('Ge', d, ZERO), s.F)
    if r is None:
        r = TT.truth(TT.cmp('Ge', simp(d, s.F), ZERO), s.F)
    if r is None:
        # a two-octet number may be kept as one bit string
        d2 = relin(d, s.F)
        r = TT.truth(TT.cmp('Ge', d2, ZERO), s.F)
    if r is None:
        for d2 in by_equalities(d, s.F):
            r = r or TT.truth(TT.cmp('Ge', d2, ZERO), s.F)
    return r


def by_equalities(d, F):
    """d rewritten with the equalities x - y == v of F"""
    for k, (lo, hi, _) in F.items():
        if isinstance(k, T) and k.op == 'l' and lo == hi:
            c, t = lin(k)
            if len(t) == 2:
                (x, p), (y, q) = t.items()
                if p * q == -1:
                    if p < 0:
                        x, y = y, x
                    w = K(lo - c)                        # x = y + w
                    c2, t2 = lin(d)
                    for u, v, z in ((x, y, w), (y, x, sub(ZERO, w))):
                        if u in t2:
                            m = dict(t2)
                            n = m.pop(u)
                            yield add(mklin(c2, m), scale(add(v, z), n))


def relin(d, F):
    """replace 256*hi + lo by the 16-bit string hi:lo"""
    c, t = lin(d)
    t = dict(t)
    for x, p in list(t.items()):
        for y, q in list(t.items()):
            if x in t and y in t and p == 256 * q and x is not y:
                b = nbits(y, F, 8), nbits(x, F, 8)
                if b[0] is not None and b[1] is not None:
                    w = frombits(list(b[0]) + list(b[1]))
                    del t[x], t[y]
                    d = mklin(c, t)
                    return add(d, scale(w, q))
    return d


def sh(n):
    return repr(n).replace('<in.', '<').replace('(<pos>+', '(')


# ------------------------------------------------------------------ classification
CODES = {'TunnelingRequest': 0x0420, 'TunnelingAck': 0x0421, 'FeatureResponse': 0x0423, 'DisconnectResponse': 0x020a,
         'ConnectionstateResponse': 0x0208, 'DisconnectRequest': 0x0209}
DECNAME = {'FeatureResponse': 'FeatureResp'}


def conj(F, G):
    """facts F and G together, or None if contradictory"""
    H = dict(F)
    for k, (lo, hi, ex) in G.items():
        if not isinstance(k, T):
            continue
        l, h = rng(k, H)
        nl, nh = max(l, lo), min(h, hi)
        if nl > nh or nl == nh and nl in ex:
            return None
        if lo > -INF or hi < INF:
            if not TT._setf(H, k, lo if lo > -INF else None, hi if hi < INF else None):
                return None
        for v in ex:
            if not TT._setf(H, k, ex=v):
                return None
    for k in list(H):
        lo, hi = rng(k, H)
        if lo > hi:
            return None
        s = simp(k, H)
        if isk(s) and not (H[k][0] <= kv(s) <= H[k][1] and kv(s) not in H[k][2]):
            return None
    return H


def c09(a):
    eng = a.eng
    f = a.fn('udp::parse_response')
    if eng.T[f['inputs'][0]]['s'] not in ('std::vec::Vec<u8>', '&[u8]'):
        raise Missing('parse_response(Vec<u8>)')
    arg = inseq(a) if eng.T[f['inputs'][0]]['k'] == 'adt' else mkref(('C', inseq(a)))
    r = R.run_fn(eng, f, args=[arg])
    a.note_run(r)
    rt = eng.T[eng.T[f['output']]['args'][0]]
    vn = [v['name'] for v in rt['variants']]
    ref = {}
    for name in CODES:
        if name not in vn:
            raise Missing('TunnelingResponse::' + name)
        g = a.meth(DECNAME.get(name, name), 'from_packet')
        d = decode(a, g, inseq(a))
        ref[name] = [(s, v.fs[0]) for s, v in d.outs if isinstance(v, Agg) and v.var == 0]
        a.note_run(d)
    seen = set()
    for s, v in r.outs:
        F = s.F
        if not isinstance(v, Agg):
            a.undecided('parse_response result: %r' % (v,)) if tainted(v) else proved(a, 'parse_response result', None, repr(v), s)
            continue
        if v.var == 0:
            x = v.fs[0]
            if not isinstance(x, Agg):
                a.undecided('parse_response result: %r' % (x,)) if tainted(x) else proved(a, 'parse_response result', None, repr(x), s)
                continue
            name = vn[x.var]
            if name not in CODES:
                # a kind of message this property does not know; it must not take the place of a known one
                for n2, c in CODES.items():
                    e = all3([TT.eq(byte(2), K(c >> 8), F), TT.eq(byte(3), K(c & 255), F)])
                    proved(a, 'service 0x%04x as %s' % (c, name), True if e is False else None, 'classified as %s' % name, s)
                continue
            seen.add(name)
            c = CODES[name]
            e = all3([TT.eq(simp(byte(2), F), K(c >> 8), F), TT.eq(simp(byte(3), F), K(c & 255), F)])
            proved(a, '%s only for 0x%04x' % (name, c), e, 'another service identifier is handled as %s: %s' % (name, facts(F)), s)
            ok_ = False
            for s2, w in ref[name]:
                H = conj(F, s2.F)
                if H is not None and veq(x.fs[0], w, H, eng) is True:
                    ok_ = True
            proved(a, '%s content' % name, ok_ or None, 'value is not what %s::from_packet decodes' % DECNAME.get(name, name), s)
        else:
            # an error: then no known kind of frame is there
            for name, c in CODES.items():
                bad = None
                for s2, w in ref[name]:
                    H = conj(F, s2.F)
                    if H is not None:
                        bad = H
                proved(a, '%s accepted' % name, bad is None or None, 'a valid 0x%04x frame is reported as error: %s' % (c, facts(bad or {})), s)
    for name in CODES:
        a.ob(name in seen, '%s is recognised' % name, 'no path yields it')
    a.count('classifier_paths', len(r.outs))
    a.sample({n: '0x%04x' % c for n, c in CODES.items()})
