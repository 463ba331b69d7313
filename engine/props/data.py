"""C25-C29, C34: addresses, code tables, datapoint values, telegram contents"""
from ..core import *
from .. import terms as TT
from ..interp import St
from .codec import veq, all3, samebits, factbits, proved, at, eqk, word_is, seq_eq, IN, inseq, decode, u8
from ..models import nparts, mkpart


def call(a, f, args, st=None):
    """outcomes of f on args, from state st"""
    st = st.copy() if st else St()
    vals = []
    for i, x in enumerate(args):
        if a.eng.T[f['inputs'][i]]['k'] == 'ref' and not isinstance(x, Ref):
            b = ('H', ('arg', f['path'], i, len(st.mem)))
            st.mem[b] = x
            x = mkref(b)
        vals.append(x)
    r = R.run_fn(a.eng, f, args=vals, st=st)
    a.note_run(r)
    a.count('paths', len(r.outs))
    return r.outs


def chain(a, sts, f, mk):
    """[(st, v)] -> outcomes of f(mk(v))"""
    out = []
    for s, v in sts:
        out += call(a, f, mk(v), s)
    return out


def fields(a, v):
    t = a.eng.T[v.ty]
    return {x['name']: f for x, f in zip(t['variants'][v.var]['fields'], v.fs)}


def isok(v):
    return isinstance(v, Agg) and v.var == 0


# ------------------------------------------------------------------ C25
FORMS = {  # constructor -> field widths
    'individual': (4, 4, 8),
    'group_3_level': (5, 3, 8),
    'group_2_level': (5, 11),
    'group_1_level': (16,),
}
TEXT = [('individual', '.', (4, 4, 8)), ('three-level group', '/', (5, 3, 8)), ('two-level group', '/', (5, 11)), ('free group', '/', (16,))]


def place(parts, widths):
    """the 16-bit number of the parts"""
    n = ZERO
    for p, w in zip(parts, widths):
        n = add(scale(n, 1 << w), p)
    return n


def same16(x, n, F):
    return samebits(x, n, 16, F)


def c25(a):
    to16 = a.meth('KnxAddress', 'to_u16')
    inner = {}
    for ctor, widths in FORMS.items():
        f = a.meth('KnxAddress', ctor)
        parts = [S(('p', i), 0, (1 << w) - 1) for i, w in enumerate(widths)]
        want = place(parts, widths)
        outs = call(a, f, parts)
        for s, v in outs:
            for s2, x in call(a, to16, [v], s):
                proved(a, 'KnxAddress::%s wire form' % ctor, same16(x, want, s2.F), 'encodes as %r instead of the %s-bit fields of the parts' % (x, '/'.join(map(str, widths))), s2)
                a.sample('%s%r -> %r' % (ctor, tuple(parts), x))
            if isinstance(v, Agg) and len(v.fs) == 1:
                inner[ctor] = (s, v.fs[0], parts, want)
    n = S('n', 0, 65535)
    for name, ctor in (('IndividualAddress', 'individual'), ('Group3LevelAddress', 'group_3_level')):
        ff, tt = a.meth(name, 'from_u16'), a.meth(name, 'to_u16')
        for s, v in call(a, ff, [n]):
            for s2, x in call(a, tt, [v], s):
                proved(a, name + ' decode then encode', same16(x, n, s2.F), 'number n becomes %r' % (x,), s2)
        if ctor in inner:
            s0, v0, parts, want = inner[ctor]
            for s, x in call(a, tt, [v0], s0):
                proved(a, name + ' wire form', same16(x, want, s.F), 'encodes as %r' % (x,), s)
                for s2, v in call(a, ff, [x], s):
                    proved(a, name + ' encode then decode', veq(v, v0, s2.F, a.eng), 'becomes %r instead of %r' % (v, v0), s2)
    ngrp = [g for g in TEXT if g[1] == '/']
    for name, forms in (('KnxAddress', TEXT), ('IndividualAddress', TEXT[:1]), ('Group3LevelAddress', TEXT[1:2])):
        f = a.meth(name, 'try_from', 'TryFrom<&')
        t16 = a.meth(name, 'to_u16')
        s0 = mkstr(('text',))
        txt = mkref(('C', s0))
        # well-formed text is accepted and denotes its numbers
        for lab, sep, widths in forms:
            ps = [mkpart(s0, ('split', sep), K(i)) for i in range(len(widths))]
            st = St()
            okf = TT.assume(st.F, TT.cmp('Eq', nparts(s0, sep), K(len(widths))), True)
            for o in './':
                if o != sep:
                    okf = okf and TT.assume(st.F, TT.cmp('Eq', nparts(s0, o), ONE), True)
            if len(widths) == 1:
                whole = O('isnum', (s0,), 0, 1)
                TT.assume(st.F, whole, True)
            for p, w in zip(ps, widths):
                TT.assume(st.F, O('isnum', (p,), 0, 1), True)
                num = S(('num', p))
                TT.assume(st.F, TT.cmp('Ge', num, ZERO), True)
                TT.assume(st.F, TT.cmp('Lt', num, K(1 << w)), True)
            want = place([S(('num', p)) for p in ps], widths)
            for s, v in call(a, f, [txt], st):
                if foreign(a, s, s0):
                    s.taint = True
                proved(a, '%s text: %s accepted' % (name, lab), isok(v), 'well-formed %s address text is rejected; %s' % (lab, show_facts(s, st)), s)
                if isok(v):
                    for s2, x in call(a, t16, [v.fs[0]], s):
                        proved(a, '%s text: %s value' % (name, lab), same16(x, want, s2.F), 'denotes %r' % (x,), s2)
        # everything accepted is well-formed
        for s, v in call(a, f, [txt]):
            if not isok(v):
                continue
            good = any(wellformed(s, s0, sep, widths) for _, sep, widths in forms)
            if not good and foreign(a, s, s0):
                s.taint = True
            proved(a, '%s text: accepted is well-formed' % name, good, 'accepts text that is not an address: value %r with %s' % (v.fs[0], show_facts(s, None)), s)


def wellformed(s, s0, sep, widths):
    F = s.F
    if TT.truth(TT.cmp('Eq', nparts(s0, sep), K(len(widths))), F) is not True:
        return False
    for i, w in enumerate(widths):
        p = mkpart(s0, ('split', sep), K(i))
        if TT.truth(O('isnum', (p,), 0, 1), F) is not True:
            if not (len(widths) == 1 and TT.truth(O('isnum', (s0,), 0, 1), F) is True):
                return False
            p = s0
        lo, hi = rng(S(('num', p)), F)
        if lo < 0 or hi >= 1 << w:
            return False
    return True


def foreign(a, s, s0):
    """facts about the text that are not in terms of its separated parts"""
    bad = []

    def walk(n):
        if isinstance(n, Str):
            d = n.d
            if n is s0 or isinstance(d, str):
                return
            if isinstance(d, tuple) and d and d[0] == 'part' and d[2][0] == 'split' and isinstance(d[3], T) and isk(d[3]):
                return walk(d[1])
            bad.append(n)
        elif isinstance(n, T):
            if n.op == 's':
                walk(n.a[0])
            elif n.op == 'o':
                if n.a[0] in ('starts_with', 'ends_with', 'contains'):
                    bad.append(n)
                for x in n.a[1]:
                    walk(x)
            elif n.op == 'l':
                for x, _ in n.a[1]:
                    walk(x)
            elif n.op == 'b':
                for x in n.a[0]:
                    if isinstance(x, tuple):
                        walk(x[0])
        elif isinstance(n, tuple):
            if n and n[0] in ('strlen', 'bytes', 'chars'):
                bad.append(n)
            for x in n:
                walk(x)
    for k in s.F:
        walk(k)
    return bool(bad)


def show_facts(s, base):
    out = []
    for k, (l, h, x) in s.F.items():
        if base is not None and base.F.get(k) == (l, h, x):
            continue
        r = repr(k)
        if len(r) < 200:
            out.append('%s in [%s,%s]%s' % (r, l if l > -INF else '', h if h < INF else '', ' except %s' % sorted(x) if x else ''))
    return '; '.join(out)[:600]


# ------------------------------------------------------------------ C26
CODES = {
    'KnxIpFeature': {2, 6, 7, 8},
    'CEMIAdditionalInfoType': {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xfe},
    'DescriptionTypeCode': {1, 2, 3, 4, 5, 0xfe},
    'KnxMedium': {2, 4, 0x10, 0x20},
}
NAMED = {
    'KnxIpFeature': {'MaskVersion': 2, 'IndividualAddress': 6, 'MaxApduLength': 7, 'InfoServiceEnable': 8},
    'CEMIAdditionalInfoType': {'PLMediumInfo': 1, 'RFMediumInfo': 2, 'BusmonitorStatusInfo': 3, 'TimestampRelative': 4, 'TimeDelayUnitlSending': 5,
                               'ExtendedRelativeTime': 6, 'BiBatInfo': 7, 'RFMultiInfo': 8, 'PreambleAndPostamble': 9, 'RFFastAckInfo': 10,
                               'ManufacturerSpecificData': 0xfe},
    'DescriptionTypeCode': {'DeviceInfo': 1, 'SupportedServiceFamilies': 2, 'IpConfig': 3, 'IpCurrentConfig': 4, 'KNXAddresses': 5, 'ManufacturerData': 0xfe},
    'KnxMedium': {'TP1': 2, 'PL110': 4, 'RF': 0x10, 'IP': 0x20},
}


def c26(a):
    for name, codes in NAMED.items():
        f = a.meth(name, 'try_from', 'TryFrom<u8>')
        x = S('x', 0, 255)
        outs = call(a, f, [x])
        seen = {}
        for s, v in outs:
            if isok(v):
                e = v.fs[0]
                if not isinstance(e, Agg):
                    proved(a, name + ' result', None, 'not a variant: %r' % (e,), s)
                    continue
                t = a.eng.T[e.ty]['variants'][e.var]
                d = t.get('discr', e.var)
                proved(a, '%s::%s from octet' % (name, t['name']), eqk(x, d, s.F), 'octets %s give the variant with code 0x%02x' % (rng(x, s.F), d), s)
                if t['name'] in codes:
                    proved(a, '%s::%s code' % (name, t['name']), d == codes[t['name']], 'has code 0x%02x instead of 0x%02x' % (d, codes[t['name']]))
                seen[t['name']] = d
            else:
                for vn, d in codes.items():
                    proved(a, '%s::%s accepted' % (name, vn), True if TT.eq(x, K(d), s.F) is False else None, 'octet 0x%02x may be rejected' % d, s)
                ty = None
        # every declared variant can be reached from its code
        ety = [t for t in a.eng.T if t['k'] == 'adt' and t.get('local') and t['path'].endswith('::' + name)]
        for t in ety[:1]:
            for v in t['variants']:
                d = v.get('discr')
                for s, r in outs:
                    if not isok(r) and not s.taint:
                        proved(a, '%s::%s accepted' % (name, v['name']), True if TT.eq(x, K(d), s.F) is False else None, 'its code 0x%02x may be rejected' % d, s)
                    elif isok(r) and isinstance(r.fs[0], Agg) and TT.eq(x, K(d), s.F) is not False:
                        w = t['variants'][r.fs[0].var]['name']
                        proved(a, '%s::%s round trip' % (name, v['name']), w == v['name'] or None, 'its code 0x%02x converts to %s' % (d, w), s)
        a.count('tables')
        a.sample('%s: %s' % (name, seen))


# ------------------------------------------------------------------ C27, C28
DPT = {  # type -> (main number, width in octets)
    'PdtKnxScaledValue': (5, 1), 'PdtKnxInt': (8, 2), 'PdtKnxFloat': (9, 2), 'PdtKnxByte': (20, 1), 'PdtKnxWord': (7, 2),
    'PdtKnxULong': (12, 4), 'PdtKnxBit': (1, 1), 'PdtKnxB1U3': (3, 1),
}


def be(vals):
    n = ZERO
    for v in vals:
        n = add(scale(n, 256), v)
    return n


def c27(a):
    for name, (main, width) in DPT.items():
        g, gv, fb, gb, sm = (a.meth(name, m, 'Pdt<') for m in ('general', 'get_value', 'from_bytes', 'get_bytes', 'is_small'))
        ty = g['inputs'][0]
        isf = a.eng.T[ty]['k'] == 'float'
        v = a.eng.sym(ty, ('v',))
        st = St()
        if name == 'PdtKnxB1U3':
            TT.assume(st.F, TT.cmp('Le', v, K(15)), True)
        vals = call(a, g, [v], st)
        ctors = [(s, x, v if name != 'PdtKnxFloat' else None, 'general') for s, x in vals]
        if name == 'PdtKnxB1U3':
            for cn in ('dimming', 'blinds'):
                cf = a.meth(name, cn)
                b, n = S('b', 0, 1), S('step', 0, 255)
                lo3 = TT.bitop('BitAnd', n, K(7), 8, False, {})
                ctors += [(s, x, add(scale(b, 8), lo3), cn) for s, x in call(a, cf, [b, n])]
        if name == 'PdtKnxBit':
            b = S('b', 0, 1)
            ctors += [(s, x, b, 'switch') for s, x in call(a, a.meth(name, 'switch'), [b])]
        for s, x, want, cn in ctors:
            k = '%s::%s' % (name, cn)
            if want is not None:
                for s1, y in call(a, gv, [x], s):
                    proved(a, k + ' value', samebits(y, want, 64, s1.F) if isinstance(y, T) else None, 'get_value gives %r' % (y,), s1)
            for s1, q in call(a, gb, [x], s):
                if not isinstance(q, Seq):
                    proved(a, k + ' octets', None, '%r' % (q,), s1)
                    continue
                proved(a, k + ' width', TT.eq(seqlen(q), K(width), s1.F), 'encodes in %r octets instead of %d' % (seqlen(q), width), s1)
                if isf:
                    for s2, y in call(a, fb, [q], s1):
                        proved(a, k + ' decodes', isok(y), 'own encoding is rejected', s2)
                    continue
                n = be([at(a, s1, q, i) for i in range(width)])
                sg = a.eng.int_ty(ty)
                w = want
                if sg and sg[1]:
                    w = wrap(want, sg[0], False, s1.F)
                proved(a, k + ' big-endian octets', samebits(n, w, 8 * width, s1.F), 'octets %r do not hold the value %r' % (n, w), s1)
                for s2, y in call(a, fb, [q], s1):
                    proved(a, k + ' decodes', isok(y), 'own encoding is rejected', s2)
                    if isok(y):
                        for s3, z in call(a, gv, [y.fs[0]], s2):
                            proved(a, k + ' round trip', samebits(z, want, 64, s3.F) if isinstance(z, T) else None, '%r comes back as %r' % (want, z), s3)
            for s1, y in call(a, sm, [x], s):
                if TT.eq(y, ZERO, s1.F) is True:
                    a.ob(True, k + ' small')
                    continue
                for s2, q in call(a, gb, [x], s1):
                    b0 = at(a, s2, q, 0) if isinstance(q, Seq) else None
                    r = None
                    if isinstance(b0, T):
                        r = rng(b0, s2.F)[1] <= 63 and TT.eq(seqlen(q), ONE, s2.F)
                    proved(a, k + ' small', r or None, 'asks for in-APCI encoding although the value may need more than 6 bits: %r' % (b0,), s2)
        # decoding arbitrary octets
        q = inseq(a)
        for s, y in call(a, fb, [mkref(('C', q))]):
            if isok(y):
                proved(a, name + '::from_bytes length', TT.truth(TT.cmp('Ge', seqlen(q), K(width)), s.F), 'accepts fewer than %d octets' % width, s)
                if not isf and name not in ('PdtKnxBit', 'PdtKnxB1U3'):
                    for s2, z in call(a, gv, [y.fs[0]], s):
                        n = be([a.eng.sym(u8(a), (IN, K(i))) for i in range(width)])
                        sg = a.eng.int_ty(ty)
                        zz = wrap(z, sg[0], False, s2.F) if sg[1] else z
                        proved(a, name + '::from_bytes value', samebits(zz, n, 8 * width, s2.F), 'octets decode to %r' % (z,), s2)
            else:
                proved(a, name + '::from_bytes accepts', True if TT.truth(TT.cmp('Eq', seqlen(q), K(width)), s.F) is False else None, 'rejects input of the right length', s)
        a.count('datapoint_types')
        a.sample('%s: main number %d, %d octets' % (name, main, width))


def c28(a):
    n = 0
    for name, (main, width) in DPT.items():
        adts = [i for i, t in enumerate(a.eng.T) if t['k'] == 'adt' and t.get('local') and t['path'].endswith('::' + name)]
        if not adts:
            raise Missing(name)
        adt = adts[0]
        for m in ('general', 'from_bytes'):
            a.meth(name, m, 'Pdt<')
        for f in a.eng.fns:
            if f['key'] is None or f.get('derived') or not (f['path'].find('::' + name + '::') >= 0 or ('::' + name + ' as ') in f['path']):
                continue
            o = f['output'] if 'output' in f else None
            if o is None:
                continue
            t = a.eng.T[o]
            direct = o == adt
            inres = t['k'] == 'adt' and t['path'] in ('std::result::Result', 'core::result::Result', 'std::option::Option', 'core::option::Option') and adt in t.get('args', [])
            if not direct and not inres:
                continue
            for s, v in R.run_fn(a.eng, f).outs:
                if inres:
                    if not isinstance(v, Agg) or v.ty != o:
                        continue
                    good = 0 if 'Result' in t['path'] else 1
                    if v.var != good:
                        continue
                    v = v.fs[0]
                k = '%s type code' % short(f['path'])
                c = fields(a, v).get('code') if isinstance(v, Agg) else None
                if isinstance(c, Str) and isinstance(c.d, str):
                    proved(a, k, c.d.split('.')[0] == str(main), 'code %r of a value of datapoint type %d' % (c.d, main), s)
                else:
                    a.ob(None, k, 'code is %r' % (c,))
                n += 1
                a.sample('%s: %r' % (short(f['path']), c))
    a.count('constructors', n)


# ------------------------------------------------------------------ C29
def octs(a, l):
    return mkseq(u8(a), l)


def c29(a):
    eng = a.eng
    E = lambda x: ('e', K(x) if isinstance(x, int) else x)
    rd, wr = a.meth('APDU', 'group_value_read'), a.meth('APDU', 'group_value_write')
    pk = a.meth('APDU', 'packet')
    apdus = []
    for s, v in call(a, rd, []):
        apdus.append(('group value read', s, v, octs(a, [E(0), E(0)])))
    data = eng.sym(wr['inputs'][0], ('data',))
    small = S('small', 0, 1)
    n = seqlen(data)
    d0 = eng.sym(u8(a), (data.segs[0][1], ZERO))
    lo6 = TT.bitop('BitAnd', d0, K(0x3f), 8, False, {})
    for sm in (0, 1):
        st = St()
        TT.assume(st.F, TT.cmp('Le', n, K(253)), True)
        for s, v in call(a, wr, [data, K(sm)], st):
            if not sm:
                apdus.append(('group value write', s, v, octs(a, [E(0), E(0x80)] + list(data.segs))))
            else:
                z = TT.eq(n, ZERO, s.F)
                if z is None:
                    # the constructor does not look whether data is there: both must agree
                    for e in (True, False):
                        s1 = s.copy()
                        if TT.assume(s1.F, TT.cmp('Eq', n, ZERO), e):
                            apdus.append(('small group value write', s1, v, octs(a, [E(0), E(0x80) if e else E(add(K(0x80), lo6))])))
                else:
                    apdus.append(('small group value write', s, v, octs(a, [E(0), E(0x80) if z else E(add(K(0x80), lo6))])))
    # general constructor: any service, small or long data
    nw = a.have('APDU::new')
    if nw:
        ety = nw['inputs'][1]
        for svc, code in (('a_group_value_read', 0), ('a_group_value_write', 2)):
            for s0, ap in call(a, a.meth('APCI', svc), []):
                t = eng.T[ety]
                for vi, var in enumerate(t['variants']):
                    dv = mkagg(ety, vi, [eng.sym(x['ty'], ('d', vi)) for x in var['fields']])
                    st = s0.copy()
                    x = dv.fs[0] if dv.fs else None
                    base = [E(code >> 2), E((code & 3) << 6)]
                    if isinstance(x, T):
                        want = octs(a, [E(code >> 2), E(add(K((code & 3) << 6), TT.bitop('BitAnd', x, K(0x3f), 8, False, {})))])
                    elif isinstance(x, Seq):
                        TT.assume(st.F, TT.cmp('Le', seqlen(x), K(253)), True)
                        want = octs(a, base + list(x.segs))
                    else:
                        continue
                    for s, v in call(a, nw, [ap, dv], st):
                        apdus.append(('%s with %s data' % (svc, var['name']), s, v, want))
    gp = a.have('APDU::group_value_write_pd')
    if gp:
        for s, v in call(a, gp, [eng.sym(gp['inputs'][0], ('pd',))]):
            for s1, q in call(a, pk, [v], s):
                b0, b1 = (at(a, s1, q, i) if isinstance(q, Seq) else None for i in (0, 1))
                proved(a, 'datapoint write service', all3([eqk(b0, 0, s1.F), bits76(b1, 2, s1.F)]), 'service octets %r %r' % (b0, b1), s1)
    for lab, s, v, want in apdus:
        for s1, q in call(a, pk, [v], s):
            r = seq_eq(q, want, s1.F, eng) if isinstance(q, Seq) else None
            proved(a, lab + ' APDU', r, 'encodes as %r instead of %r' % (q, want), s1)
            a.sample('%s: %r' % (lab, q))
    # TPDU and L_Data request
    new, ldp, setp = a.meth('LDataReqMessage', 'new'), a.meth('LDataReqMessage', 'packet'), a.have('LDataReqMessage::set_priority')
    to16 = a.meth('KnxAddress', 'to_u16')
    aty = new['inputs'][0]
    addrs = []
    for i, var in enumerate(eng.T[aty]['variants']):
        addrs.append((var['name'], mkagg(aty, i, [eng.sym(x['ty'], ('addr', i)) for x in var['fields']])))
    tps = [f for f in eng.fns if f['key'] is not None and '::TPDU::' in f['path'] and f.get('output') == new['inputs'][1]]
    if not tps:
        raise Missing('TPDU constructors')
    a.meth('TPDU', 't_data_group')
    tpk = a.meth('TPDU', 'packet')
    for f in tps:
        args = [None if eng.T[t].get('path', '').endswith('::APDU') else eng.sym(t, ('x', i)) for i, t in enumerate(f['inputs'])]
        for lab, s, v, want in apdus[:4]:
            for s1, t in call(a, f, [v if x is None else x for x in args], s):
                for s2, q in call(a, tpk, [t], s1):
                    proved(a, '%s TPDU' % short(f['path']), seq_eq(q, want, s2.F, eng) if isinstance(q, Seq) else None, 'APDU becomes %r' % (q,), s2)
    tg = a.meth('TPDU', 't_data_group')
    for an, addr in addrs:
        for lab, s, v, want in apdus:
            for s1, t in call(a, tg, [v], s):
                for s2, m in call(a, new, [addr, t], s1):
                    check_ldata(a, 'L_Data request', ldp, to16, s2, m, addr, want, K(3))
                    if setp and lab == 'group value write':
                        pr = S('prio', 0, 255)
                        s3 = s2.copy()
                        s3.mem[('H', ('msg',))] = m
                        for s4, _ in call(a, setp, [mkref(('H', ('msg',))), pr], s3):
                            check_ldata(a, 'L_Data request with priority', ldp, to16, s4, s4.mem[('H', ('msg',))], addr, want, TT.bitop('BitAnd', pr, K(3), 8, False, {}))
        a.count('address_kinds')


def bits76(b, n, F):
    if not isinstance(b, T):
        return None
    x = nbits(simp(b, F), F, 8)
    if x is None:
        return None
    return True if [x[6], x[7]] == [n & 1, n >> 1] else False


def check_ldata(a, k, ldp, to16, s, m, addr, apdu, prio):
    for s1, q in call(a, ldp, [m], s):
        if not isinstance(q, Seq):
            proved(a, k, None, '%r' % (q,), s1)
            continue
        F = s1.F
        b = [at(a, s1, q, i) for i in range(9)]
        for i, n in ((0, 0x11), (1, 0), (3, 0xe0), (4, 0), (5, 0)):
            proved(a, '%s octet %d' % (k, i), eqk(b[i], n, F), 'is %r instead of 0x%02x' % (b[i], n), s1)
        proved(a, k + ' control octet', samebits(b[2], add(K(0xb0), scale(prio, 4)), 8, F), 'is %r for priority %r' % (b[2], prio), s1)
        for s2, d in call(a, to16, [addr], s1):
            r = word_is(b[6], b[7], d, s2.F)
            proved(a, k + ' destination', r, 'octets 6-7 are %r %r, the address encodes as %r' % (b[6], b[7], d), s2)
        n = seqlen(apdu)
        proved(a, k + ' length octet', TT.eq(b[8], sub(n, ONE), F) if isinstance(b[8], T) else None, 'is %r for an APDU of %r octets' % (b[8], n), s1)
        rest = octs(a, tail(q, 9))
        proved(a, k + ' APDU', seq_eq(rest, apdu, F, a.eng), 'APDU octets are %r' % (rest,), s1)


def tail(q, n):
    segs = list(q.segs)
    while n and segs:
        g = segs[0]
        if g[0] == 'e':
            segs.pop(0)
            n -= 1
        elif g[0] == 'r' and isk(g[2]):
            k = min(n, kv(g[2]))
            n -= k
            segs[0] = ('r', g[1], sub(g[2], K(k)))
            if isk(segs[0][2]) and kv(segs[0][2]) == 0:
                segs.pop(0)
        elif g[0] == 'c':
            segs[0] = ('c', g[1], g[2], add(g[3], K(n)), sub(g[4], K(n)))
            n = 0
        else:
            break
    return segs


# ------------------------------------------------------------------ C34
def bitof(b, i, F):
    x = nbits(simp(b, F), F, 8)
    return frombits([x[i]]) if x is not None else None


def c34(a):
    eng = a.eng
    for name in ('LDataInd', 'LDataCon'):
        f = a.meth(name, 'from_cemi')
        cemi = eng.sym(f['inputs'][0], ('cemi',))
        svc = fields(a, cemi).get('service_info')
        if not isinstance(svc, Seq):
            raise Missing('CEMI.service_info')
        o = lambda i: eng.sym(u8(a), (svc.segs[0][1], K(i)))
        outs = call(a, f, [cemi])
        nok = 0
        for s, v in outs:
            F = s.F
            if not isok(v):
                # a complete telegram is not rejected
                full = [TT.cmp('Lt', seqlen(svc), K(6))] if name == 'LDataCon' else [TT.cmp('Lt', seqlen(svc), K(9)), TT.cmp('Lt', seqlen(svc), add(K(8), o(6)))]
                proved(a, name + ' accepts', any(TT.truth(c, F) is True for c in full), 'a complete telegram is rejected; %s' % show_facts(s, None), s)
                continue
            nok += 1
            fs = fields(a, v.fs[0])
            ld = fields(a, fs['l_data'])
            proved(a, name + ' cemi', veq(fs['cemi'], cemi, F, eng), 'cemi is %r' % (fs['cemi'],), s)
            for fn, i in (('src', 2), ('dest', 4)):
                proved(a, '%s %s' % (name, fn), samebits(ld[fn], add(scale(o(i), 256), o(i + 1)), 16, F), 'is %r' % (ld[fn],), s)
            for fn, bit in (('frame_type', 7), ('repetition', 5), ('system_broadcast', 4), ('ack_request', 1)):
                proved(a, '%s %s' % (name, fn), beq(ld[fn], frombits([(o(0), bit)]), F), 'is %r instead of bit %d of control octet 1' % (ld[fn], bit), s)
            if name == 'LDataCon':
                proved(a, name + ' confirm', beq(fs['confirm'], TT.notb(frombits([(o(0), 0)])), F), 'is %r instead of the negation of bit 0 of control octet 1' % (fs['confirm'],), s)
            else:
                ap = frombits([(o(8), 6), (o(8), 7), (o(7), 0), (o(7), 1)])
                proved(a, name + ' apci', samebits(fs['apci'], ap, 8, F), 'is %r' % (fs['apci'],), s)
                q = fs['value']
                long = TT.truth(TT.cmp('Ge', o(6), K(2)), F)
                if long is True:
                    want = mkseq(u8(a), [('c', svc.segs[0][1], u8(a), K(9), sub(o(6), ONE))])
                elif long is False:
                    want = mkseq(u8(a), [('e', frombits([(o(8), i) for i in range(6)]))])
                else:
                    want = None
                r = seq_eq(q, want, F, eng) if want is not None and isinstance(q, Seq) else None
                proved(a, name + ' value', r, 'is %r instead of %r' % (q, want), s)
        if not nok:
            a.violation(name, 'never decodes')
    # the cEMI envelope
    f = a.meth('CEMI', 'from_packet')
    q = inseq(a)
    r = decode(a, f, q)
    ib = lambda i: eng.sym(u8(a), (IN, K(i)))
    full = 0
    for s, v in r.outs:
        if not isok(v):
            continue
        fs = fields(a, v.fs[0])
        proved(a, 'CEMI message code', eqk(fs['msg_code'], ib(0), s.F), 'is %r' % (fs['msg_code'],), s)
        z = TT.eq(ib(1), ZERO, s.F)
        if z is True:
            n = seqlen(fs['additional_infos'])
            proved(a, 'CEMI additional information', TT.eq(n, ZERO, s.F), 'holds %r entries although none are announced' % (n,), s)
            want = mkseq(u8(a), [('c', IN, u8(a), K(2), sub(seqlen(q), K(2)))])
            proved(a, 'CEMI service information', seq_eq(fs['service_info'], want, s.F, eng), 'is %r' % (fs['service_info'],), s)
        else:
            sv = fs['service_info']
            if isinstance(sv, Seq) and not sv.segs:
                continue
            full += 1
            ok = isinstance(sv, Seq) and len(sv.segs) == 1 and sv.segs[0][0] == 'c' and sv.segs[0][1] == IN and TT.eq(add(sv.segs[0][3], sv.segs[0][4]), seqlen(q), s.F)
            proved(a, 'CEMI service information', ok or None, 'is %r' % (sv,), s)
            if ok:
                g = TT.truth(TT.cmp('Ge', sv.segs[0][3], add(K(2), ib(1))), s.F)
                proved(a, 'CEMI service information starts after the announced additional information', g,
                       'starts at octet %r' % (sv.segs[0][3],), s)
    # well-formed additional information of one or two entries is left out exactly
    for what, pins, start in (('one empty entry', {1: 2, 2: 1, 3: 0}, 4), ('one entry of one octet', {1: 3, 2: 4, 3: 1}, 5),
                              ('one entry of four octets', {1: 6, 2: 3, 3: 4}, 8), ('two entries', {1: 6, 2: 3, 3: 1, 5: 4, 6: 1}, 8)):
        rest = [('c', ('rest',), u8(a), ZERO, eng.sym(a.eng.tyid('usize'), ('rest', 'len')))]
        qq = mkseq(u8(a), [('e', K(pins[i]) if i in pins else ib(i)) for i in range(start)] + rest)
        for s, v in decode(a, f, qq).outs:
            proved(a, 'CEMI accepts additional information', isok(v), '%s is rejected' % what, s)
            if isok(v):
                fs = fields(a, v.fs[0])
                proved(a, 'CEMI service information after ' + what, seq_eq(fs['service_info'], mkseq(u8(a), rest), s.F, eng), 'is %r' % (fs['service_info'],), s)
    if not full:
        a.violation('CEMI service information', 'always empty after additional information')
    # without additional information every input of two octets or more is a cEMI message
    st = St()
    TT.assume(st.F, TT.cmp('Eq', ib(1), ZERO), True)
    TT.assume(st.F, TT.cmp('Ge', seqlen(q), K(2)), True)
    for s, v in decode(a, f, q, st.F).outs:
        proved(a, 'CEMI accepts', isok(v), 'a message without additional information is rejected', s)


def beq(x, b, F):
    if not isinstance(x, T) or b is None:
        return None
    x, b = simp(x, F), simp(b, F)
    if x is b:
        return True
    r = TT.eq(x, b, F)
    if r is not None:
        return r
    # as conditions
    for v in (True, False):
        F2 = dict(F)
        if not TT.assume(F2, x, v):
            continue
        if TT.truth(b, F2) is not v:
            return None
    return True
