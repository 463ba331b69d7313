"""C30, C31: the scaled and the two-octet float datapoint types, float arithmetic read as real arithmetic."""
from fractions import Fraction as Q
from ..core import *  # noqa: F401,F403
from ..reals import *  # noqa: F401,F403
from .. import reals as RL
from .data import *  # noqa: F401,F403
from .data import call, isok


def verdict(a, key, r, text, soft):
    """r True: proven, False: broken, None: not read"""
    if r is False and soft:
        r = None
    if r is None:
        a.undecided(key, text)
    else:
        a.ob(r, key, text)


def within(a, key, s, x, v, want, bound, cuts):
    """|v - x| <= bound(x) for every x in want allowed by the facts of s"""
    iv, loose = RL.path_interval(x, s.F, want)
    a.count('paths_with_interval')
    if iv is None:
        return
    soft = loose or s.taint
    pts = sorted(set([iv.lo, iv.hi] + [c for c in cuts if iv.lo <= c <= iv.hi]))
    pieces = [RL.Iv(p, False, p, False) for p in pts if not (p == iv.lo and iv.lop or p == iv.hi and iv.hop)]
    pieces += [RL.Iv(p, True, q, True) for p, q in zip(pts, pts[1:])]
    ms = sorted(RL.ints(v), key=lambda t: t.uid)
    if loose:
        # points are decided exactly, also where the interval of the path is only known from outside
        pieces += [RL.Iv(m, False, m, False) for m in ((p * 3 + q) / 4 for p, q in zip(pts, pts[1:]))]
    for pc in pieces:
        soft = loose or s.taint
        if pc.lo == pc.hi:
            r = RL.at_point(x, pc.lo, s.F)
            if r is False:
                continue
            soft = s.taint or r is None
        cases = [{}]
        for m in ms:
            lo, hi = RL.Aff(x, pc, s.F).irange(m)
            cases = [dict(c, **{}) for c in cases]
            new = []
            for c in cases:
                for l, h in ((lo, min(hi, -1)), (max(lo, 0), hi)):
                    if l <= h:
                        d = dict(c)
                        d[m] = (l, h)
                        new.append(d)
            cases = new
        for over in cases:
            p2 = pc
            for m, (l, h) in over.items():
                # the part of the piece where m has this sign
                try:
                    f = RL.Aff(x, pc, {}).int(m)
                    h2 = RL.inv_int(f, l, h)
                    if h2 is not None:
                        p2 = p2.meet(h2)
                except RL.Unknown:
                    soft = True
            if p2.empty():
                continue
            af = RL.Aff(x, p2, s.F, over)
            if any(contradicts(af, k, f, x) for k, f in s.F.items()):
                continue
            a.count('pieces')
            try:
                f = af.real(v)
            except RL.Unknown as e:
                a.undecided(key, 'no reading of %s' % e)
                return
            e = af.range((f[0] - 1,) + f[1:4])
            worst = max(abs(e[0]), abs(e[1]))
            b = bound((p2.lo + p2.hi) / 2)
            verdict(a, key, worst <= b, 'for input in %r the value that comes back is off by up to %.4g, allowed is %.4g' % (p2, worst, b), soft)


def contradicts(af, k, f, x):
    if x not in RL.atoms(k) or k.op != 'b':
        return False
    try:
        lo, hi = af.range(af.int(k))
    except RL.Unknown:
        return False
    return lo > f[1] or hi < f[0] or lo == hi and lo in f[2]


def c31(a):
    TT.FHOOK = feasible
    sc, gv = a.meth('PdtKnxScaledValue', 'scaling'), a.meth('PdtKnxScaledValue', 'get_value', None)
    x = S('p')
    want = RL.Iv(0, False, 100, False)
    half = Q(100, 254) / 2 + Q(1, 1000)
    for s, v in call(a, sc, [x]):
        for s1, y in call(a, gv, [v], s):
            if not isinstance(y, T):
                a.undecided('PdtKnxScaledValue percentage', repr(y))
                continue
            within(a, 'PdtKnxScaledValue percentage round trip', s1, x, y, want, lambda p: half, [])
    # through the octets on the wire
    gb, fb = a.meth('PdtKnxScaledValue', 'get_bytes', 'Pdt<'), a.meth('PdtKnxScaledValue', 'from_bytes', 'Pdt<')
    for s, v in call(a, sc, [x]):
        for s1, q in call(a, gb, [v], s):
            for s2, y in call(a, fb, [q], s1):
                if not isok(y):
                    iv, loose = RL.path_interval(x, s2.F, want)
                    verdict(a, 'PdtKnxScaledValue percentage over the wire', iv is None, 'own encoding is rejected', loose or s2.taint)
                    continue
                for s3, z in call(a, gv, [y.fs[0]], s2):
                    if isinstance(z, T):
                        within(a, 'PdtKnxScaledValue percentage over the wire', s3, x, z, want, lambda p: half, [])
                    else:
                        a.undecided('PdtKnxScaledValue percentage over the wire', repr(z))


def feasible(F, t):
    for x in RL.atoms(t):
        if RL.path_interval(x, {k: f for k, f in F.items() if k.op == 'o' and k.a[0] in ('fLt', 'fLe', 'fEq') and RL.atoms(k) == frozenset([x])}, RL.Iv(-RL.BIG, False, RL.BIG, False))[0] is None:
            return False
    return True


LO, HI = Q(-204800, 10 ** 4), Q(204700, 10 ** 4)       # the range of exponent 0


def c30(a):
    TT.FHOOK = feasible
    name = 'PdtKnxFloat'
    gv, fb, gb = (a.meth(name, m, 'Pdt<') for m in ('get_value', 'from_bytes', 'get_bytes'))
    decs = [(fb, 'from_bytes')] + ([(a.meth(name, 'temp_from_bytes'), 'temp_from_bytes')])
    # every pair of octets
    for dec, dn in decs:
        b0, b1 = S(('in', 0), 0, 255), S(('in', 1), 0, 255)
        q = mkseq(u8(a), [('e', b0), ('e', b1)])
        for s, y in call(a, dec, [mkref(('C', q))]):
            key = '%s::%s octets to value' % (name, dn)
            if not isok(y):
                proved(a, '%s::%s accepts two octets' % (name, dn), None, 'rejects two octets', s)
                continue
            for s1, z in call(a, gv, [y.fs[0]], s):
                octets(a, key, s1, z, b0, b1)
    # every value of the range
    x = S('v')
    want = RL.Iv(LO * 2 ** 15, False, HI * 2 ** 15, False)
    cuts = [LO * 2 ** k for k in range(16)] + [HI * 2 ** k for k in range(16)] + [Q(0)]

    def bound(v):
        k = next((k for k in range(16) if LO * 2 ** k <= v <= HI * 2 ** k), 15)
        return Q(1, 100) * 2 ** k * (Q(1, 2) + Q(1, 1000))
    for cf, cn in ((a.meth(name, 'general', 'Pdt<'), 'general'), (a.meth(name, 'temp'), 'temp')):
        key = '%s::%s value round trip' % (name, cn)
        for s, v in call(a, cf, [x]):
            for s1, q in call(a, gb, [v], s):
                if not isinstance(q, Seq):
                    a.undecided(key, repr(q)[:80])
                    continue
                if RL.path_interval(x, s1.F, want)[0] is None:
                    continue
                for s2, y in call(a, fb, [q], s1):
                    if not isok(y):
                        verdict(a, key, False, 'own encoding is rejected', s2.taint)
                        continue
                    for s3, z in call(a, gv, [y.fs[0]], s2):
                        if isinstance(z, T):
                            within(a, key, s3, x, z, want, bound, cuts)
                        else:
                            a.undecided(key, repr(z)[:80])


def octets(a, key, s, z, b0, b1):
    """z = 0.01 * M * 2^E on this path"""
    try:
        got = RL.rpoly(TT.simp(z, s.F), s.F)
    except RL.Unknown as e:
        a.undecided(key, 'no reading of %s' % e)
        return
    bit = [{frozenset([(b1, i)]): Q(1)} for i in range(8)] + [{frozenset([(b0, i)]): Q(1)} for i in range(8)]
    m, e = {}, {}
    for i in range(11):
        m = RL.padd(m, RL.pmul(RL.pconst(1 << i), bit[i]))
    m = RL.padd(m, RL.pmul(RL.pconst(-2048), bit[15]))
    for i in range(4):
        e = RL.padd(e, RL.pmul(RL.pconst(1 << i), bit[11 + i]))
    want = RL.pmul(RL.pmul(RL.pconst(Q(1, 100)), m), RL.pow2(e))
    fixed = {}
    allb = [(b1, i) for i in range(8)] + [(b0, i) for i in range(8)]
    for b in allb:
        lo, hi = TT.rng(TT.frombits([b]), s.F)
        if lo == hi:
            fixed[b] = lo
    for k, f in s.F.items():
        lo, hi = TT.rng(k, s.F)
        if lo == hi and k.op == 'b':
            for i, b in enumerate(k.a[0]):
                if isinstance(b, tuple):
                    b = RL.strip(b)
                    if isinstance(b, tuple):
                        fixed[b] = (lo >> i) & 1
    got, want = subst(got, fixed), subst(want, fixed)
    if any(b not in allb for mm in got for b in mm):
        a.undecided(key, 'depends on more than the octets')
        return
    a.count('monomials', len(want))
    bad = RL.pdiff(got, want)
    if not bad:
        verdict(a, key, True, '', False)
        return
    free = [b for b in allb if b not in fixed]
    facts = [(k, f) for k, f in s.F.items() if k.op in 'slb' and RL.atoms(k) & {b0, b1}]
    odd = any(RL.atoms(k) & {b0, b1} for k in s.F if k.op == 'o')
    # a pair of octets of this path on which the two differ
    for base in witnesses(free, bad):
        env = dict(fixed)
        env.update(base)
        vals = [(RL.ieval(k, env), f) for k, f in facts]
        if any(v is None for v, _ in vals):
            odd = True
            continue
        if all(f[0] <= v <= f[1] and v not in f[2] for v, f in vals):
            g, w = RL.peval(got, env), RL.peval(want, env)
            if abs(g - w) > abs(w) / 10 ** 4 + Q(1, 10 ** 4):
                o = [sum(env[(b, i)] << i for i in range(8)) for b in (b0, b1)]
                verdict(a, key, False, 'octets %02x %02x: decoded as %.6g, the standard says %.6g' % (o[0], o[1], g, w), s.taint or odd)
                return
    a.undecided(key, 'differs from the standard, but no octets of this path show it')


def subst(p, fixed):
    r = {}
    for m, c in p.items():
        if any(fixed.get(b) == 0 for b in m):
            continue
        k = frozenset(b for b in m if b not in fixed)
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def witnesses(free, bad):
    """assignments: the differing monomials first, then their complements, then small ones"""
    for m in sorted(bad, key=len):
        yield {b: int(b in m) for b in free}
    for m in sorted(bad, key=len):
        yield {b: int(b in m or i % 3 == 0) for i, b in enumerate(free)}
    n = min(1 << len(free), 1 << 16)
    for v in range(n):
        yield {b: (v >> i) & 1 for i, b in enumerate(free)}
