"""Float terms read as real arithmetic (the rounding of float operations themselves is far below every bound used here).

Two domains:
  * poly: multilinear polynomials over bits with rational coefficients.  Functions of finitely many bits have exactly one
    such polynomial, so equality of polynomials decides equality of the functions.
  * aff:  a*x + b + [dlo, dhi] for one real input x in an interval; rounding, clamping and conversion to integers
    contribute their largest deviation.
Whatever has no reading raises Unknown."""
import struct
from fractions import Fraction as Q
from math import floor, ceil
from .terms import K, T, O, isk, kv, rng, nbits, INF, syms  # noqa: F401


class Unknown(Exception):
    pass


def fk(t):
    """the constant a float term denotes, or None"""
    if t.op == 'o' and t.a[0] == 'fk':
        v = float(t.a[1][0])
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return decimal(v)
    return None


_dec = {}


def decimal(v):
    """a constant stands for the shortest decimal that rounds to it (0.01, not 0.00999999977648258)"""
    r = _dec.get(v)
    if r is None:
        r = Q(repr(v))
        try:
            f = struct.unpack('f', struct.pack('f', v))[0]
        except OverflowError:
            f = None
        if f == v:
            for d in range(1, 10):
                x = '%.*g' % (d, v)
                if struct.unpack('f', struct.pack('f', float(x)))[0] == v:
                    r = Q(x)
                    break
        _dec[v] = r
    return r


# ---------------------------------------------------------------- polynomials over bits
ONEM = frozenset()


def pconst(c):
    return {ONEM: Q(c)} if c else {}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    if len(a) * len(b) > 20000:
        raise Unknown('too many terms')
    for m, c in a.items():
        for n, d in b.items():
            k = m | n
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pbits(bits, F):
    r = {}
    for i, b in enumerate(bits):
        if isinstance(b, tuple):
            b = strip(b)
        if b == 0:
            continue
        if b == 1:
            r = padd(r, pconst(1 << i))
        else:
            if b[0].op == 'o' and b[0].a[0] in ('BitXor', 'BitAnd', 'BitOr'):
                bs = bitpolys(b[0], F)
                if bs is not None:
                    r = padd(r, pmul(pconst(1 << i), bs[b[1]] if b[1] < len(bs) else {}))
                    continue
            r = padd(r, {frozenset([b]): Q(1 << i)})
    return r


def strip(b):
    """bit i of (x mod 2^n) is bit i of x"""
    t, i = b
    while t.op == 'o' and t.a[0] in ('wrapu', 'wraps') and i < kv(t.a[1][1]):
        t = t.a[1][0]
    if t.op == 'o' and t.a[0] == 'Sar' and isk(t.a[1][1]):
        return strip((t.a[1][0], i + kv(t.a[1][1])))
    if t.op == 'b':
        x = t.a[0][i] if i < len(t.a[0]) else 0
        return strip(x) if isinstance(x, tuple) else x
    return (t, i)


def ipoly(t, F):
    if t.op == 'k':
        return pconst(kv(t))
    if t.op == 'l':
        r = pconst(t.a[0])
        for x, c in t.a[1]:
            r = padd(r, pmul(pconst(c), ipoly(x, F)))
        return r
    if t.op == 'o':
        n, a = t.a[0], t.a[1]
        if n == 'Shl':
            return pmul(ipoly(a[0], F), pow2(ipoly(a[1], F)))
        if n in ('Mul', 'mul'):
            r = pconst(1)
            for x in a:
                r = pmul(r, ipoly(x, F))
            return r
        if n == 'wraps':
            w = kv(a[1])
            b = nbits(a[0], F, w) if a[0].op == 'b' else nbits(O('wrapu', (a[0], a[1]), 0, (1 << w) - 1), F, w)
            if b is not None:
                return padd(pbits(b[:-1], F), pmul(pconst(-(1 << (w - 1))), pbits(b[-1:], F)))
        if n in ('BitXor', 'BitAnd', 'BitOr'):
            bs = bitpolys(t, F)
            if bs is not None:
                r = {}
                for i, x in enumerate(bs):
                    r = padd(r, pmul(pconst(1 << i), x))
                return r
            if n == 'BitXor':
                for m, y in (a, a[::-1]):
                    # complement within a mask
                    if isk(m) and kv(m) > 0 and kv(m) & (kv(m) + 1) == 0:
                        lo, hi = rng(y, F)
                        if lo >= 0 and hi <= kv(m):
                            return padd(pconst(kv(m)), ipoly(y, F), -1)
    lo, hi = rng(t, F)
    if lo >= 0 and hi < 1 << 64:
        b = nbits(t, F, max(1, hi.bit_length()))
        if b is not None and (t.op in 'bs' or all(not isinstance(x, tuple) or not isinstance(strip(x), tuple) or strip(x)[0].op == 's' for x in b)):
            return pbits(b, F)
    raise Unknown(repr(t)[:80])


def bitpolys(t, F):
    """each bit of t as a polynomial, or None"""
    if t.op == 'o' and t.a[0] in ('BitXor', 'BitAnd', 'BitOr'):
        x, y = bitpolys(t.a[1][0], F), bitpolys(t.a[1][1], F)
        if x is None or y is None:
            return None
        out = []
        for i in range(max(len(x), len(y))):
            p, q = (x[i] if i < len(x) else {}), (y[i] if i < len(y) else {})
            pq = pmul(p, q)
            out.append(pq if t.a[0] == 'BitAnd' else padd(padd(p, q), pmul(pconst(1 if t.a[0] == 'BitOr' else 2), pq), -1))
        return out
    lo, hi = rng(t, F)
    if lo < 0 or hi >= 1 << 32:
        return None
    b = nbits(t, F, max(1, hi.bit_length()))
    if b is None:
        return None
    b = [strip(x) if isinstance(x, tuple) else x for x in b]
    if any(isinstance(x, tuple) and x[0].op not in 's' for x in b):
        return None
    return [{frozenset([x]): Q(1)} if isinstance(x, tuple) else pconst(x) for x in b]


def pow2(p):
    r = pconst(1)
    for m, c in p.items():
        if c.denominator != 1 or abs(c) > 200 or len(m) > 1:
            raise Unknown('exponent')
        f = Q(2) ** int(c)
        r = pmul(r, pconst(f) if m == ONEM else padd(pconst(1), {m: f - 1}))
    return r


def rpoly(t, F):
    c = fk(t)
    if c is not None:
        return pconst(c)
    if t.op == 'o':
        n, a = t.a[0], t.a[1]
        if n == 'i2f':
            return ipoly(a[0], F)
        if n == 'f2f':
            return rpoly(a[0], F)
        if n == 'fneg':
            return pmul(pconst(-1), rpoly(a[0], F))
        if n in ('fAdd', 'fSub'):
            return padd(rpoly(a[0], F), rpoly(a[1], F), 1 if n == 'fAdd' else -1)
        if n == 'fMul':
            return pmul(rpoly(a[0], F), rpoly(a[1], F))
        if n == 'fDiv':
            d = rpoly(a[1], F)
            if list(d) == [ONEM]:
                return pmul(rpoly(a[0], F), pconst(1 / d[ONEM]))
            if not d:
                raise Unknown('division by zero')
            return pmul(rpoly(a[0], F), inverse(d))
        if n == 'fpowi':
            b = fk(a[0])
            if b == 2:
                return pow2(ipoly(a[1], F))
            if b == Q(1, 2):
                return pow2(pmul(pconst(-1), ipoly(a[1], F)))
        if n == 'fpowf' and fk(a[0]) == 2:
            return pow2(rpoly(a[1], F))
        if n == 'fexp2':
            return pow2(rpoly(a[0], F))
        if n in ('ffloor', 'fround', 'ftrunc', 'fceil'):
            p = rpoly(a[0], F)
            if all(c.denominator == 1 for c in p.values()):
                return p
    raise Unknown(repr(t)[:80])


def inverse(d):
    """1/d for d = 2^e"""
    bits = sorted(set(b for m in d for b in m), key=lambda b: (b[0].uid, b[1]))
    c = peval(d, {b: 0 for b in bits})
    r = pconst(1 / c) if c else None
    if r is None:
        raise Unknown('divisor')
    for b in bits:
        f = peval(d, {x: int(x == b) for x in bits}) / c
        r = pmul(r, padd(pconst(1), {frozenset([b]): 1 / f - 1}))
    if pdiff(pmul(r, d), pconst(1)):
        raise Unknown('divisor')
    return r


def peval(p, env):
    return sum((c for m, c in p.items() if all(env[b] for b in m)), Q(0))


def pdiff(a, b, tol=Q(1, 10 ** 5)):
    """monomials in which a and b differ by more than the rounding of constants"""
    s = max([abs(c) for c in b.values()] or [0])
    return [m for m in set(a) | set(b) if abs(a.get(m, 0) - b.get(m, 0)) > tol * max(abs(a.get(m, 0)), abs(b.get(m, 0))) + s * Q(1, 10 ** 9)]


def ieval(t, env):
    """value of an integer term under an assignment of bits, or None"""
    if t.op == 'k':
        return kv(t)
    if t.op == 'l':
        r = t.a[0]
        for x, c in t.a[1]:
            v = ieval(x, env)
            if v is None:
                return None
            r += c * v
        return r
    if t.op == 'b':
        r = 0
        for i, b in enumerate(t.a[0]):
            if isinstance(b, tuple):
                b = strip(b)
                if isinstance(b, tuple):
                    b = env.get(b)
                if b is None:
                    return None
            r |= b << i
        return r
    if t.op == 's':
        n = t.hi.bit_length()
        if t.lo < 0 or n > 16:
            return None
        bs = [env.get((t, i)) for i in range(n)]
        return None if None in bs else sum(b << i for i, b in enumerate(bs))
    return None


# ---------------------------------------------------------------- affine forms in one real input
class Iv:
    """interval of the input, ends open or closed"""
    __slots__ = ('lo', 'lop', 'hi', 'hop')

    def __init__(self, lo, lop, hi, hop):
        self.lo, self.lop, self.hi, self.hop = Q(lo), lop, Q(hi), hop

    def empty(self):
        return self.lo > self.hi or self.lo == self.hi and (self.lop or self.hop)

    def meet(self, o):
        lo, lop = max((self.lo, self.lop), (o.lo, o.lop))
        hi, hop = (self.hi, self.hop) if self.hi < o.hi else (o.hi, o.hop) if o.hi < self.hi else (self.hi, self.hop or o.hop)
        return Iv(lo, lop, hi, hop)

    def __repr__(self):
        return '%s%g, %g%s' % ('(' if self.lop else '[', self.lo, self.hi, ')' if self.hop else ']')


BIG = Q(10) ** 30


class Aff:
    """terms over input x in iv; over: ranges already known of integer terms (facts of the path)"""

    def __init__(self, x, iv, F, over=None):
        self.x, self.iv, self.F, self.over = x, iv, F, over or {}

    def range(self, f):
        a, b, dl, dh = f[:4]
        e = (a * self.iv.lo, a * self.iv.hi)
        return min(e) + b + dl, max(e) + b + dh

    def real(self, t):
        """(a, b, dlo, dhi, whole)"""
        c = fk(t)
        if c is not None:
            return (Q(0), c, Q(0), Q(0), c.denominator == 1)
        if t is self.x:
            return (Q(1), Q(0), Q(0), Q(0), False)
        if t.op != 'o':
            raise Unknown(repr(t)[:80])
        n, a = t.a[0], t.a[1]
        if n == 'f2f':
            return self.real(a[0])
        if n == 'i2f':
            return self.int(a[0])
        if n == 'fneg':
            return self.mulc(self.real(a[0]), Q(-1))
        if n in ('fAdd', 'fSub'):
            p, q = self.real(a[0]), self.real(a[1])
            if n == 'fSub':
                q = self.mulc(q, Q(-1))
            return (p[0] + q[0], p[1] + q[1], p[2] + q[2], p[3] + q[3], p[4] and q[4])
        if n == 'fMul':
            p, q = self.real(a[0]), self.real(a[1])
            for u, v in ((p, q), (q, p)):
                if u[0] == 0 and u[2] == u[3] == 0:
                    return self.mulc(v, u[1])
        if n == 'fDiv':
            p, q = self.real(a[0]), self.real(a[1])
            if q[0] == 0 and q[2] == q[3] == 0 and q[1]:
                return self.mulc(p, 1 / q[1])
        if n == 'fpowi':
            p, q = self.real(a[0]), self.int(a[1])
            if p[0] == 0 and p[2] == p[3] == 0 and q[0] == 0 and q[2] == q[3] == 0 and abs(q[1]) < 200 and p[1]:
                return (Q(0), p[1] ** int(q[1]), Q(0), Q(0), False)
        if n in ('fexp2', 'fpowf'):
            q = self.real(a[-1])
            if q[0] == 0 and q[2] == q[3] == 0 and q[1].denominator == 1 and abs(q[1]) < 200 and (n == 'fexp2' or fk(a[0]) == 2):
                return (Q(0), Q(2) ** int(q[1]), Q(0), Q(0), False)
        if n in ('fround', 'ffloor', 'fceil', 'ftrunc', 'fround_ties_even'):
            return self.rnd(self.real(a[0]), n[1:])
        if n == 'fabs':
            p = self.real(a[0])
            lo, hi = self.range(p)
            if lo >= 0:
                return p
            if hi <= 0:
                return self.mulc(p, Q(-1))
        if n in ('fclamp', 'fmin', 'fmax'):
            cs = [self.real(y) for y in a]
            if n != 'fclamp' and cs[0][0] == 0:
                cs.reverse()
            if all(c[0] == 0 and c[2] == c[3] == 0 for c in cs[1:]):
                lo, hi = (cs[1][1], cs[2][1]) if n == 'fclamp' else (-BIG * BIG, cs[1][1]) if n == 'fmin' else (cs[1][1], BIG * BIG)
                return self.clamp(cs[0], lo, hi, all(c[4] for c in cs[1:]))
        raise Unknown(repr(t)[:80])

    def mulc(self, p, c):
        e = sorted((p[2] * c, p[3] * c))
        return (p[0] * c, p[1] * c, e[0], e[1], p[4] and c.denominator == 1)

    def rnd(self, p, how):
        if p[4]:
            return p
        lo, hi = self.range(p)
        if lo == hi:
            f, c = floor(lo), ceil(lo)
            v = {'floor': f, 'ceil': c, 'trunc': f if lo >= 0 else c}.get(how)
            if v is None:
                d = lo - f
                v = f if d < Q(1, 2) else c if d > Q(1, 2) else (f if lo < 0 else c) if how == 'round' else f + f % 2
            return (Q(0), Q(v), Q(0), Q(0), True)
        if how in ('round', 'round_ties_even'):
            l, h = -Q(1, 2), Q(1, 2)
        else:
            l, h = {'floor': (-1, 0), 'ceil': (0, 1), 'trunc': (-1 if hi > 0 else 0, 1 if lo < 0 else 0)}[how]
        return (p[0], p[1], p[2] + l, p[3] + h, True)

    def clamp(self, p, l, h, whole):
        lo, hi = self.range(p)
        # rounding can reach a bound only by the part the rounding itself added: that part stays inside
        e = (p[0] * self.iv.lo + p[1], p[0] * self.iv.hi + p[1])
        c0, c1 = min(e), max(e)
        if lo == hi:
            v = min(max(lo, l), h)
            return (Q(0), v, Q(0), Q(0), p[4] and whole)
        if c0 >= l and c1 <= h:
            return p[:4] + (p[4] and whole,)
        dl, dh = p[2], p[3]
        if c1 > h:
            dl = min(dl, h - c1)
        if c0 < l:
            dh = max(dh, l - c0)
        return (p[0], p[1], dl, dh, p[4] and whole)

    def int(self, t):
        if t.op == 'k':
            return (Q(0), Q(kv(t)), Q(0), Q(0), True)
        if t.op == 'l':
            r = (Q(0), Q(t.a[0]), Q(0), Q(0), True)
            for y, c in t.a[1]:
                q = self.mulc(self.int(y), Q(c))
                r = tuple(r[i] + q[i] for i in range(4)) + (True,)
            return r
        if t.op == 'b':
            return self.bits(t.a[0])
        if t.op == 'o':
            n, a = t.a[0], t.a[1]
            if n == 'f2i':
                bits, sg = kv(a[1]), kv(a[2])
                p = self.rnd(self.real(a[0]), 'trunc')
                l, h = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
                return self.clamp(p, Q(l), Q(h), True)
            if n in ('wrapu', 'wraps'):
                w = kv(a[1])
                lo, hi = self.irange(a[0])
                off = 0 if n == 'wrapu' else 1 << (w - 1)
                q = (lo + off) // (1 << w)
                if (hi + off) // (1 << w) == q:
                    p = self.int(a[0])
                    return (p[0], p[1] - q * (1 << w)) + p[2:]
            if n == 'BitXor':
                for m, y in (a, a[::-1]):
                    if isk(m) and kv(m) > 0 and kv(m) & (kv(m) + 1) == 0:
                        lo, hi = rng(y, self.F)
                        if lo >= 0 and hi <= kv(m):
                            p = self.mulc(self.int(y), Q(-1))
                            return (p[0], p[1] + kv(m)) + p[2:]
            if n == 'Shl':
                q = self.int(a[1])
                if q[0] == 0 and q[2] == q[3] == 0 and 0 <= q[1] < 64:
                    return self.mulc(self.int(a[0]), Q(1 << int(q[1])))
        raise Unknown(repr(t)[:80])

    def irange(self, t):
        """range of an integer term: facts, overrides and what the input interval allows"""
        lo, hi = rng(t, self.F)
        if t in self.over:
            lo, hi = max(lo, self.over[t][0]), min(hi, self.over[t][1])
        try:
            a, b = self.range(self.int(t)) if t.op == 'o' and t.a[0] == 'f2i' else (lo, hi)
            lo, hi = max(lo, ceil(a)), min(hi, floor(b))
            if t.op == 'o' and t.a[0] == 'f2i':
                _, cl, ch = unclamped(self, t.a[1][0])
                if cl < ch:
                    lo, hi = max(lo, ceil(cl)), min(hi, floor(ch))
        except Unknown:
            pass
        return lo, hi

    def bits(self, bs):
        out = []
        for b in bs:
            neg = 0
            while isinstance(b, tuple):
                c = strip(b)
                if isinstance(c, tuple) and c[0].op == 'o' and c[0].a[0] == 'BitXor' and any(isk(y) for y in c[0].a[1]):
                    m, y = c[0].a[1] if isk(c[0].a[1][0]) else c[0].a[1][::-1]
                    neg ^= (kv(m) >> c[1]) & 1
                    b = (y, c[1])
                    continue
                b = c
                break
            if isinstance(b, tuple):
                lo, hi = self.irange(b[0])
                if lo <= hi and lo >> b[1] == hi >> b[1]:
                    b = (lo >> b[1]) & 1
            out.append((b[0], b[1], neg) if isinstance(b, tuple) else b ^ neg)
        r = (Q(0), Q(0), Q(0), Q(0), True)
        i = 0
        while i < len(out):
            b = out[i]
            if not isinstance(b, tuple):
                r = (r[0], r[1] + (b << i)) + r[2:]
                i += 1
                continue
            j = i
            while j < len(out) and out[j] == (b[0], b[1] + j - i, b[2]):
                j += 1
            n = j - i
            if b[1]:
                raise Unknown('part of the bits of %r' % (b[0],))
            lo, hi = self.irange(b[0])
            if lo >> n != hi >> n:
                raise Unknown('low bits of %r' % (b[0],))
            p = self.int(b[0])
            p = (p[0], p[1] - ((lo >> n) << n)) + p[2:]
            if b[2]:
                p = self.mulc(p, Q(-1))
                p = (p[0], p[1] + (1 << n) - 1) + p[2:]
            p = self.mulc(p, Q(1 << i))
            r = tuple(r[k] + p[k] for k in range(4)) + (True,)
            i = j
        return r


def halfline(p, op, val):
    """x with (a*x + b) op 0 being val; p = (a, b)"""
    a, b = p
    if a == 0:
        t = {'<': b < 0, '<=': b <= 0, '=': b == 0}[op]
        return None if t == val else False
    r = -b / a
    neg = a < 0
    if op == '=':
        return Iv(r, False, r, False) if val else None
    if val:
        op_open, lower = op == '<', not neg
    else:
        op_open, lower = op == '<=', neg
    return Iv(-BIG, False, r, op_open) if lower else Iv(r, op_open, BIG, False)


def inv_int(f, lo, hi):
    """x for which integer form f = a*x+b+[dl,dh] can lie in [lo,hi]"""
    a, b, dl, dh = f[:4]
    if a == 0:
        return None
    l = Q(lo) - b - dh if lo > -INF // 2 else -BIG
    h = Q(hi) - b - dl if hi < INF // 2 else BIG
    e = sorted((l / a, h / a))
    return Iv(e[0], False, e[1], False)


def path_interval(x, F, iv):
    """interval of x the facts F allow; (iv or None when infeasible, loose: some fact about x was not used)"""
    loose = False
    for k, f in F.items():
        if x not in atoms(k):
            continue
        lo, hi = f[0], f[1]
        try:
            if k.op == 'o' and k.a[0] in ('fLt', 'fLe', 'fEq') and lo == hi:
                af = Aff(x, iv, {})
                p, q = af.real(k.a[1][0]), af.real(k.a[1][1])
                if any(v for v in (p[2], p[3], q[2], q[3])):
                    loose = True
                    continue
                h = halfline((p[0] - q[0], p[1] - q[1]), {'fLt': '<', 'fLe': '<=', 'fEq': '='}[k.a[0]], bool(lo))
            elif k.op == 'o' and k.a[0] == 'f2i':
                af = Aff(x, Iv(-BIG, False, BIG, False), {})
                inner, cl, ch = unclamped(af, k.a[1][0])
                h = inv_int(inner, max(lo, k.lo), min(hi, k.hi)) if inner else None
                if inner is None:
                    loose = True
                elif lo <= k.lo and hi >= k.hi and f[2]:
                    loose = True
                else:      # a saturated end is open ended
                    if h is not None:
                        up = hi >= min(k.hi, ch)
                        dn = lo <= max(k.lo, cl)
                        if inner[0] < 0:
                            up, dn = dn, up
                        h = Iv(-BIG if dn else h.lo, False, BIG if up else h.hi, False)
            elif k.op in 'bl':
                continue
            else:
                loose = True
                continue
        except Unknown:
            loose = True
            continue
        if h is False:
            return None, loose
        if h is not None:
            iv = iv.meet(h)
            if iv.empty():
                return None, loose
    return iv, loose


def unclamped(af, t):
    """form of a float term below clamping to bounds (for inverting facts about the integer): None if no such reading"""
    if t.op == 'o' and t.a[0] == 'fclamp':
        l, h = fk(t.a[1][1]), fk(t.a[1][2])
        if l is None or h is None:
            return None, 0, 0
        f, a, b = unclamped(af, t.a[1][0])
        return f, max(a, l), min(b, h)
    try:
        return af.rnd(af.real(t), 'trunc'), -BIG * BIG, BIG * BIG
    except Unknown:
        return None, 0, 0


def at_point(x, p, F):
    """do the facts hold for input p: True / False / None"""
    af = Aff(x, Iv(p, False, p, False), {})
    res = True
    for k, f in F.items():
        if x not in atoms(k):
            continue
        try:
            if k.op == 'o' and k.a[0] in ('fLt', 'fLe', 'fEq'):
                u, v = af.range(af.real(k.a[1][0])), af.range(af.real(k.a[1][1]))
                if u[0] != u[1] or v[0] != v[1]:
                    raise Unknown()
                u, v = u[0], v[0]
                n = int({'fLt': u < v, 'fLe': u <= v, 'fEq': u == v}[k.a[0]])
            else:
                n, m = af.range(af.int(k))
                if n != m:
                    raise Unknown()
        except Unknown:
            res = None
            continue
        if not f[0] <= n <= f[1] or n in f[2]:
            return False
    return res


_atoms = {}


def atoms(t):
    r = _atoms.get(t)
    if r is None:
        s = set()
        if t.op == 's':
            s.add(t)
        elif t.op == 'l':
            for y, _ in t.a[1]:
                s |= atoms(y)
        elif t.op == 'b':
            for b in t.a[0]:
                if isinstance(b, tuple):
                    s |= atoms(b[0])
        elif t.op == 'o':
            for y in t.a[1]:
                if isinstance(y, T):
                    s |= atoms(y)
        r = _atoms[t] = frozenset(s)
    return r


def ints(t, out=None):
    """the float-to-integer conversions inside a term"""
    out = set() if out is None else out
    if t.op == 'o':
        if t.a[0] == 'f2i':
            out.add(t)
        for y in t.a[1]:
            if isinstance(y, T):
                ints(y, out)
    elif t.op == 'l':
        for y, _ in t.a[1]:
            ints(y, out)
    elif t.op == 'b':
        for b in t.a[0]:
            if isinstance(b, tuple):
                ints(b[0], out)
    return out
