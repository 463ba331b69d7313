"""Integer terms of the abstract domain.

A term denotes a mathematical integer (booleans are 0/1; floats are opaque terms).  Terms are hash-consed, so
identity is structural equality.  Forms:
  k  constant                     a=(n,)
  s  symbol                       a=(name, lo, hi)
  l  linear combination           a=(c, ((atom, coef), ...))
  b  bit composition, LSB first   a=(bits,)   bit = 0 | 1 | (atom, index)
  o  uninterpreted operation      a=(name, args, lo, hi)
Facts (what a path knows) are a dict  key-term -> (lo, hi, excluded); keys are atoms or constant-free linear
terms with positive leading coefficient and coprime coefficients.
"""
from math import gcd
INF = 1 << 300
_tab = {}


class T:
    __slots__ = ('op', 'a', 'lo', 'hi', 'uid', '_syms', '_taint')

    def __repr__(self):
        return show(self)


def _mk(op, a, lo, hi):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.lo, t.hi, t.uid, t._syms, t._taint = op, a, lo, hi, len(_tab), None, None
        _tab[key] = t
    return t


def K(n):
    n = int(n)
    return _mk('k', (n,), n, n)


ZERO, ONE = K(0), K(1)


def S(name, lo=-INF, hi=INF):
    if lo == hi:
        return K(lo)
    return _mk('s', (name, lo, hi), lo, hi)


def O(name, args, lo=-INF, hi=INF):
    if lo == hi:
        return K(lo)
    return _mk('o', (name, tuple(args), lo, hi), lo, hi)


def isk(t):
    return t.op == 'k'


def kv(t):
    return t.a[0]


def lin(t):
    """(const, {atom: coef})"""
    if t.op == 'k':
        return t.a[0], {}
    if t.op == 'l':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    lo = hi = c
    for a, k in d.items():
        x, y = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
        lo += max(-INF, min(INF, x * k))
        hi += max(-INF, min(INF, y * k))
    return _mk('l', (c, tuple(sorted(d.items(), key=lambda p: p[0].uid))), max(lo, -INF), min(hi, INF))


def add(a, b):
    r = _bitadd(a, b)
    if r is not None:
        return r
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    for x, k in d2.items():
        d1[x] = d1.get(x, 0) + k
    return mklin(c1 + c2, d1)


def _bitadd(a, b):
    # disjoint bit fields: addition is bitwise or
    if a.op == 'b' and b.op == 'b':
        x, y = a.a[0], b.a[0]
        n = max(len(x), len(y))
        out = []
        for i in range(n):
            p = x[i] if i < len(x) else 0
            q = y[i] if i < len(y) else 0
            if p == 0:
                out.append(q)
            elif q == 0:
                out.append(p)
            else:
                return None
        return frombits(out)
    if a.op == 'b' and b.op in 'so' and 0 <= b.lo and b.hi < (1 << 64):
        bb = tobits(b, b.hi.bit_length())
        x = a.a[0]
        if all(x[i] == 0 for i in range(min(len(x), len(bb)))):
            return frombits(list(bb) + list(x[len(bb):]))
    if b.op == 'b' and a.op in 'so':
        return _bitadd(b, a)
    return None


def scale(a, k):
    if k > 0 and a.op in 'bso' and (k & (k - 1)) == 0 and k > 1 and a.lo >= 0 and a.hi < (1 << 32):
        sh = k.bit_length() - 1
        if a.op == 'b':
            return frombits([0] * sh + list(a.a[0]))
    c, d = lin(a)
    return mklin(c * k, {x: y * k for x, y in d.items()})


def sub(a, b):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    for x, k in d2.items():
        d1[x] = d1.get(x, 0) - k
    return mklin(c1 - c2, d1)


def mul(a, b):
    if isk(a):
        return scale(b, kv(a))
    if isk(b):
        return scale(a, kv(b))
    ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    x, y = (a, b) if a.uid <= b.uid else (b, a)
    return O('mul', (x, y), max(min(ps), -INF), min(max(ps), INF))


# ---- bits -------------------------------------------------------------------------------------------------
def tobits(t, w):
    """bits of t (known to be in [0, 2^w)) as list of length w, or None"""
    if t.op == 'k':
        n = t.a[0]
        if n < 0:
            n &= (1 << w) - 1
        return [(n >> i) & 1 for i in range(w)]
    if t.op == 'b':
        b = list(t.a[0])
        return (b + [0] * w)[:w]
    if t.lo < 0:
        return None
    n = t.hi.bit_length()
    if t.op == 'o' and t.a[0] == 'wrapu' and t.a[1][0].op == 'l' and t.a[1][0].lo >= 0:
        b = tobits(t.a[1][0], max(w, n))[:n]
        return (b + [0] * w)[:w]
    if t.op == 'o' and t.a[0] == 'div' and t.a[1][0].op == 'l' and t.a[1][0].lo >= 0:
        k = t.a[1][1].a[0]
        if (k & (k - 1)) == 0:
            k = k.bit_length() - 1
            return (tobits(t.a[1][0], max(w, n) + k)[k:] + [0] * w)[:w]
    if t.op == 'l':
        g = 0
        for _, k in t.a[1]:
            g = gcd(g, k)
        g = gcd(g, t.a[0]) if t.a[0] else g
        z = (g & -g).bit_length() - 1
        return [0 if i < z else ((t, i) if i < n else 0) for i in range(w)]
    return [(t, i) if i < n else 0 for i in range(w)]


def frombits(bits):
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    if all(isinstance(b, int) for b in bits):
        return K(sum(b << i for i, b in enumerate(bits)))
    t = bits[0][0] if isinstance(bits[0], tuple) else None
    if t is not None and t.hi.bit_length() == len(bits) and all(b == (t, i) for i, b in enumerate(bits)):
        return t
    if t is not None and t.op == 'l' and all(b == (t, i) for i, b in enumerate(bits)):
        return O('wrapu', (t, K(len(bits))), 0, (1 << len(bits)) - 1)
    if t is not None and t.op == 'l' and 0 < bits[0][1] and t.hi.bit_length() == len(bits) + bits[0][1] and \
            all(b == (t, i + bits[0][1]) for i, b in enumerate(bits)):
        k = 1 << bits[0][1]
        return O('div', (t, K(k)), max(0, t.lo // k), t.hi // k)
    lo = sum(1 << i for i, b in enumerate(bits) if b == 1)
    hi = sum(1 << i for i, b in enumerate(bits) if b != 0)
    return _mk('b', (tuple(bits),), lo, hi)


def rng(t, F):
    """interval of t under facts F"""
    op = t.op
    if op == 'k':
        return t.a[0], t.a[0]
    lo, hi = t.lo, t.hi
    f = F.get(t)
    if f:
        lo, hi = max(lo, f[0]), min(hi, f[1])
    if op == 'l':
        c, d = t.a
        l = h = c
        for a, k in d:
            x, y = rng(a, F)
            if k < 0:
                x, y = y, x
            l += max(-INF, min(INF, x * k))
            h += max(-INF, min(INF, y * k))
        lo, hi = max(lo, l), min(hi, h)
        key, sg, g, c = linkey(t)
        kf = F.get(key)
        if kf:
            x, y = kf[0], kf[1]
            if sg < 0:
                x, y = -y, -x
            if x > -INF:
                lo = max(lo, c + g * x)
            if y < INF:
                hi = min(hi, c + g * y)
            if kf[2] and lo <= hi:
                ex = {c + sg * g * e for e in kf[2]}
                while lo in ex and lo <= hi:
                    lo += 1
                while hi in ex and lo <= hi:
                    hi -= 1
        if len(d) >= 2 and (lo <= 0 or hi >= 0):
            lo, hi = _pairwise(t, F, lo, hi)
    elif op == 'o':
        n, args = t.a[0], t.a[1]
        if n == 'div':
            x, y = rng(args[0], F)
            k = args[1].a[0]
            if x >= 0:
                lo, hi = max(lo, x // k), min(hi, y // k)
        elif n in ('wrapu', 'wraps'):
            x, y = rng(args[0], F)
            if x >= t.lo and y <= t.hi:
                lo, hi = max(lo, x), min(hi, y)
        elif n == 'mul':
            x, y = rng(args[0], F)
            p, q = rng(args[1], F)
            ps = [x * p, x * q, y * p, y * q]
            lo, hi = max(lo, min(ps)), min(hi, max(ps))
        elif n == 'min':
            x, y = rng(args[0], F)
            p, q = rng(args[1], F)
            lo, hi = max(lo, min(x, p)), min(hi, y, q)
        elif n == 'max':
            x, y = rng(args[0], F)
            p, q = rng(args[1], F)
            lo, hi = max(lo, x, p), min(hi, max(y, q))
    elif op == 'b':
        at = None
        bits = t.a[0]
        if isinstance(bits[0], tuple) and all(b == (bits[0][0], i) for i, b in enumerate(bits)):
            x, y = rng(bits[0][0], F)
            if x >= 0 and y < (1 << len(bits)):
                lo, hi = max(lo, x), min(hi, y)
        elif len(F) < 400:
            l2 = h2 = 0
            i = 0
            n = len(bits)
            while i < n:
                b = bits[i]
                if isinstance(b, int):
                    l2 += b << i
                    h2 += b << i
                    i += 1
                    continue
                a, j0 = b
                j = i
                while j < n and bits[j] == (a, j0 + j - i):
                    j += 1
                w = j - i
                x, y = rng(a, F)
                if x == y:
                    v = (x >> j0) & ((1 << w) - 1)
                    l2 += v << i
                    h2 += v << i
                elif j0 == 0 and 0 <= x and y < (1 << w):
                    l2 += x << i
                    h2 += y << i
                elif 0 <= x and y < (1 << (j0 + w)):
                    l2 += (x >> j0) << i
                    h2 += (y >> j0) << i
                else:
                    h2 += ((1 << w) - 1) << i
                i = j
            lo, hi = max(lo, l2), min(hi, h2)
    if f and f[2]:
        while lo in f[2] and lo <= hi:
            lo += 1
        while hi in f[2] and lo <= hi:
            hi -= 1
    return lo, hi


_pw = [0]


def _pairwise(t, F, lo, hi):
    """use facts on linear keys sharing atoms: t = q*key + rest"""
    if _pw[0] > 1:
        return lo, hi
    _pw[0] += 1
    try:
        c, d = t.a
        atoms = {a for a, _ in d}
        dd = dict(d)
        for key, f in F.items():
            if not isinstance(key, T) or key.op != 'l':
                continue
            kd = key.a[1]
            if len(kd) < 2 or not any(a in atoms for a, _ in kd):
                continue
            cand = set()
            for a, k in kd:
                if a in dd and dd[a] % k == 0:
                    cand.add(dd[a] // k)
            for q in cand:
                if q == 0:
                    continue
                rest = sub(t, scale(key, q))
                if rest.op == 'l' and len(rest.a[1]) > len(d):
                    continue
                x, y = rng(rest, F)
                p, r = f[0], f[1]
                if q < 0:
                    p, r = r, p
                l = x + max(-INF, min(INF, q * p))
                h = y + max(-INF, min(INF, q * r))
                if l > lo:
                    lo = l
                if h < hi:
                    hi = h
    finally:
        _pw[0] -= 1
    return lo, hi


def linkey(t):
    """(key term, sign, gcd, const) with t = const + sign*gcd*key"""
    c, d = lin(t)
    items = sorted(d.items(), key=lambda p: p[0].uid)
    g = 0
    for _, k in items:
        g = gcd(g, k)
    sg = 1 if items[0][1] > 0 else -1
    key = mklin(0, {a: sg * k // g for a, k in items})
    return key, sg, g, c


def nbits(t, F, w):
    """tobits using facts for the bound; None when t may fall outside [0,2^w)"""
    lo, hi = rng(t, F)
    if lo < 0 or hi >= (1 << w):
        return None
    if t.op in 'kb':
        return tobits(t, w)
    n = hi.bit_length()
    b = tobits(t, w) if t.lo >= 0 else [(t, i) for i in range(w)]
    return [x if i < n else 0 for i, x in enumerate(b)]


def simp(t, F, _memo=None):
    """substitute everything F pins to one value"""
    if t.op == 'k':
        return t
    if _memo is None:
        _memo = {}
    if t in _memo:
        return _memo[t]
    lo, hi = rng(t, F)
    if lo == hi:
        r = K(lo)
    elif t.op == 'l':
        r = K(t.a[0])
        for a, k in t.a[1]:
            r = add(r, scale(simp(a, F, _memo), k))
        if r.op == 'l':
            r = lin2bits(r, F)
    elif t.op == 'b':
        bits = []
        for b in t.a[0]:
            if isinstance(b, tuple):
                a = b[0]
                x, y = rng(a, F)
                if x == y and x >= 0:
                    bits.append((x >> b[1]) & 1)
                    continue
                if 0 <= x and y.bit_length() <= b[1]:
                    bits.append(0)
                    continue
                if a.op == 'o':
                    s = simp(a, F, _memo)
                    if s is not a:
                        sl, sh = rng(s, F)
                        if sl >= 0:
                            bs = nbits(s, F, max(sh.bit_length(), b[1] + 1))
                            if bs is not None:
                                bits.append(bs[b[1]])
                                continue
            bits.append(b)
        r = frombits(bits)
        if r.op == 'b':
            bb = r.a[0]
            if isinstance(bb[0], tuple) and all(x == (bb[0][0], i) for i, x in enumerate(bb)):
                x, y = rng(bb[0][0], F)
                if x >= 0 and y < (1 << len(bb)):
                    r = bb[0][0]
    elif t.op == 'o':
        n, args, l, h = t.a
        r = t
        if n in ('wrapu', 'wraps'):
            x, y = rng(args[0], F)
            if x >= l and y <= h:
                r = simp(args[0], F, _memo)
        elif n == 'div':
            a = simp(args[0], F, _memo)
            if a is not args[0]:
                r = div(a, args[1].a[0], F)
    else:
        r = t
    _memo[t] = r
    return r


def lin2bits(t, F, least=2):
    """sum of disjoint shifted fields -> bit composition (else t)"""
    c, d = t.a
    if c < 0 or len(d) < least:
        return t
    out = [(c >> i) & 1 for i in range(max(1, c.bit_length()))]
    for a, k in d:
        if k <= 0 or k & (k - 1):
            return t
        sh = k.bit_length() - 1
        lo, hi = rng(a, F)
        if lo < 0 or hi >= (1 << 64):
            return t
        bb = nbits(a, F, max(1, hi.bit_length()))
        if bb is None:
            return t
        if len(out) < sh + len(bb):
            out += [0] * (sh + len(bb) - len(out))
        for i, x in enumerate(bb):
            if x == 0:
                continue
            if out[sh + i] != 0:
                return t
            out[sh + i] = x
    return frombits(out)


def eq(a, b, F):
    """True / False / None: a == b under F"""
    if a is b:
        return True
    d = sub(a, b)
    lo, hi = rng(d, F)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0:
        return False
    a2, b2 = simp(a, F), simp(b, F)
    if a2 is b2:
        return True
    if a2 is not a or b2 is not b:
        lo, hi = rng(sub(a2, b2), F)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
    for x, y in ((a2, b2), (b2, a2)):
        if isk(x):
            f = F.get(y)
            if f and kv(x) in f[2]:
                return False
            if y.op == 'b':
                for i, bit in enumerate(y.a[0]):
                    if isinstance(bit, int) and bit != (kv(x) >> i) & 1:
                        return False
                if kv(x) >> len(y.a[0]):
                    return False
    if d.op != 'k':
        key, sg, g, c = linkey(d)
        if c % g:
            return False
        f = F.get(key)
        if f and (-sg * c // g) in f[2]:
            return False
    return None


def div(a, k, F):
    """floor division of a non-negative term by constant k>0"""
    if isk(a):
        return K(kv(a) // k)
    if k == 1:
        return a
    if (k & (k - 1)) == 0 and a.op in 'bso':
        sh = k.bit_length() - 1
        lo, hi = rng(a, F)
        if a.lo >= 0 and a.hi < (1 << 64):
            return frombits(tobits(a, a.hi.bit_length())[sh:])
    c, d = lin(a)
    if all(v % k == 0 for v in d.values()) and c >= 0 and rng(a, F)[0] >= 0:
        return mklin(c // k, {x: v // k for x, v in d.items()})
    lo, hi = rng(a, F)
    if lo >= 0 and lo // k == hi // k:
        return K(lo // k)
    l = a.lo // k if a.lo >= 0 else 0
    return O('div', (a, K(k)), max(0, l), a.hi // k if a.hi < INF else INF)


def rem(a, k, F):
    if isk(a):
        return K(kv(a) % k)
    lo, hi = rng(a, F)
    if lo >= 0 and hi < k:
        return a
    c, d = lin(a)
    if lo >= 0:
        d2 = {x: v for x, v in d.items() if v % k}
        if len(d2) < len(d) or c >= k:
            if not d2:
                return K(c % k)
            a = mklin(c % k, d2)
            if rng(a, F)[0] >= 0 and rng(a, F)[1] < k:
                return a
    if (k & (k - 1)) == 0 and lo >= 0:
        return wrap(a, k.bit_length() - 1, False, F)
    return O('rem', (a, K(k)), 0, k - 1)


# ---- booleans ---------------------------------------------------------------------------------------------
def notb(t):
    if isk(t):
        return K(1 - kv(t))
    if t.op == 'o' and t.a[0] == 'not':
        return t.a[1][0]
    return O('not', (t,), 0, 1)


def le0(d):
    """term for d <= 0"""
    if isk(d):
        return K(1 if kv(d) <= 0 else 0)
    if d.hi <= 0:
        return ONE
    if d.lo > 0:
        return ZERO
    c, dd = lin(d)
    if len(dd) == 1:
        (a, k), = dd.items()
        # single 0/1 atom or single bit: reduce to the bit itself
        bit = onebit(a)
        if bit is not None:
            v1 = (c + k * a.hi) <= 0
            v0 = c <= 0
            if v1 and v0:
                return ONE
            if not v1 and not v0:
                return ZERO
            return bit if v1 else notb(bit)
    return O('le0', (d,), 0, 1)


def onebit(a):
    if a.lo == 0 and a.hi == 1:
        return a
    if a.op == 'b':
        bits = a.a[0]
        if all(b == 0 for b in bits[:-1]) and isinstance(bits[-1], tuple):
            return frombits([bits[-1]])
    return None


def eq0(d):
    if isk(d):
        return K(1 if kv(d) == 0 else 0)
    if d.lo > 0 or d.hi < 0:
        return ZERO
    c, dd = lin(d)
    if len(dd) == 1:
        (a, k), = dd.items()
        bit = onebit(a)
        if bit is not None:
            if c == 0:
                return notb(bit)
            if c + k * a.hi == 0:
                return bit
            return ZERO
    key, sg, g, c = linkey(d)
    if c % g:
        return ZERO
    return O('eq0', (add(key, K(sg * c // g)),), 0, 1)


def cmp(op, a, b):
    if op == 'Eq':
        return eq0(sub(a, b))
    if op == 'Ne':
        return notb(eq0(sub(a, b)))
    if op == 'Lt':
        return le0(add(sub(a, b), ONE))
    if op == 'Le':
        return le0(sub(a, b))
    if op == 'Gt':
        return le0(add(sub(b, a), ONE))
    if op == 'Ge':
        return le0(sub(b, a))
    raise KeyError(op)


def truth(t, F):
    """True/False/None for a boolean term"""
    lo, hi = rng(t, F)
    if lo >= 1:
        return True
    if hi <= 0:
        return False
    if t.op == 'o':
        n, args = t.a[0], t.a[1]
        if n == 'not':
            r = truth(args[0], F)
            return None if r is None else not r
        if n == 'le0':
            lo, hi = rng(args[0], F)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            s = simp(args[0], F)
            if s is not args[0]:
                lo, hi = rng(s, F)
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            return None
        if n == 'eq0':
            d = args[0]
            c, dd = lin(d)
            r = eq(mklin(0, dd), K(-c), F)
            return r
        if n == 'and':
            rs = [truth(x, F) for x in args]
            if False in rs:
                return False
            if all(rs):
                return True
        if n == 'or':
            rs = [truth(x, F) for x in args]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
    s = simp(t, F)
    if s is not t and isk(s):
        return kv(s) != 0
    return None


def _setf(F, key, lo=None, hi=None, ex=None):
    o = F.get(key, (-INF, INF, frozenset()))
    l, h, e = o
    if lo is not None and lo > l:
        l = lo
    if hi is not None and hi < h:
        h = hi
    if ex is not None:
        e = e | {ex}
    L, H = max(l, key.lo), min(h, key.hi)
    while L in e and L <= H:
        L += 1
        l = L
    while H in e and L <= H:
        H -= 1
        h = H
    if L > H:
        return False
    F[key] = (l, h, e)
    if L == H and (l, h) != (o[0], o[1]):
        return _pin(F, key, L)
    return True


def _pin(F, key, v):
    """key == v: propagate to the parts"""
    if key.op == 'b':
        # whole-atom groups
        bits = key.a[0]
        groups = {}
        for i, b in enumerate(bits):
            if isinstance(b, tuple):
                groups.setdefault(b[0], {})[b[1]] = (v >> i) & 1
            elif b != (v >> i) & 1:
                return False
        for a, m in groups.items():
            lo, hi = rng(a, F)
            if lo >= 0 and all(j in m for j in range(hi.bit_length())):
                val = sum(m[j] << j for j in range(hi.bit_length()))
                if not (lo <= val <= hi):
                    return False
                f = F.get(a)
                if f and val in f[2]:
                    return False
                if not _setf(F, a, val, val):
                    return False
    elif key.op == 'l':
        # x - y == v: each bounds the other
        c, d = lin(key)
        if len(d) == 2:
            (x, p), (y, q) = d.items()
            if p * q == -1:
                if p < 0:
                    x, y = y, x
                w = v - c
                xl, xh = rng(x, F)
                yl, yh = rng(y, F)
                if max(yl + w, -INF) > xl or yh + w < xh:
                    if not _setf(F, x, max(xl, yl + w), min(xh, yh + w)):
                        return False
                if xl - w > yl or xh - w < yh:
                    if not _setf(F, y, max(yl, xl - w), min(yh, xh - w)):
                        return False
    elif key.op == 'o':
        n, args = key.a[0], key.a[1]
        if n == 'and' and v == 1:
            for x in args:
                if not assume(F, x, True):
                    return False
        elif n == 'or' and v == 0:
            for x in args:
                if not assume(F, x, False):
                    return False
    if key.op in 'so':
        # x - y == w known earlier: the other one is pinned too
        for k, f in list(F.items()):
            if k.op == 'l' and f[0] == f[1] and len(k.a[1]) == 2 and (k.a[1][0][0] is key or k.a[1][1][0] is key):
                (x, p), (y, q) = k.a[1]
                if x is key:
                    x, p, y, q = y, q, x, p
                # c + p*x + q*v == f
                n = f[0] - k.a[0] - q * v
                if n % p:
                    return False
                g = F.get(x)
                if g is None or (g[0], g[1]) != (n // p, n // p):
                    if not _setf(F, x, n // p, n // p):
                        return False
    return True


FHOOK = None      # set while floats are read as reals: is a set of facts about float comparisons consistent?


def assume(F, t, val):
    """add 'boolean term t is val' to F (mutates). False if contradictory."""
    if FHOOK is not None and t.op == 'o' and t.a[0] in ('fLt', 'fLe', 'fEq') and truth(t, F) is None:
        return _setf(F, t, int(val), int(val)) and FHOOK(F, t)
    r = truth(t, F)
    if r is not None:
        return r == val
    if t.op == 'o':
        n, args = t.a[0], t.a[1]
        if n == 'not':
            return assume(F, args[0], not val)
        if n == 'le0':
            d = args[0]
            key, sg, g, c = linkey(d)   # c + sg*g*key <= 0
            if val:
                # sg*key <= floor(-c/g)
                b = (-c) // g
                return _setf(F, key, hi=b) if sg > 0 else _setf(F, key, lo=-b)
            # c + sg*g*key >= 1  -> sg*key >= ceil((1-c)/g)
            b = -((c - 1) // g)
            return _setf(F, key, lo=b) if sg > 0 else _setf(F, key, hi=-b)
        if n == 'eq0':
            d = args[0]
            c, dd = lin(d)
            key, sg, g, c = linkey(d)
            if c % g:
                return not val
            v = -sg * (c // g)
            if val:
                return _setf(F, key, v, v)
            return _setf(F, key, ex=v)
        if n in ('or', 'and') and all(isinstance(x, T) for x in args):
            if val == (n == 'and'):
                return all(assume(F, x, val) for x in args)
            open_ = [x for x in args if truth(x, F) is None]
            if len(open_) == 1:
                return assume(F, open_[0], val)
            # one of several values of the same term
            vs, key0 = set(), None
            for x in open_:
                if val and x.op == 'o' and x.a[0] == 'eq0':
                    key, sg, g, c = linkey(x.a[1][0])
                    if key0 in (None, key):
                        key0 = key
                        if c % g == 0:
                            vs.add(-sg * (c // g))
                        continue
                key0 = False
                break
            if key0 and vs and max(vs) - min(vs) <= 512:
                if not _setf(F, key0, min(vs), max(vs)):
                    return False
                for v in range(min(vs), max(vs)):
                    if v not in vs and not _setf(F, key0, ex=v):
                        return False
                return True
    return _setf(F, t, 1, 1) if val else _setf(F, t, 0, 0)


# ---- typed operations --------------------------------------------------------------------------------------
def trange(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def wrap(t, bits, signed, F):
    lo, hi = trange(bits, signed)
    x, y = rng(t, F)
    if x >= lo and y <= hi:
        return t
    if isk(t):
        n = kv(t) & ((1 << bits) - 1)
        if signed and n >> (bits - 1):
            n -= 1 << bits
        return K(n)
    if t.op == 'o' and t.a[0] in ('wrapu', 'wraps'):
        iw = t.a[1][1].a[0]
        if iw >= bits:
            t = t.a[1][0]
            return wrap(t, bits, signed, F)
    if not signed:
        if t.op == 'o' and t.a[0] == 'Sar' and bits + kv(t.a[1][1]) <= kv(t.a[1][2]):
            k, w = kv(t.a[1][1]), kv(t.a[1][2])
            return frombits(tobits(wrap(t.a[1][0], w, False, F), w)[k:k + bits])
        if t.op == 'b':
            return frombits(t.a[0][:bits])
        if t.op in 'so' and t.lo >= 0 and t.hi < (1 << 128):
            return frombits(tobits(t, max(t.hi.bit_length(), bits))[:bits])
    return O('wraps' if signed else 'wrapu', (t, K(bits)), lo, hi)


def bitop(op, a, b, bits, signed, F):
    if signed:
        lo, hi = trange(bits, True)
        if rng(a, F)[0] >= 0 and rng(b, F)[0] >= 0:
            pass
        elif isk(a) and isk(b):
            x, y = kv(a), kv(b)
            return K(x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y)
        elif op == 'BitAnd' and (rng(a, F)[0] >= 0 or rng(b, F)[0] >= 0):
            h = min(rng(x, F)[1] for x in (a, b) if rng(x, F)[0] >= 0)
            ua = wrap(a, bits, False, F)
            ub = wrap(b, bits, False, F)
            r = bitop(op, ua, ub, bits, False, F)
            return r
        else:
            return O(op, (a, b), lo, hi)
    x, y = nbits(a, F, bits), nbits(b, F, bits)
    if x is None or y is None:
        return O(op, (a, b), *trange(bits, signed))
    out = []
    for p, q in zip(x, y):
        if op == 'BitAnd':
            if p == 0 or q == 0:
                r = 0
            elif p == 1:
                r = q
            elif q == 1:
                r = p
            elif p == q:
                r = p
            else:
                r = None
        elif op == 'BitOr':
            if p == 1 or q == 1:
                r = 1
            elif p == 0:
                r = q
            elif q == 0:
                r = p
            elif p == q:
                r = p
            else:
                r = None
        else:
            if p == 0:
                r = q
            elif q == 0:
                r = p
            elif p == q:
                r = 0
            elif isinstance(p, int) and isinstance(q, int):
                r = p ^ q
            else:
                r = None
        if r is None:
            h = (1 << max(rng(a, F)[1].bit_length(), rng(b, F)[1].bit_length())) - 1
            if op == 'BitAnd':
                h = min(rng(a, F)[1], rng(b, F)[1])
            s, u = (a, b) if a.uid <= b.uid else (b, a)
            return O(op, (s, u), 0, h)
        out.append(r)
    return frombits(out)


def shl(a, n, bits, signed, F):
    if not isk(n):
        return O('Shl', (a, n), *trange(bits, signed))
    k = kv(n) % bits
    if isk(a):
        return wrap(K(kv(a) << k), bits, signed, F)
    if signed and rng(a, F)[0] < 0:
        return O('Shl', (a, n), *trange(bits, signed))
    x = nbits(a, F, bits)
    if x is None:
        return O('Shl', (a, n), *trange(bits, signed))
    out = ([0] * k + list(x))[:bits]
    if signed:
        if out[-1] != 0:
            lo, hi = rng(a, F)
            if (hi << k) < (1 << (bits - 1)):
                return scale(a, 1 << k)
            return O('Shl', (a, n), *trange(bits, signed))
    return frombits(out)


def shr(a, n, bits, signed, F):
    if not isk(n):
        lo, hi = rng(a, F)
        return O('Shr', (a, n), min(lo, 0), max(hi, 0))
    k = kv(n) % bits
    if isk(a):
        return K(kv(a) >> k)
    lo, hi = rng(a, F)
    if a.op == 'l' and lo >= 0 and hi < (1 << bits):
        c, d = lin(a)
        if all(v % (1 << k) == 0 for v in d.values()):
            return div(a, 1 << k, F)
    x = nbits(a, F, bits) if lo >= 0 else None
    if a.op == 'l' and x is not None and hi < (1 << bits) and k and all(b == 0 or (isinstance(b, tuple) and b[0] is a) for b in x):
        return div(a, 1 << k, F)
    if x is None and signed and lo >= -(1 << (bits - 1)) and hi < (1 << (bits - 1)):
        return O('Sar', (a, n, K(bits)), lo >> k, hi >> k)
    if x is None:
        return O('Shr', (a, n), lo >> k if lo > -INF else lo, hi >> k if hi < INF else hi)
    return frombits(list(x)[k:])


def syms(t):
    """all symbol terms inside t"""
    r = t._syms
    if r is None:
        if t.op == 'k':
            r = frozenset()
        elif t.op == 's':
            r = frozenset([t]) | namesyms(t.a[0])
        elif t.op == 'l':
            r = frozenset().union(*[syms(a) for a, _ in t.a[1]])
        elif t.op == 'b':
            r = frozenset().union(*[syms(b[0]) for b in t.a[0] if isinstance(b, tuple)])
        else:
            r = frozenset().union(*[syms(x) if isinstance(x, T) else getattr(x, 'syms', lambda: frozenset())()
                                    for x in t.a[1]]) if t.a[1] else frozenset()
        t._syms = r
    return r


def namesyms(n):
    if isinstance(n, T):
        return syms(n)
    if isinstance(n, tuple):
        r = frozenset()
        for x in n:
            if isinstance(x, (T, tuple)):
                r |= namesyms(x)
        return r
    return frozenset()


def rebuild(t, F, fn, memo):
    """apply fn to symbols (fn(sym) -> term), rebuilding"""
    if t.op == 'k':
        return t
    if t in memo:
        return memo[t]
    if t.op == 's':
        r = fn(t)
    elif t.op == 'l':
        r = K(t.a[0])
        for a, k in t.a[1]:
            r = add(r, scale(rebuild(a, F, fn, memo), k))
    elif t.op == 'b':
        bits = []
        for b in t.a[0]:
            if isinstance(b, tuple):
                a = rebuild(b[0], F, fn, memo)
                if a is b[0]:
                    bits.append(b)
                elif isk(a):
                    bits.append((kv(a) >> b[1]) & 1)
                else:
                    bb = tobits(a, b[1] + 1) if a.lo >= 0 else None
                    bits.append(bb[b[1]] if bb else (a, b[1]))
            else:
                bits.append(b)
        r = frombits(bits)
    else:
        n, args, lo, hi = t.a
        na = tuple(rebuild(x, F, fn, memo) if isinstance(x, T) else x for x in args)
        if na == args:
            r = t
        elif n == 'le0':
            r = le0(na[0])
        elif n == 'eq0':
            r = eq0(na[0])
        elif n == 'not':
            r = notb(na[0])
        elif n == 'div':
            r = div(na[0], na[1].a[0], F)
        elif n == 'rem':
            r = rem(na[0], na[1].a[0], F)
        elif n in ('wrapu', 'wraps'):
            r = wrap(na[0], na[1].a[0], n == 'wraps', F)
        elif n == 'mul':
            r = mul(*na)
        elif n == 'Sar':
            r = shr(na[0], na[1], kv(na[2]), True, F)
        else:
            r = O(n, na, lo, hi)
    memo[t] = r
    return r


def _sn(n):
    if isinstance(n, tuple):
        return '.'.join(_sn(x) for x in n)
    return str(n)


def show(t):
    if t.op == 'k':
        return str(t.a[0])
    if t.op == 's':
        return '<%s>' % _sn(t.a[0])
    if t.op == 'l':
        s = '+'.join(('%d*' % k if k != 1 else '') + show(a) for a, k in t.a[1])
        return '(%s%+d)' % (s, t.a[0]) if t.a[0] else '(%s)' % s
    if t.op == 'b':
        out = []
        bits = t.a[0]
        i = len(bits) - 1
        while i >= 0:
            b = bits[i]
            if isinstance(b, int):
                out.append(str(b))
                i -= 1
                continue
            j = i
            while j > 0 and isinstance(bits[j - 1], tuple) and bits[j - 1][0] is b[0] and bits[j - 1][1] == bits[j][1] - 1:
                j -= 1
            out.append('%s[%d:%d]' % (show(b[0]), b[1], bits[j][1]))
            i = j - 1
        return 'bits(%s)' % ','.join(out)
    return '%s(%s)' % (t.a[0], ','.join(str(x) for x in t.a[1]))
