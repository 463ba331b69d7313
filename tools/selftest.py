"""differential test of the term domain (engine/terms.py) against enumeration: ranges, truth, eq, simp must be sound"""
import random
import sys
import itertools
sys.path.insert(0, '/verif')
from engine.terms import *
from engine import terms as TT

VS = [S('a', 0, 7), S('b', 0, 15), S('c', -4, 3), S('d', 0, 1)]
ENVS = [dict(zip(VS, p)) for p in itertools.product(*(range(v.lo, v.hi + 1) for v in VS))]


def w(n, bits, sg):
    n &= (1 << bits) - 1
    if sg and n >> (bits - 1):
        n -= 1 << bits
    return n


def ev(t, e):
    op = t.op
    if op == 'k':
        return t.a[0]
    if op == 's':
        return e[t]
    if op == 'l':
        return t.a[0] + sum(ev(x, e) * k for x, k in t.a[1])
    if op == 'b':
        r = 0
        for i, b in enumerate(t.a[0]):
            r |= (b if isinstance(b, int) else (ev(b[0], e) >> b[1]) & 1) << i
        return r
    n, a = t.a[0], t.a[1]
    v = [ev(x, e) for x in a]
    if n == 'not':
        return 1 - v[0]
    if n == 'le0':
        return int(v[0] <= 0)
    if n == 'eq0':
        return int(v[0] == 0)
    if n == 'and':
        return int(all(v))
    if n == 'or':
        return int(any(v))
    if n == 'div':
        return v[0] // v[1]
    if n == 'rem':
        return v[0] % v[1]
    if n == 'mul':
        return v[0] * v[1]
    if n == 'wrapu':
        return w(v[0], v[1], 0)
    if n == 'wraps':
        return w(v[0], v[1], 1)
    if n == 'BitAnd':
        return v[0] & v[1]
    if n == 'BitOr':
        return v[0] | v[1]
    if n == 'BitXor':
        return v[0] ^ v[1]
    if n == 'min':
        return min(v)
    if n == 'max':
        return max(v)
    raise KeyError(n)


def gen(R, F, envs, d):
    """(term, concrete function) valid on envs"""
    if d == 0 or R.random() < .15:
        if R.random() < .25:
            k = R.randint(-3, 20)
            return K(k), lambda e: k
        v = R.choice(VS)
        return v, lambda e: e[v]
    a, fa = gen(R, F, envs, d - 1)
    op = R.choice(['add', 'sub', 'scale', 'mul', 'div', 'rem', 'wrap', 'and', 'or', 'xor', 'shl', 'shr', 'wrap'])
    if op == 'scale':
        k = R.choice([-2, 2, 3, 256, -1])
        return scale(a, k), lambda e: fa(e) * k
    lo = min(fa(e) for e in envs)
    hi = max(fa(e) for e in envs)
    if op in ('div', 'rem') and rng(a, F)[0] >= 0:
        k = R.choice([1, 2, 3, 4, 8, 10])
        return (div(a, k, F), lambda e: fa(e) // k) if op == 'div' else (rem(a, k, F), lambda e: fa(e) % k)
    if op == 'wrap':
        b, sg = R.choice([(8, False), (8, True), (4, False), (3, False), (16, True)])
        return wrap(a, b, sg, F), lambda e: w(fa(e), b, sg)
    if op in ('shl', 'shr') and rng(a, F)[0] >= 0 and rng(a, F)[1] < 256:
        k = R.randint(0, 7)
        if op == 'shl':
            return shl(a, K(k), 8, False, F), lambda e: w(fa(e) << k, 8, 0)
        return shr(a, K(k), 8, False, F), lambda e: fa(e) >> k
    b, fb = gen(R, F, envs, d - 1)
    if op in ('and', 'or', 'xor'):
        r, q = rng(a, F), rng(b, F)
        if r[0] >= 0 and r[1] < 256 and q[0] >= 0 and q[1] < 256:
            n = {'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor'}[op]
            return bitop(n, a, b, 8, False, F), {'and': lambda e: fa(e) & fb(e), 'or': lambda e: fa(e) | fb(e), 'xor': lambda e: fa(e) ^ fb(e)}[op]
    if op == 'mul':
        return mul(a, b), lambda e: fa(e) * fb(e)
    if op == 'sub':
        return sub(a, b), lambda e: fa(e) - fb(e)
    return add(a, b), lambda e: fa(e) + fb(e)


def one(seed):
    R = random.Random(seed)
    F = {}
    envs = ENVS
    for _ in range(R.randint(0, 5)):
        a, fa = gen(R, F, envs, R.randint(1, 3))
        b, fb = gen(R, F, envs, R.randint(0, 2))
        op = R.choice(['Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'])
        f = {'Eq': lambda e: fa(e) == fb(e), 'Ne': lambda e: fa(e) != fb(e), 'Lt': lambda e: fa(e) < fb(e), 'Le': lambda e: fa(e) <= fb(e),
             'Gt': lambda e: fa(e) > fb(e), 'Ge': lambda e: fa(e) >= fb(e)}[op]
        c = cmp(op, a, b)
        vals = [f(e) for e in envs]
        tr = TT.truth(c, F)
        assert tr is None or all(v == tr for v in vals), ('truth', c, tr, F)
        for e, v in zip(envs, vals):
            assert ev(c, e) == v, ('cmp', op, a, b, c, e)
        want = R.choice(vals)
        ok = TT.assume(F, c, want)
        assert ok is not False, ('assume', c, want, F)
        envs = [e for e, v in zip(envs, vals) if v == want]
        for k, (l, h, x) in F.items():
            for e in envs:
                n = ev(k, e)
                assert l <= n <= h and n not in x, ('fact', c, want, k, (l, h, x), e)
    for _ in range(3):
        a, fa = gen(R, F, envs, R.randint(1, 4))
        b, fb = gen(R, F, envs, R.randint(1, 3))
        lo, hi = rng(a, F)
        s = simp(a, F)
        q = TT.eq(a, b, F)
        for e in envs:
            n = fa(e)
            assert ev(a, e) == n, ('val', a, e, n, ev(a, e), F)
            assert lo <= n <= hi, ('rng', a, lo, hi, n, e, F)
            assert ev(s, e) == n, ('simp', a, s, e, F)
            assert q is None or q == (n == fb(e)), ('eq', a, b, q, F)


if __name__ == '__main__':
    n0, n1 = int(sys.argv[1]), int(sys.argv[2])
    bad = 0
    for i in range(n0, n1):
        try:
            one(i)
        except AssertionError as x:
            print(i, str(x)[:700])
            bad += 1
            if bad > 5:
                break
    print('done', bad)
