"""Abstract values (hash-consed) and sequences."""
from .terms import *
from . import terms as TT

_vt = {}


class V:
    __slots__ = ('_syms',)


def _intern(cls, key):
    k = (cls,) + key
    v = _vt.get(k)
    if v is None:
        v = cls.__new__(cls)
        v._syms = None
        v._init(*key)
        _vt[k] = v
    return v


class Agg(V):
    """struct / tuple / enum variant / closure / coroutine"""
    __slots__ = ('ty', 'var', 'fs')

    def _init(self, ty, var, fs):
        self.ty, self.var, self.fs = ty, var, fs

    def __repr__(self):
        return 'Agg%s#%s%r' % (self.ty, self.var, list(self.fs))


class Seq(V):
    """sequence of elements; segs:
       ('e', v)                     one element
       ('c', name, ety, off, n)     n elements of the unknown sequence `name` from offset off
       ('r', v, n)                  n copies of v
       ('l', ksym, n, segs)         for ksym = 0..n-1: segs (each of fixed length)
    """
    __slots__ = ('ety', 'segs')

    def _init(self, ety, segs):
        self.ety, self.segs = ety, segs

    def __repr__(self):
        return 'Seq%r' % (list(self.segs),)


class Ref(V):
    __slots__ = ('base', 'path')

    def _init(self, base, path):
        self.base, self.path = base, path

    def __repr__(self):
        return '&%s%s' % (TT._sn(self.base) if isinstance(self.base, tuple) else self.base, list(self.path) or '')


class Sym(V):
    """an arbitrary value of type ty"""
    __slots__ = ('ty', 'name')

    def _init(self, ty, name):
        self.ty, self.name = ty, name

    def __repr__(self):
        return 'Sym%s<%s>' % (self.ty, TT._sn(self.name))


class Opq(V):
    __slots__ = ('kind', 'args')

    def _init(self, kind, args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return '%s%r' % (self.kind, list(self.args) if self.args else '')


class Str(V):
    """text; d: python str literal, or a name tuple"""
    __slots__ = ('d',)

    def _init(self, d):
        self.d = d

    def __repr__(self):
        return 'Str(%r)' % (self.d,)


def mkagg(ty, var, fs):
    return _intern(Agg, (ty, var, tuple(fs)))


def mkseq(ety, segs):
    out = []
    for s in segs:
        if s[0] == 'c' and isk(s[4]) and kv(s[4]) == 0:
            continue
        if s[0] == 'r':
            if isk(s[2]):
                n = kv(s[2])
                if n == 0:
                    continue
                if n <= 64:
                    out.extend([('e', s[1])] * n)
                    continue
            if out and out[-1][0] == 'r' and out[-1][1] is s[1]:
                out[-1] = ('r', s[1], add(out[-1][2], s[2]))
                continue
        if s[0] == 'l' and isk(s[2]) and kv(s[2]) == 0:
            continue
        if s[0] == 'c' and out and out[-1][0] == 'c' and out[-1][1] == s[1] and add(out[-1][3], out[-1][4]) is s[3]:
            p = out.pop()
            out.append(('c', s[1], s[2], p[3], add(p[4], s[4])))
            continue
        out.append(s)
    return _intern(Seq, (ety, tuple(out)))


def mkref(base, path=()):
    return _intern(Ref, (base, tuple(path)))


def rawsym(ty, name):
    return _intern(Sym, (ty, name))


def opq(kind, *args):
    return _intern(Opq, (kind, tuple(args)))


def mkstr(d):
    return _intern(Str, (d,))


def seglen(s):
    if s[0] == 'e':
        return ONE
    if s[0] == 'c':
        return s[4]
    if s[0] == 'r':
        return s[2]
    if s[0] == 'l':
        w = ZERO
        for x in s[3]:
            w = add(w, seglen(x))
        return mul(w, s[2])
    raise ValueError(s)


def seqlen(q):
    n = ZERO
    for s in q.segs:
        n = add(n, seglen(s))
    return n


def isname(x):
    return isinstance(x, (tuple, str))


def vsyms(v):
    """symbols (terms) and names mentioned by a value"""
    if isinstance(v, T):
        return TT.syms(v)
    if not isinstance(v, V):
        if isinstance(v, tuple):
            r = frozenset()
            for x in v:
                if isinstance(x, (T, V, tuple)):
                    r |= vsyms(x)
            return r
        return frozenset()
    if v._syms is None:
        if isinstance(v, Agg):
            r = vsyms(v.fs)
        elif isinstance(v, Seq):
            r = vsyms(v.segs)
        elif isinstance(v, Ref):
            r = vsyms(v.base) | vsyms(v.path)
        elif isinstance(v, Sym):
            r = vsyms(v.name)
        elif isinstance(v, Opq):
            r = vsyms(v.args)
        else:
            r = vsyms(v.d) if isinstance(v.d, tuple) else frozenset()
        v._syms = r
    return v._syms


_nm = {}


def names(v):
    """all base names (tuples starting with '@' / '?' / anything) mentioned, as a set of tuples"""
    if not isinstance(v, (T, V, tuple)):
        return frozenset()
    r = _nm.get(v)
    if r is not None:
        return r
    out = set()

    def walk(x, seen):
        if isinstance(x, T):
            if x.op == 's':
                walk(x.a[0], seen)
            elif x.op == 'l':
                for a, _ in x.a[1]:
                    walk(a, seen)
            elif x.op == 'b':
                for b in x.a[0]:
                    if isinstance(b, tuple):
                        walk(b[0], seen)
            elif x.op == 'o':
                for a in x.a[1]:
                    walk(a, seen)
        elif isinstance(x, Agg):
            for f in x.fs:
                walk(f, seen)
        elif isinstance(x, Seq):
            for s in x.segs:
                walk(s, seen)
        elif isinstance(x, Ref):
            walk(x.base, seen)
            walk(x.path, seen)
        elif isinstance(x, Sym):
            walk(x.name, seen)
        elif isinstance(x, Opq):
            for a in x.args:
                walk(a, seen)
        elif isinstance(x, Str):
            walk(x.d, seen)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0][:1] in '@?':
                out.add(x)
            for y in x:
                walk(y, seen)
    walk(v, None)
    r = frozenset(out)
    _nm[v] = r
    return r


_tm = {}


def tainted(v):
    r = _tm.get(v)
    if r is None:
        r = any(n[0].startswith('?') for n in names(v))
        _tm[v] = r
    return r


_sm = {}


def isstale(v):
    """does the value depend on receive-buffer octets beyond the received count?"""
    r = _sm.get(v)
    if r is None:
        r = any(n[0] == '@stale' for n in names(v))
        _sm[v] = r
    return r


class Subst:
    """structural substitution on values: symbols via fs(sym)->term or None, names via dict"""

    def __init__(self, F, symmap=None, namemap=None):
        self.F, self.sm, self.nm, self.memo, self.tmemo = F, symmap or {}, namemap or {}, {}, {}

    def name(self, n):
        if n in self.nm:
            return self.nm[n]
        if isinstance(n, tuple):
            out = tuple(self.any(x) for x in n)
            return out if any(a is not b for a, b in zip(out, n)) else n
        return n

    def any(self, x):
        if isinstance(x, T):
            return self.term(x)
        if isinstance(x, V):
            return self.val(x)
        if isinstance(x, tuple):
            return self.name(x)
        return x

    def _sym(self, s):
        if s in self.sm:
            return self.sm[s]
        n = self.name(s.a[0])
        if n is s.a[0]:
            return s
        return S(n, s.a[1], s.a[2])

    def term(self, t):
        return TT.rebuild(t, self.F, self._sym, self.tmemo)

    def val(self, v):
        if v is None or not isinstance(v, V):
            return self.term(v) if isinstance(v, T) else v
        r = self.memo.get(v)
        if r is not None:
            return r
        if isinstance(v, Agg):
            r = mkagg(v.ty, v.var, [self.val(f) for f in v.fs])
        elif isinstance(v, Seq):
            r = mkseq(v.ety, [self.seg(s) for s in v.segs])
        elif isinstance(v, Ref):
            r = mkref(self.any(v.base), tuple(self.any(p) for p in v.path))
        elif isinstance(v, Sym):
            r = rawsym(v.ty, self.name(v.name))
        elif isinstance(v, Opq):
            r = opq(v.kind, *[self.any(a) for a in v.args])
        elif isinstance(v, Str):
            r = mkstr(self.name(v.d)) if isinstance(v.d, tuple) else v
        self.memo[v] = r
        return r

    def seg(self, s):
        if s[0] == 'e':
            return ('e', self.val(s[1]))
        if s[0] == 'c':
            return ('c', self.name(s[1]), s[2], self.term(s[3]), self.term(s[4]))
        if s[0] == 'r':
            return ('r', self.val(s[1]), self.term(s[2]))
        # bound variable s[1] is not substituted unless it is mapped deliberately
        saved = self.sm
        if s[1] in self.sm:
            self.sm = {k: v for k, v in self.sm.items() if k is not s[1]}
            sub2 = Subst(self.F, self.sm, self.nm)
            body = tuple(sub2.seg(x) for x in s[3])
            self.sm = saved
        else:
            body = tuple(self.seg(x) for x in s[3])
        return ('l', s[1], self.term(s[2]), body)
