"""Abstract interpreter over the dumped MIR (trace-partitioned, whole program, fixpoints at loops)."""
import heapq
import json
import os
import struct
import sys
import time
from .terms import *
from . import terms as TT
from .values import *
from .values import _intern
from math import ceil, floor
from . import reals

sys.setrecursionlimit(20000)
UB = S(('u',), 0, 1)          # unconstrained, uncorrelated boolean (log levels ...)
LENMAX = (1 << 60)


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Incompat(Exception):
    pass


class Budget(Exception):
    pass


class PEND:
    def __repr__(self):
        return 'PEND'


PENDING = PEND()


NH = int(os.environ.get("KNXV_NH", "16"))
SPLIT = int(os.environ.get('KNXV_SPLIT', '16'))   # paths with different facts kept apart at a control-flow join
EFFECTS = ('recv', 'recverr', 'send', 'senderr', 'tx', 'txerr', 'rx', 'rxclosed', 'slept', 'elapsed', 'bind', 'sockconnect')
FX = ('fx',)


class St:
    __slots__ = ('mem', 'F', 'trace', 'taint', 'held', 'bound', 'auto')

    def __init__(self):
        self.mem, self.F, self.trace, self.taint, self.held, self.bound, self.auto = {}, {}, None, False, (), 0, None

    def copy(self):
        s = St.__new__(St)
        s.mem, s.F = dict(self.mem), dict(self.F)
        s.trace, s.taint, s.held, s.bound, s.auto = self.trace, self.taint, self.held, self.bound, self.auto
        return s

    def key(self):
        return (id(self.trace) if False else self.trace, self.taint, self.held, self.bound)

    def ev(self, *e):
        if AUTO is not None:
            if e[0] != 'pend':
                self.auto = AUTO.step(self, e)
                if AUTO.eng.sel == 0:
                    # outside a poll the automaton state is all that is kept of the history
                    return
                # inside one it also matters whether anything was done since the last idle point
                if e[0] not in EFFECTS or self.trace is not None and self.trace.e == FX:
                    return
                e = FX
        self.trace = mktrace(self.trace, e)


# typestate mode: the automaton that follows every event (see run.tracking)
AUTO = None


_trt = {}


def mktrace(prev, e):
    k = (prev, e)
    t = _trt.get(k)
    if t is None:
        t = Trace(prev, e)
        _trt[k] = t
    return t


class Trace:
    __slots__ = ('prev', 'e', 'n')

    def __init__(self, prev, e):
        self.prev, self.e, self.n = prev, e, (prev.n if prev else 0) + 1

    def list(self):
        out = []
        t = self
        while t is not None:
            out.append(t.e)
            t = t.prev
        return out[::-1]


def tlist(t):
    return t.list() if t is not None else []


class Frame:
    __slots__ = ('body', 'depth', 'ctx', 'it')

    def __init__(self, body, depth, ctx):
        self.body, self.depth, self.ctx, self.it = body, depth, ctx, ()


class Call:
    __slots__ = ('st', 'fr', 'blk', 'callee', 'args', 'argtys', 'destty', 'path', 'rpath', 'span')


class BodyInfo:
    """control-flow facts of one body"""

    def __init__(self, b):
        self.b = b
        bl = b['blocks']
        n = len(bl)
        self.succ = [succs(x['t']) if not x['cleanup'] else [] for x in bl]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen and not bl[y]['cleanup']:
                    seen.add(y)
                    stack.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        self.rpo = {x: i for i, x in enumerate(order)}
        # dominators
        pred = {x: [] for x in order}
        for x in order:
            for y in self.succ[x]:
                if y in self.rpo:
                    pred[y].append(x)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for x in order[1:]:
                new = None
                for p in pred[x]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(x) != new:
                    idom[x] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        for x in order:
            for y in self.succ[x]:
                if y in self.rpo and self.dom(y, x):
                    body = self.loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z not in body:
                            body.add(z)
                            st.extend(pred[z])

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x for _, x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'yield':
        return [t[2]]
    return []


class Engine:
    def __init__(self, dump):
        self.D = dump
        self.T = dump['types']
        self.B = dump['bodies']
        self.fmt = None        # model of formatting, for the checks about printed text
        self.fns = dump['fns']
        self.info = {}
        self.promo = {}
        self.models = {}
        self.alarms = {}
        self.undecided = {}
        self.unmodelled = {}
        self.loopseg = {}     # loop instance -> list of trace segments
        self.loopinst = {}
        self.loopentry = {}
        self.maxheads = 24
        self.nh = NH
        self.wide = ()         # further widening thresholds (time)
        self.rxclasses = None  # classes of received datagrams (forked at the receive)
        self.msgclasses = None
        self.heldwaits = {}
        self.memo = None
        self.impure = set()
        self.stale = {}
        self.cuts = 0
        self.spawned = {}
        self.mcache = {}
        self.pathmap = None
        self.root = None
        self.steps = 0
        self.maxsteps = 3000000
        self.until = time.time() + float(os.environ.get('KNXV_TIME', '600'))
        self.sel = 0
        self.nfns = set()
        self.asserts = set()
        self.tymap = {}
        self.hooks = {}
        self.limits = {}      # adt path -> {field: (lo, hi)}: assumed ranges of symbolic fields
        self.rootcfg = {}
        from . import models
        models.install(self)

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.T[i]

    def tyid(self, s):
        if not self.tymap:
            for i, t in enumerate(self.T):
                self.tymap.setdefault(t['s'], i)
        return self.tymap.get(s)

    def int_ty(self, i):
        t = self.T[i]
        if t['k'] == 'int':
            return t['bits'], t['signed']
        if t['k'] == 'bool':
            return 1, False
        if t['k'] == 'char':
            return 32, False
        return None

    def is_adt(self, i, path):
        t = self.T[i]
        return t['k'] == 'adt' and t['path'] == path

    def sym(self, ty, name):
        """an arbitrary value of type ty"""
        if ty is None:
            return rawsym(None, name)
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            lo, hi = trange(t['bits'], t['signed'])
            return S(name, lo, hi)
        if k == 'bool':
            return S(name, 0, 1)
        if k == 'char':
            return S(name, 0, 0x10ffff)
        if k == 'float':
            return S(name)
        if k == 'str':
            return mkstr(name if isinstance(name, tuple) else (name,))
        if k in ('ref', 'ptr'):
            return mkref(('S', name, t['to']))
        if k == 'tuple':
            return mkagg(ty, 0, [self.sym(e, (name, i)) for i, e in enumerate(t['elems'])])
        if k == 'array':
            n = t['len']
            return mkseq(t['elem'], [('c', name, t['elem'], ZERO, K(n) if n is not None else S((name, 'len'), 0, LENMAX))])
        if k == 'slice':
            return mkseq(t['elem'], [('c', name, t['elem'], ZERO, S((name, 'len'), 0, LENMAX))])
        if k == 'fndef' :
            return opq('fn', ty)
        if k == 'adt':
            p = t['path']
            if p == 'std::vec::Vec':
                e = t['args'][0]
                return mkseq(e, [('c', name, e, ZERO, S((name, 'len'), 0, LENMAX))])
            if p == 'std::string::String':
                return mkstr(name if isinstance(name, tuple) else (name,))
            if p in ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc'):
                return mkref(('S', name, t['args'][0]))
            if t['kind'] == 'struct' and 'variants' in t and not p.startswith(('core::fmt', 'core::io')):
                if p in self.limits:
                    lim = self.limits[p]
                    return mkagg(ty, 0, [S((name, i), *lim[i]) if i in lim else self.sym(f['ty'], (name, i)) for i, f in enumerate(t['variants'][0]['fields'])])
                return mkagg(ty, 0, [self.sym(f['ty'], (name, i)) for i, f in enumerate(t['variants'][0]['fields'])])
        return rawsym(ty, name)

    def unknown(self, ty, fr, blk, why, tag=''):
        """tainted arbitrary value"""
        self.unmodelled.setdefault(why, 0)
        self.unmodelled[why] += 1
        return self.sym(ty, ('?', why, fr.ctx if fr else (), fr.it if fr else (), blk, tag))

    def fresh(self, st, fr, blk, tag):
        name = ('@' + tag, fr.ctx, fr.it, blk)
        dead = [k for k in st.F if isinstance(k, T) and name in names(k)]
        for k in dead:
            del st.F[k]
        return name

    # ---------------------------------------------------------------- memory
    def load(self, st, base):
        if base[0] == 'C':
            return base[1]
        v = st.mem.get(base)
        if v is None:
            if base[0] == 'S':
                return self.sym(base[2], (base[1], '*') if not (isinstance(base[1], tuple) and base[1][:1] == ('!',)) else base[1][1])
            return None
        return v

    def step(self, st, v, path, j):
        """value of v at path[j:]"""
        n = len(path)
        while j < n:
            if v is None:
                return None
            s = path[j]
            k = s[0]
            if k == 'f':
                if isinstance(v, Agg):
                    if s[1] < len(v.fs):
                        v = v.fs[s[1]]
                    else:
                        return None
                elif isinstance(v, Sym):
                    v = self.sym(s[2], (v.name, s[1]))
                elif isinstance(v, Opq) and v.kind == 'sparse':
                    v = dict(v.args).get(s[1])
                elif isinstance(v, Seq) and s[2] is not None:
                    # newtype wrapper around the sequence storage (ManuallyDrop, MaybeUninit)
                    v = v
                elif isinstance(v, Opq):
                    return opq('part', v, s[1])
                else:
                    return rawsym(s[2], ('?', 'field of', repr(type(v))))
            elif k == 'd':
                if isinstance(v, Agg):
                    pass
                elif isinstance(v, Sym):
                    if j + 1 < n and path[j + 1][0] == 'f':
                        j += 1
                        v = self.sym(path[j][2], (v.name, 'v%d' % s[1], path[j][1]))
            elif k == 'i':
                if not isinstance(v, Seq):
                    return self.sym(None, ('?', 'index'))
                v = self.seq_get(st, v, s[1])
            elif k == 'w':
                if isinstance(v, Seq):
                    v = self.seq_slice(st, v, s[1], s[2])
                elif isinstance(v, Str):
                    v = mkstr(('@sub', v.d, s[1], s[2]))
                else:
                    return self.sym(None, ('?', 'window'))
            else:
                raise ValueError(s)
            j += 1
        return v

    def read(self, st, base, path):
        return self.step(st, self.load(st, base), path, 0)

    def expand(self, v):
        if isinstance(v, Sym) and v.ty is not None:
            t = self.T[v.ty]
            if t['k'] == 'adt' and t['kind'] == 'struct' and 'variants' in t:
                return mkagg(v.ty, 0, [self.sym(f['ty'], (v.name, i)) for i, f in enumerate(t['variants'][0]['fields'])])
            if t['k'] in ('closure', 'coroutine'):
                return mkagg(v.ty, 0, [self.sym(u, (v.name, i)) for i, u in enumerate(t['upvars'])])
        return v

    def put(self, st, v, path, j, new):
        if j == len(path):
            return new
        s = path[j]
        k = s[0]
        if k == 'f':
            v = self.expand(v)
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= s[1]:
                    fs.append(None)
                fs[s[1]] = self.put(st, fs[s[1]], path, j + 1, new)
                return mkagg(v.ty, v.var, fs)
            if v is None or (isinstance(v, Opq) and v.kind == 'sparse'):
                d = dict(v.args) if v is not None else {}
                d[s[1]] = self.put(st, d.get(s[1]), path, j + 1, new)
                return opq('sparse', *sorted(d.items(), key=lambda p: p[0]))
            if isinstance(v, Sym):
                return v if not isinstance(new, Agg) else v
            if isinstance(v, Seq):
                return self.put(st, v, path, j + 1, new)
            return v
        if k == 'd':
            if isinstance(v, Sym) and v.ty is not None:
                t = self.T[v.ty]
                if 'variants' in t and s[1] < len(t['variants']):
                    v = mkagg(v.ty, s[1], [self.sym(f['ty'], (v.name, 'v%d' % s[1], i)) for i, f in enumerate(t['variants'][s[1]]['fields'])])
            return self.put(st, v, path, j + 1, new)
        if k == 'i':
            if isinstance(v, Seq):
                if j + 1 < len(path):
                    old = self.seq_get(st, v, s[1])
                    new = self.put(st, old, path, j + 1, new)
                return self.seq_set(st, v, s[1], ONE, [('e', new)])
            return v
        if k == 'w':
            if isinstance(v, Seq):
                sub_ = self.put(st, self.seq_slice(st, v, s[1], s[2]), path, j + 1, new)
                segs = sub_.segs if isinstance(sub_, Seq) else [('c', ('?', 'window write'), v.ety, ZERO, s[2])]
                return self.seq_set(st, v, s[1], s[2], segs)
            return v
        raise ValueError(s)

    def write(self, st, base, path, val):
        if base[0] == 'C':
            return
        if not path:
            st.mem[base] = val
        else:
            st.mem[base] = self.put(st, self.load(st, base), path, 0, val)

    def deref(self, st, ref):
        """value behind a reference"""
        if isinstance(ref, Ref):
            return self.read(st, ref.base, ref.path)
        return None

    def store(self, st, ref, val):
        if isinstance(ref, Ref):
            self.write(st, ref.base, ref.path, val)

    # ---------------------------------------------------------------- sequences
    def seq_get(self, st, q, idx):
        F = st.F
        for i, s in enumerate(q.segs):
            L = seglen(s)
            c = TT.cmp('Lt', idx, L)
            r = TT.truth(c, F)
            if r is None:
                if i == len(q.segs) - 1:
                    r = True       # bounds were (or will be) checked separately
                else:
                    raise NeedFork(c)
            if r:
                return self.seg_elem(st, s, idx)
            idx = sub(idx, L)
        return self.sym(q.ety, ('?', 'index past end'))

    def seg_elem(self, st, s, idx):
        if s[0] == 'e':
            return s[1]
        if s[0] == 'c':
            return self.sym(s[2], (s[1], add(s[3], idx)))
        if s[0] == 'r':
            return s[1]
        w = ZERO
        for x in s[3]:
            w = add(w, seglen(x))
        if isk(w) and kv(w) > 0 and all(x[0] == 'e' for x in s[3]):
            w = kv(w)
            idx = simp(idx, st.F) if not isk(idx) else idx
            c, d = lin(idx)
            if all(v % w == 0 for v in d.values()):
                q = mklin(c // w, {a: v // w for a, v in d.items()})
                return Subst(st.F, {s[1]: q}).val(s[3][c % w][1])
        return self.sym(None, ('?', 'loop element'))

    def seg_take(self, st, s, start, n):
        if s[0] == 'e':
            return s
        if s[0] == 'c':
            return ('c', s[1], s[2], add(s[3], start), n)
        if s[0] == 'r':
            return ('r', s[1], n)
        L = seglen(s)
        if isk(start) and kv(start) == 0 and TT.eq(n, L, st.F):
            return s
        e = s[3][0]
        ety = e[2] if e[0] == 'c' else 0
        return ('c', ('?', 'part of loop segment', s, start), ety, ZERO, n)

    def seq_slice(self, st, q, start, n):
        F = st.F
        out = []
        skipping = True
        for i, s in enumerate(q.segs):
            if TT.truth(TT.cmp('Le', n, ZERO), F):
                break
            L = seglen(s)
            if skipping:
                r = TT.truth(TT.cmp('Ge', start, L), F)
                if r is None:
                    if i == len(q.segs) - 1:
                        r = False
                    else:
                        raise NeedFork(TT.cmp('Ge', start, L))
                if r:
                    start = sub(start, L)
                    continue
                skipping = False
            else:
                start = ZERO
            avail = sub(L, start)
            if i == len(q.segs) - 1:
                r = True
            else:
                r = TT.truth(TT.cmp('Le', n, avail), F)
            if r is None:
                raise NeedFork(TT.cmp('Le', n, avail))
            if r:
                out.append(self.seg_take(st, s, start, n))
                n = ZERO
                break
            out.append(self.seg_take(st, s, start, avail))
            n = sub(n, avail)
            start = ZERO
        return mkseq(q.ety, out)

    def seq_set(self, st, q, start, n, segs):
        L = seqlen(q)
        a = self.seq_slice(st, q, ZERO, start)
        e = add(start, n)
        b = self.seq_slice(st, q, e, sub(L, e)) if TT.truth(TT.cmp('Ge', e, L), st.F) is not True else mkseq(q.ety, [])
        return mkseq(q.ety, list(a.segs) + list(segs) + list(b.segs))

    # ---------------------------------------------------------------- places / operands
    def place(self, st, fr, p):
        base, path = ('L', fr.depth, p[0]), ()
        for e in p[1:]:
            if e == '*':
                v = self.read(st, base, path)
                if isinstance(v, Ref):
                    base, path = v.base, v.path
                else:
                    base, path = ('?', 'deref', fr.depth, p[0]), ()
                    st.mem.setdefault(base, rawsym(None, ('?', 'deref of non-reference')))
                continue
            k = e[0]
            if k == 'f':
                path += (('f', e[1], e[2]),)
            elif k == 'd':
                path += (('d', e[1]),)
            elif k == 'i':
                path += (('i', st.mem.get(('L', fr.depth, e[1]))),)
            elif k == 'c':
                if e[3]:
                    v = self.read(st, base, path)
                    L = seqlen(v) if isinstance(v, Seq) else K(e[2])
                    path += (('i', sub(L, K(e[1]))),)
                else:
                    path += (('i', K(e[1])),)
            elif k == 's':
                v = self.read(st, base, path)
                L = seqlen(v) if isinstance(v, Seq) else ZERO
                if e[3]:
                    path += (('w', K(e[1]), sub(sub(L, K(e[2])), K(e[1]))),)
                else:
                    path += (('w', K(e[1]), K(e[2] - e[1])),)
        return base, path

    def place_ty(self, fr, p):
        ty = fr.body['locals'][p[0]]
        for e in p[1:]:
            t = self.T[ty] if ty is not None else None
            if e == '*':
                if t['k'] in ('ref', 'ptr'):
                    ty = t['to']
                elif t['k'] == 'adt' and t.get('args'):
                    ty = t['args'][0]
                else:
                    ty = None
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in 'ic':
                ty = t.get('elem') if t else None
        return ty

    def op_ty(self, fr, o):
        if o[0] in 'cm':
            return self.place_ty(fr, o[1])
        if o[0] == 'k':
            return o[1]['ty']
        return None

    def const(self, st, fr, c):
        ty = c['ty']
        t = self.T[ty]
        if 'i' in c:
            if t['k'] == 'adt' or t['k'] == 'tuple':
                return self.sym(ty, ('?', 'const'))
            n = c['i']
            if t['k'] == 'int':
                lo, hi = trange(t['bits'], t['signed'])
                if n > hi:
                    n -= 1 << t['bits']
            return K(n)
        if 'fbits' in c:
            b = t['bits']
            v = struct.unpack('>f' if b == 32 else '>d', int(c['fbits']).to_bytes(b // 8, 'big'))[0]
            return O('fk', (repr(v),))
        if 'str' in c:
            return mkref(('C', mkstr(c['str'])))
        if 'bytes' in c:
            return mkref(('C', mkseq(None, [('e', K(x)) for x in c['bytes']])))
        if 'ref' in c:
            return mkref(('C', self.const(st, fr, c['ref'])))
        if 'promoted' in c:
            b = fr.body['promoted'][c['promoted']]
            v = self.promo.get(id(b))
            if v is None:
                s2 = St()
                rets = self.region(Frame(b, 500, (('p', fr.body['path'], c['promoted']),)), [(0, s2)], None, None)[0]
                v = self.freeze(rets[0][0], rets[0][1]) if rets else None
                self.promo[id(b)] = v
            if b['locals'][0] == ty:
                return v
            return mkref(('C', v))
        if 'fields' in c:
            fs = [self.const(st, fr, x) for x in c['fields']]
            if t['k'] == 'array':
                return mkseq(t['elem'], [('e', x) for x in fs])
            if self.is_adt(ty, 'std::time::Duration'):
                n = fs[1]
                while isinstance(n, Agg) and n.fs:
                    n = n.fs[0]
                if isinstance(fs[0], T) and isinstance(n, T):
                    return opq('dur', add(scale(fs[0], 1000000000), n))
                return self.sym(ty, ('?', 'const'))
            return mkagg(ty, c.get('v', 0), fs)
        if t['k'] == 'fndef':
            return opq('fn', ty)
        if 'zst' in c:
            if t['k'] == 'adt' and 'variants' in t:
                return mkagg(ty, 0, [])
            if t['k'] == 'array':
                return mkseq(t['elem'], [])
            return mkagg(ty, 0, [])
        if t['k'] in ('adt',) and t['path'].startswith(('log::', 'tracing', 'std::fmt', 'core::fmt', 'encoding::')):
            return opq('pure', t['path'])
        if t['k'] in ('ref', 'ptr'):
            return self.sym(ty, ('constref', c.get('opaque') or fr.ctx))
        return self.sym(ty, ('const', str(c.get('opaque'))))

    def freeze(self, st, v):
        """a constant value whose references do not depend on any frame"""
        if isinstance(v, Ref):
            if v.base[0] in 'LH':
                x = self.read(st, v.base, v.path)
                return v if x is None else mkref(('C', self.freeze(st, x)))
            return v
        if isinstance(v, Agg):
            return mkagg(v.ty, v.var, [self.freeze(st, f) for f in v.fs])
        if isinstance(v, Seq):
            return mkseq(v.ety, [('e', self.freeze(st, g[1])) if g[0] == 'e' else g for g in v.segs])
        if isinstance(v, Opq):
            return opq(v.kind, *[self.freeze(st, a) if isinstance(a, V) else a for a in v.args])
        return v

    def operand(self, st, fr, o, moved):
        k = o[0]
        if k == 'k':
            return self.const(st, fr, o[1])
        if k in 'cm':
            base, path = self.place(st, fr, o[1])
            v = self.read(st, base, path)
            if v is None:
                v = self.unknown(self.place_ty(fr, o[1]), fr, 0, 'uninitialised place')
            if k == 'm':
                moved.append((base, path))
            return v
        return UB

    def domove(self, st, moved):
        for base, path in moved:
            if not path:
                if base[0] == 'L':
                    st.mem.pop(base, None)
            elif base[0] in ('L', 'H') and base in st.mem:
                root = st.mem[base]
                if isinstance(root, (Agg, Opq)) and all(p[0] in 'fd' for p in path):
                    cur = self.read(st, base, path)
                    if cur is not None and not isinstance(cur, T):
                        st.mem[base] = self.put(st, root, path, 0, None)

    # ---------------------------------------------------------------- rvalues
    def discr(self, st, v, ty):
        if isinstance(v, Agg):
            t = self.T[v.ty] if v.ty is not None else None
            if t and 'variants' in t:
                return K(t['variants'][v.var]['discr'] if t['variants'][v.var]['discr'] is not None else v.var)
            return K(v.var)
        if isinstance(v, Sym):
            t = self.T[v.ty] if v.ty is not None else None
            if t and t['k'] == 'adt' and 'variants' in t and t['variants']:
                ds = [x['discr'] if x['discr'] is not None else i for i, x in enumerate(t['variants'])]
                d = S(('dv', v.name), min(ds), max(ds))
                if d.op == 's' and d not in st.F:
                    holes = frozenset(range(min(ds), max(ds) + 1)) - frozenset(ds) if max(ds) - min(ds) < 400 else frozenset()
                    if holes:
                        st.F[d] = (-INF, INF, holes)
                return d
            return S(('dv', v.name), 0, 255)
        return S(('?', 'discr of', repr(v)[:40]), 0, 255)

    def variant_of(self, v, F):
        """variant index if known"""
        if isinstance(v, Agg):
            return v.var
        if isinstance(v, Sym) and v.ty is not None:
            t = self.T[v.ty]
            if 'variants' in t:
                ds = [x['discr'] if x['discr'] is not None else i for i, x in enumerate(t['variants'])]
                lo, hi = rng(S(('dv', v.name), min(ds), max(ds)), F)
                if lo == hi and lo in ds:
                    return ds.index(lo)
        return None

    def cases(self, st, v, ty=None):
        """split an enum value: [(state, variant, [fields])]"""
        if isinstance(v, Agg):
            return [(st, v.var, list(v.fs))]
        if isinstance(v, Sym) and v.ty is not None and 'variants' in self.T[v.ty]:
            t = self.T[v.ty]
            d = self.discr(st, v, v.ty)
            out = []
            for i, x in enumerate(t['variants']):
                s2 = st.copy()
                if TT.assume(s2.F, TT.cmp('Eq', d, K(x['discr'] if x['discr'] is not None else i)), True):
                    if tainted(v):
                        s2.taint = True
                    out.append((s2, i, [self.sym(f['ty'], (v.name, 'v%d' % i, j)) for j, f in enumerate(x['fields'])]))
            return out
        return None

    def binop(self, st, op, a, b, ty):
        F = st.F
        if not isinstance(a, T) or not isinstance(b, T):
            if op in ('Eq', 'Ne') and a is b:
                return K(1 if op == 'Eq' else 0)
            return S(('?', 'binop', op), 0, 1) if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else self.sym(ty, ('?', 'binop', op))
        t = self.T[ty] if ty is not None else None
        if t is not None and t['k'] == 'float':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return fcmp(op, a, b)
            return O('f' + op, (a, b))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return TT.cmp(op, a, b)
        it = self.int_ty(ty) if ty is not None else None
        if it is None:
            return self.sym(ty, ('?', 'binop', op))
        bits, sg = it
        if op in ('Add', 'AddUnchecked'):
            return wrap(add(a, b), bits, sg, F)
        if op in ('Sub', 'SubUnchecked'):
            return wrap(sub(a, b), bits, sg, F)
        if op in ('Mul', 'MulUnchecked'):
            return wrap(mul(a, b), bits, sg, F)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return bitop(op, a, b, bits, sg, F)
        if op in ('Shl', 'ShlUnchecked'):
            return shl(a, b, bits, sg, F)
        if op in ('Shr', 'ShrUnchecked'):
            return shr(a, b, bits, sg, F)
        if op in ('Div', 'Rem'):
            lo, hi = rng(a, F)
            if isk(b) and kv(b) > 0 and lo >= 0:
                return div(a, kv(b), F) if op == 'Div' else rem(a, kv(b), F)
            if isk(a) and isk(b) and kv(b):
                x, y = kv(a), kv(b)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return K(q if op == 'Div' else x - q * y)
            l, h = trange(bits, sg)
            if op == 'Rem' and isk(b) and kv(b):
                m = abs(kv(b)) - 1
                l, h = (-m if lo < 0 else 0), m
            elif op == 'Div' and isk(b) and abs(kv(b)) > 0:
                l, h = -max(abs(lo), abs(hi)), max(abs(lo), abs(hi))
            elif lo >= 0 and rng(b, F)[0] >= 0:
                l, h = 0, (hi if op == 'Div' else min(hi, max(0, rng(b, F)[1] - 1)))
            return O(op, (a, b), l, h)
        if op == 'Cmp':
            oty = self.tyid('std::cmp::Ordering')
            return opq('ord', a, b)
        return self.sym(ty, ('?', 'binop', op))

    def cast(self, st, fr, kind, v, src, dst):
        F = st.F
        k = kind
        if k.startswith('IntToInt'):
            it = self.int_ty(dst)
            if isinstance(v, T) and it:
                return wrap(v, it[0], it[1], F)
            if isinstance(v, Agg) and it:
                return self.discr(st, v, src)
            if isinstance(v, Sym) and it and v.ty is not None and 'variants' in self.T[v.ty]:
                return wrap(self.discr(st, v, src), it[0], it[1], F)
            return self.sym(dst, ('?', 'cast'))
        if k.startswith('FloatToInt'):
            it = self.int_ty(dst)
            if it and isinstance(v, T):
                return O('f2i', (v, K(it[0]), K(int(it[1]))), *trange(*it))
        if k.startswith('IntToFloat') and isinstance(v, T):
            return O('i2f', (v,))
        if k.startswith('FloatToFloat'):
            return O('f2f', (v,)) if isinstance(v, T) else v
        if k.startswith('PointerCoercion') or k.startswith('PtrToPtr') or k.startswith('Subtype'):
            return v
        if k.startswith('Transmute'):
            if src == dst or self.T[dst]['s'] == self.T[src]['s'] if src is not None else False:
                return v
            td = self.T[dst]
            if td['k'] in ('ref', 'ptr') and isinstance(v, Ref):
                return v
            if td['k'] == 'adt' and td['path'].startswith('std::pin'):
                return v
            if isinstance(v, Seq) and td['k'] == 'int':
                bs = [s[1] if s[0] == 'e' else None for s in v.segs]
                if len(bs) * 8 == td['bits'] and all(isinstance(x, T) for x in bs):
                    bits = []
                    for x in bs:     # native (little) endian
                        bb = nbits(x, F, 8)
                        if bb is None:
                            break
                        bits += bb
                    else:
                        return wrap(frombits(bits), td['bits'], td['signed'], F)
            if isinstance(v, T) and td['k'] == 'array' and src is not None and self.T[src]['k'] == 'int':
                w = self.T[src]['bits']
                u = wrap(v, w, False, F)
                bb = nbits(u, F, w)
                return mkseq(td['elem'], [('e', frombits(bb[i:i + 8])) for i in range(0, w, 8)])
        return self.sym(dst, ('?', 'cast', k, repr(v)[:60]))

    def rvalue(self, st, fr, r, dty, moved):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1], moved)
        if k == 'ref' or k == 'raw':
            base, path = self.place(st, fr, r[1])
            return mkref(base, path)
        if k == 'bin':
            op = r[1]
            a = self.operand(st, fr, r[2], moved)
            b = self.operand(st, fr, r[3], moved)
            ty = self.op_ty(fr, r[2])
            if op.endswith('WithOverflow'):
                it = self.int_ty(ty)
                if isinstance(a, T) and isinstance(b, T) and it:
                    m = add(a, b) if op[:3] == 'Add' else sub(a, b) if op[:3] == 'Sub' else mul(a, b)
                    lo, hi = trange(*it)
                    c1, c2 = TT.cmp('Lt', m, K(lo)), TT.cmp('Gt', m, K(hi))
                    if it[0] == 64 and op[:3] != 'Sub' and not (isk(a) and isk(b)):
                        c2 = ZERO     # 64-bit counters and lengths do not overflow (stated assumption)
                    if isk(c1) and kv(c1) == 0:
                        fl = c2
                    elif isk(c2) and kv(c2) == 0:
                        fl = c1
                    else:
                        fl = O('or', (c1, c2), 0, 1)
                    return mkagg(dty, 0, [m, fl])
                return mkagg(dty, 0, [self.sym(ty, ('?', 'ovf')), S(('?', 'ovf'), 0, 1)])
            return self.binop(st, op, a, b, ty)
        if k == 'un':
            a = self.operand(st, fr, r[2], moved)
            op = r[1]
            if not isinstance(a, T):
                if op == 'PtrMetadata':
                    v = self.deref(st, a)
                    if isinstance(v, Seq):
                        return seqlen(v)
                return self.sym(dty, ('?', 'unop', op))
            t = self.T[dty] if dty is not None else {'k': ''}
            if op == 'Not':
                if t['k'] == 'bool':
                    return notb(a)
                it = self.int_ty(dty)
                if it and not it[1]:
                    return bitop('BitXor', a, K((1 << it[0]) - 1), it[0], False, st.F)
                if isk(a):
                    return K(~kv(a))
                return O('inv', (a,), *trange(*it)) if it else self.sym(dty, ('?', 'not'))
            if op == 'Neg':
                if t['k'] == 'float':
                    return O('fneg', (a,))
                return sub(ZERO, a)
            return self.sym(dty, ('?', 'unop', op))
        if k == 'cast':
            src = self.op_ty(fr, r[2])
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2], moved), src, r[3])
        if k == 'discr':
            base, path = self.place(st, fr, r[1])
            v = self.read(st, base, path)
            return self.discr(st, v, self.place_ty(fr, r[1]))
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, fr, o, moved) for o in r[2]]
            if kind[0] == 'array':
                e = self.T[dty]['elem'] if dty is not None and self.T[dty]['k'] == 'array' else None
                return mkseq(e, [('e', o) for o in ops])
            if kind[0] == 'tuple':
                return mkagg(dty, 0, ops)
            if kind[0] == 'adt':
                return mkagg(kind[1], kind[2], ops)
            if kind[0] in ('closure', 'coroutine'):
                return mkagg(kind[1], 0, ops)
            return self.sym(dty, ('?', 'agg', kind[0]))
        if k == 'repeat':
            v = self.operand(st, fr, r[1], moved)
            n = self.T[dty]['len'] if dty is not None and self.T[dty]['k'] == 'array' else None
            if n is None:
                return self.sym(dty, ('?', 'repeat'))
            return mkseq(self.T[dty]['elem'], [('r', v, K(n))])
        if k == 'len':
            base, path = self.place(st, fr, r[1])
            v = self.read(st, base, path)
            return seqlen(v) if isinstance(v, Seq) else self.sym(dty, ('?', 'len'))
        return self.sym(dty, ('?', 'rvalue', k))

    # ---------------------------------------------------------------- alarms
    def alarm(self, st, fr, blk, kind, desc, cond=None):
        b = fr.body
        if not b.get('local'):
            # attribute to the nearest function of the analysed crate
            ctx = fr.ctx
            i = len(ctx) - 1
            while i > 0:
                cb = self.bypath(ctx[i - 1][0])
                if cb is not None:
                    b, blk = cb, ctx[i][1]
                    break
                i -= 1
        key = (b['path'], kind, desc)
        tn = st.taint or (cond is not None and tainted(cond))
        d = self.undecided if tn else self.alarms
        if key not in d:
            d[key] = {'root': self.root, 'fn': b['path'], 'span': b['blocks'][blk]['sp'] if isinstance(blk, int) and blk < len(b['blocks']) else '',
                      'kind': kind, 'desc': desc, 'cond': repr(cond)[:200], 'via': [c for c in fr.ctx][-6:]}
        h = self.hooks.get('alarm')
        if h:
            h(st, key, tn)

    def bypath(self, p):
        if self.pathmap is None:
            self.pathmap = {}
            for b in self.B:
                if b and b.get('local'):
                    self.pathmap.setdefault(b['path'], b)
        return self.pathmap.get(p)

    # ---------------------------------------------------------------- execution
    def binfo(self, b):
        i = self.info.get(id(b))
        if i is None:
            i = self.info[id(b)] = BodyInfo(b)
        return i

    def exec_body(self, st, body, args, ctx, depth, it=()):
        """run a body; returns [(state, value|PENDING)]"""
        if depth > 420 and depth < 500 or depth > 560:
            raise Budget('depth')
        fr = Frame(body, depth, ctx)
        fr.it = it
        if body.get('local'):
            self.nfns.add(body['path'])
        for i, a in enumerate(args):
            st.mem[('L', depth, i + 1)] = a
        rets, pend, exits, backs = self.region(fr, [(0, st)], None, None)
        out = []
        for s, v in rets:
            self.pop_frame(s, depth)
            out.append((s, v))
        for s in pend:
            self.pop_frame(s, depth)
            out.append((s, PENDING))
        if len(out) > 1:
            out = self.join_rets(out)
        return out

    def pop_frame(self, s, depth):
        for k in [k for k in s.mem if k[0] == 'L' and k[1] == depth]:
            del s.mem[k]

    def join_rets(self, outs):
        groups = {}
        for s, v in outs:
            groups.setdefault((id(v), s.trace, s.taint, s.held, s.bound, s.auto), []).append((s, v))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            v = g[0][1]
            for s in self.join([x[0] for x in g]):
                res.append((s, v))
        return res

    def join(self, sts):
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            k = (s.trace, s.taint, s.held, s.bound, s.auto, len(s.mem), hash(frozenset(s.mem.items())))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            reps = []
            # an automaton in the middle of a decision wants its paths told apart
            sharp = AUTO is not None and AUTO.sharp(g[0].auto)
            for s in g:
                few = not sharp and AUTO is None and len(reps) < SPLIT
                for r in reps:
                    if r.mem == s.mem and (not (sharp or few) or r.F == s.F):
                        if r.F != s.F:
                            r.F = joinfacts(r.F, s.F)
                        break
                else:
                    reps.append(s)
            out.extend(reps)
        return out

    def region(self, fr, start, region, header):
        """run from start blocks; region limits to a loop body; edges to header are collected"""
        info = self.binfo(fr.body)
        pending = {}
        heap = []
        rets, pend, exits, backs = [], [], [], []

        def push(b, s):
            if s.auto == 'broken':
                return      # the property is already violated on this path
            if header is not None and b == header[0] and header[1]:
                if AUTO is not None:
                    s.auto = AUTO.step(s, ('back', fr.ctx))
                backs.append(s)
                return
            if region is not None and b not in region:
                exits.append((b, s))
                return
            if b in pending:
                pending[b].append(s)
            else:
                pending[b] = [s]
                heapq.heappush(heap, (info.rpo[b], b))

        if header is not None:
            header[1] = False
        for b, s in start:
            push(b, s)
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            sts = self.join(pending.pop(b))
            if header is not None and first:
                header[1] = True
                first = False
            elif b in info.loops and not (header is not None and b == header[0]):
                for s in sts:
                    r, p, e = self.loop(fr, b, s)
                    rets += r
                    pend += p
                    for eb, es in e:
                        push(eb, es)
                continue
            if header is None and b in info.loops:
                for s in sts:
                    r, p, e = self.loop(fr, b, s)
                    rets += r
                    pend += p
                    for eb, es in e:
                        push(eb, es)
                continue
            for s in sts:
                for kind, x, s2 in self.block(fr, b, s):
                    if kind == 'go':
                        push(x, s2)
                    elif kind == 'ret':
                        rets.append((s2, x))
                    elif kind == 'pend':
                        pend.append(s2)
        return rets, pend, exits, backs

    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('steps')
        if self.steps & 255 == 0 and time.time() > self.until:
            raise Budget('time')
        bl = fr.body['blocks'][b]
        self.curfn = (fr.body.get('path'), tuple(x[0] for x in fr.ctx))
        states = [st]
        for s in bl['s']:
            nxt = []
            for x in states:
                nxt += self.forked(x, lambda y: self.stmt(fr, b, y, s))
            states = nxt
        out = []
        t = bl['t']
        for x in states:
            out += self.forkedt(x, lambda y: self.term(fr, b, y, t))
        return out

    def fork(self, st, cond):
        out = []
        if cond is UB:
            return [(st, True), (st.copy(), False)]
        tn = tainted(cond)
        if isstale(cond):
            self.stale.setdefault(self.curfn, cond)
        for val in (True, False):
            s = st.copy()
            if TT.assume(s.F, cond, val):
                if tn:
                    s.taint = True
                out.append((s, val))
        return out

    def forked(self, st, f):
        try:
            c = st.copy()
            f(c)
            return [c]
        except NeedFork as e:
            out = []
            for s, _ in self.fork(st, e.cond):
                out += self.forked(s, f)
            return out

    def forkedt(self, st, f):
        try:
            return f(st.copy())
        except NeedFork as e:
            out = []
            for s, _ in self.fork(st, e.cond):
                out += self.forkedt(s, f)
            return out

    def stmt(self, fr, b, st, s):
        k = s[0]
        if k == '=':
            moved = []
            dty = self.place_ty(fr, s[1])
            v = self.rvalue(st, fr, s[2], dty, moved)
            self.domove(st, moved)
            base, path = self.place(st, fr, s[1])
            self.write(st, base, path, v)
        elif k == 'dead':
            st.mem.pop(('L', fr.depth, s[1]), None)
        elif k == 'sd':
            base, path = self.place(st, fr, s[1])
            v = self.read(st, base, path)
            if isinstance(v, Agg):
                self.write(st, base, path, mkagg(v.ty, s[2], v.fs))

    def term(self, fr, b, st, t):
        k = t[0]
        if k == 'goto':
            return [('go', t[1], st)]
        if k == 'return':
            return [('ret', st.mem.get(('L', fr.depth, 0)) or mkagg(None, 0, []), st)]
        if k == 'switch':
            return self.switch(fr, b, st, t)
        if k == 'drop':
            base, path = self.place(st, fr, t[1])
            v = self.read(st, base, path)
            if v is not None:
                outs = self.drop_value(st, fr, b, v)
                if not path and base[0] == 'L':
                    st.mem.pop(base, None)
            return [('go', t[2], st)]
        if k == 'call':
            return self.call_term(fr, b, st, t)
        if k == 'assert':
            moved = []
            c = self.operand(st, fr, t[1], moved)
            want = bool(t[2])
            msg = t[3] if isinstance(t[3], str) else str(t[3])
            self.asserts.add((fr.body['path'], b))
            if not isinstance(c, T):
                c = S(('?', 'assert'), 0, 1)
            r = TT.truth(c, st.F)
            if r is not want:
                # value of the operands for the report
                self.alarm(st, fr, b, 'panic', assert_desc(msg), c)
            if not TT.assume(st.F, c, want):
                return []
            return [('go', t[5], st)]
        if k == 'yield':
            if self.sel:
                return [('pend', None, st)]
            return []
        if k == 'unreachable':
            return []
        if k == 'unwind':
            return []
        self.alarm(st, fr, b, 'unknown-terminator', k, S(('?', 'term'), 0, 1))
        return []

    def switch(self, fr, b, st, t):
        v = self.operand(st, fr, t[1], [])
        if isinstance(v, Opq) and v.kind == 'ord':
            v = S(('?', 'ord'), -1, 1)
        if not isinstance(v, T):
            v = self.discr(st, v, None) if isinstance(v, (Agg, Sym)) else S(('?', 'switch', repr(v)[:40]), 0, 255)
        out = []
        tn = tainted(v)
        if isstale(v):
            self.stale.setdefault((fr.body.get('path'), tuple(x[0] for x in fr.ctx)), v)
        if v is UB:
            tg = {x for _, x in t[2]} | {t[3]}
            return [('go', x, st.copy()) for x in sorted(tg)]
        rest = st
        it = self.int_ty(t[4]) if len(t) > 4 and t[4] is not None else None
        done = False
        for val, tgt in t[2]:
            if it and it[1]:
                lo, hi = trange(*it)
                if val > hi:
                    val -= 1 << it[0]
            c = TT.cmp('Eq', v, K(val))
            r = TT.truth(c, rest.F)
            if r is False:
                continue
            if r is True:
                out.append(('go', tgt, rest))
                done = True
                break
            s = rest.copy()
            if TT.assume(s.F, c, True):
                if tn:
                    s.taint = True
                out.append(('go', tgt, s))
            rest = rest.copy()
            if not TT.assume(rest.F, c, False):
                done = True
                break
        if not done:
            lo, hi = rng(v, rest.F)
            if lo <= hi:
                if tn and out:
                    rest.taint = True
                out.append(('go', t[3], rest))
        return out

    # ---------------------------------------------------------------- calls
    def call_term(self, fr, b, st, t):
        _, f, aops, dest, target, destty, argtys = t[:7]
        moved = []
        args = [self.operand(st, fr, o, moved) for o in aops]
        fv = None
        if f[0] == 'k' and self.T[f[1]['ty']]['k'] == 'fndef':
            callee = self.T[f[1]['ty']]['callee']
        else:
            fv = self.operand(st, fr, f, moved)
            callee = None
        self.domove(st, moved)
        if callee is not None:
            outs = self.call(st, fr, b, callee, args, argtys, destty)
        else:
            outs = self.call_value(st, fr, b, fv, args, destty)
        res = []
        for s, v in outs:
            if v is PENDING:
                res.append(('pend', None, s))
                continue
            if target is None:
                continue
            base, path = self.place(s, fr, dest)
            self.write(s, base, path, v)
            res.append(('go', target, s))
        return res

    def mkcall(self, st, fr, b, callee, args, argtys, destty):
        c = Call()
        c.st, c.fr, c.blk, c.callee, c.args, c.argtys, c.destty = st, fr, b, callee, args, argtys, destty
        c.path = callee['path']
        c.rpath = callee.get('rpath') or ''
        return c

    def call(self, st, fr, b, callee, args, argtys, destty):
        if callee.get('ctor'):
            return [(st, mkagg(callee['out'], callee.get('variant', 0), args))]
        c = self.mkcall(st, fr, b, callee, args, argtys, destty)
        if self.fmt is not None:
            r = self.fmt(self, c)
            if r is not NotImplemented:
                return r
        for m in self.model_for(c):
            r = m(self, c)
            if r is not NotImplemented:
                return r
        bi = callee.get('body')
        if bi is not None and bi < len(self.B) and self.B[bi] is not None:
            body = self.B[bi]
            sp = callee.get('shim')
            return self.exec_call(st, fr, b, body, args)
        return self.unknown_call(c)

    def model_for(self, c):
        k = (c.path, c.rpath)
        r = self.mcache.get(k)
        if r is None:
            r = []
            for p in (c.rpath, c.path):
                m = self.models.get(p)
                if m is not None and m not in r:
                    r.append(m)
            if not r and not c.callee.get('local'):
                for pre, fn in self.prefix_models:
                    if c.path.startswith(pre) or c.rpath.startswith(pre):
                        r.append(fn)
                        break
            self.mcache[k] = r
        return r

    def record_spawn(self, c, f):
        if isinstance(f, Agg) and f.ty is not None:
            key = (f.ty, c.fr.ctx, c.blk)
            self.spawned.setdefault(key, []).append((c.st.copy(), f))

    def exec_call(self, st, fr, b, body, args):
        argc = body['argc']
        args = list(args)
        if len(args) != argc and len(args) >= 1:
            # rust-call ABI: spread the trailing tuple
            if isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].fs) == argc:
                args = args[:-1] + list(args[-1].fs)
        rec = sum(1 for c in fr.ctx if c[0] == body['path'])
        if rec > 6:
            self.unmodelled.setdefault('recursion ' + body['path'], 1)
            return [(st, self.unknown(body['locals'][0], fr, b, 'recursion'))]
        if self.memo is not None and body.get('local') and len(body['blocks']) > 12 and body['path'] not in self.impure:
            r = self.framed(st, body, args, fr.ctx + ((body['path'], b),), fr.depth + 1, fr.it)
            if r is not None:
                return r
        return self.exec_body(st, body, args, fr.ctx + ((body['path'], b),), fr.depth + 1, fr.it)

    def framed(self, st, body, args, ctx, depth, it):
        """run an effect-free function on the part of the state it can reach, once per distinct part"""
        global AUTO
        cells = {}
        bs = set()
        todo = list(args)
        seen = set()
        while todo:
            x = todo.pop()
            if isinstance(x, (V, tuple)):
                if x in seen:
                    continue
                seen.add(x)
            if isinstance(x, T):
                bs |= basenames(x)
            elif isinstance(x, Agg):
                todo.extend(x.fs)
            elif isinstance(x, Seq):
                todo.extend(x.segs)
            elif isinstance(x, Opq):
                if x.kind in ('guard', 'fut', 'inprog'):
                    return None
                todo.extend(x.args)
            elif isinstance(x, Sym):
                bs.add(basename(x.name))
                todo.append(x.name)
            elif isinstance(x, Str):
                todo.append(x.d)
            elif isinstance(x, Ref):
                todo.append(x.path)
                if x.base[0] == 'C':
                    todo.append(x.base[1])
                elif x.base not in cells and x.base in st.mem:
                    cells[x.base] = st.mem[x.base]
                    todo.append(st.mem[x.base])
                elif x.base[0] == 'S':
                    bs.add(basename(x.base[1]) if isinstance(x.base[1], tuple) else x.base[1])
            elif isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    bs.add(x)
                todo.extend(x)
        # facts about anything connected to it
        F = {}
        rest = [(k, basenames(k)) for k in st.F if isinstance(k, T)]
        grow = True
        while grow:
            grow = False
            left = []
            for k, nb in rest:
                if nb & bs:
                    F[k] = st.F[k]
                    if not nb <= bs:
                        bs |= nb
                        grow = True
                else:
                    left.append((k, nb))
            rest = left
        for k in st.F:
            if not isinstance(k, T):
                F[k] = st.F[k]
        key = (body['path'], depth, ctx, it, tuple(args), frozenset(cells.items()), frozenset(F.items()), st.bound, st.taint)
        hit = self.memo.get(key)
        if hit is None:
            sub = St()
            sub.mem, sub.F, sub.bound, sub.taint = dict(cells), dict(F), st.bound, st.taint
            save = self.alarms, self.undecided, AUTO
            self.alarms, self.undecided, AUTO = {}, {}, None
            nsp = len(self.spawned)
            try:
                outs = self.exec_body(sub, body, args, ctx, depth, it)
                al = (self.alarms, self.undecided)
            finally:
                self.alarms, self.undecided, AUTO = save
            if len(self.spawned) != nsp or any(v is PENDING or s.held or has_effect(s.trace) for s, v in outs):
                self.impure.add(body['path'])
                return None
            hit = self.memo[key] = (outs, al)
        outs, al = hit
        for a, b in zip((self.alarms, self.undecided), al):
            for k, v in b.items():
                a.setdefault(k, v)
        res = []
        for s, v in outs:
            n = st.copy()
            for k in cells:
                n.mem.pop(k, None)
            n.mem.update(s.mem)
            born = [k for k in n.F if k not in F and isinstance(k, T) and any(len(x) > 1 and isinstance(x[1], tuple) and x[1][:len(ctx)] == ctx for x in names(k))]
            for k in born:
                del n.F[k]
            for k in F:
                n.F.pop(k, None)
            n.F.update(s.F)
            n.taint = n.taint or s.taint
            res.append((n, v))
        return res

    def call_value(self, st, fr, b, fv, args, destty):
        """call a closure / fn item value with already untupled args"""
        if isinstance(fv, Ref):
            v = self.deref(st, fv)
            if isinstance(v, (Agg, Opq, Sym, Ref)):
                inner = v
                if isinstance(inner, Agg) and inner.ty is not None and self.T[inner.ty]['k'] == 'closure':
                    bi = self.T[inner.ty].get('body')
                    if bi is not None:
                        return self.call_closure(st, fr, b, inner, fv, args)
                return self.call_value(st, fr, b, inner, args, destty)
        if isinstance(fv, Opq) and fv.kind == 'fn':
            callee = self.T[fv.args[0]]['callee']
            return self.call(st, fr, b, callee, args, [None] * len(args), destty)
        if isinstance(fv, Agg) and fv.ty is not None and self.T[fv.ty]['k'] == 'closure':
            return self.call_closure(st, fr, b, fv, None, args)
        if isinstance(fv, Opq) and fv.kind == 'pyfn':
            return fv.args[0](self, st, fr, b, args)
        v = self.unknown(destty, fr, b, 'call of unknown function value')
        self.havoc_args(st, args)
        return [(st, v)]

    def call_closure(self, st, fr, b, clo, ref, args):
        bi = self.T[clo.ty].get('body')
        if bi is None:
            self.havoc_args(st, args)
            return [(st, self.unknown(None, fr, b, 'closure without body'))]
        body = self.B[bi]
        t1 = self.T[body['locals'][1]]
        if t1['k'] == 'ref':
            if ref is None:
                base = ('H', self.fresh(st, fr, b, 'clo'))
                st.mem[base] = clo
                self_arg = mkref(base)
            else:
                self_arg = ref
        else:
            self_arg = clo
        a = [self_arg] + list(args)
        if len(a) != body['argc'] and len(args) == 1 and isinstance(args[0], Agg):
            a = [self_arg] + list(args[0].fs)
        return self.exec_body(st, body, a, fr.ctx + ((body['path'], b),), fr.depth + 1, fr.it)

    def havoc_args(self, st, args):
        for a in args:
            if isinstance(a, Ref) and a.base[0] != 'C':
                try:
                    old = self.deref(st, a)
                except NeedFork:
                    old = None
                if isinstance(old, Seq):
                    self.store(st, a, mkseq(old.ety, [('c', ('?', 'havoc'), old.ety, ZERO, S(('?', 'havoc', 'len'), 0, LENMAX))]))
                elif old is not None and not (isinstance(old, (Sym, Opq)) and not tainted(old)):
                    if isinstance(old, Agg):
                        self.store(st, a, self.sym(old.ty, ('?', 'havoc')))
                    elif isinstance(old, T):
                        self.store(st, a, S(('?', 'havoc'), old.lo if old.op != 'k' else -INF, old.hi if old.op != 'k' else INF))
                    else:
                        self.store(st, a, rawsym(None, ('?', 'havoc')))

    def unknown_call(self, c):
        if c.callee.get('unresolved') and c.callee.get('local'):
            # method of a local trait on a type parameter: any value its type allows
            recv = c.args[0] if c.args else None
            return [(c.st, self.sym(c.destty, ('m', c.path, recv if isinstance(recv, (T, V)) else None, tuple(c.args[1:]))))]
        # only arguments passed as &mut can change
        ms = []
        for a, ty in zip(c.args, c.argtys or []):
            if ty is not None and self.T[ty]['k'] in ('ref', 'ptr') and self.T[ty].get('mut'):
                ms.append(a)
        self.havoc_args(c.st, ms)
        return [(c.st, self.unknown(c.destty, c.fr, c.blk, 'call ' + (c.rpath or c.path)))]

    # ---------------------------------------------------------------- drops
    def drop_value(self, st, fr, b, v, depth=0):
        if v is None or isinstance(v, (T, Ref, Str, Sym)) or depth > 8:
            if isinstance(v, Ref) and v.base[0] == 'H' and depth < 3:
                pass
            return
        if isinstance(v, Opq):
            if v.kind == 'guard':
                self.unlock(st, fr, b, v)
            elif v.kind == 'inprog':
                st.ev('cancel', v.args[0], v.args[1], fr.body['path'])
                if v.args[1][2]:
                    st.ev('unparked', v.args[1][2])
                for a in v.args[2:]:
                    self.drop_value(st, fr, b, a, depth + 1)
            elif v.kind == 'fut':
                for a in v.args:
                    if isinstance(a, V):
                        self.drop_value(st, fr, b, a, depth + 1)
                if v.args and v.args[0] == 'timeout':
                    inner = self.deref(st, v.args[2])
                    self.drop_value(st, fr, b, inner, depth + 1)
            elif v.kind == 'sparse':
                for _, x in v.args:
                    self.drop_value(st, fr, b, x, depth + 1)
            return
        if isinstance(v, Agg):
            if v.ty is not None and self.T[v.ty]['k'] == 'adt' and self.T[v.ty].get('box'):
                return
            for f in v.fs:
                self.drop_value(st, fr, b, f, depth + 1)
        elif isinstance(v, Seq):
            for s in v.segs:
                if s[0] == 'e':
                    self.drop_value(st, fr, b, s[1], depth + 1)

    def unlock(self, st, fr, b, g):
        lock, content, name = g.args[0], g.args[1], g.args[2]
        h = list(st.held)
        if (lock, name) in h:
            h.remove((lock, name))
        st.held = tuple(h)
        st.ev('unlock', lock, name, self.read(st, content, ()))
        st.mem.pop(content, None)

    # ---------------------------------------------------------------- loops
    def loop(self, fr, h, st):
        """returns rets, pend, exits"""
        info = self.binfo(fr.body)
        reg = info.loops[h]
        # 1. iterations decided by constants are followed one by one
        base_it = fr.it
        rets, pend, exits = [], [], []
        cur = [st]
        n = 0
        unrolled = None
        save = self.alarms, self.undecided
        self.alarms, self.undecided = {}, {}
        while True:
            backs = []
            for s in cur:
                fr.it = base_it + ((h, n),) if n else base_it
                r, p, e, bk = self.region(fr, [(h, s.copy())], reg, [h, False])
                rets += r
                pend += p
                exits += e
                backs += bk
            fr.it = base_it
            if not backs:
                self.merge_alarms(save, [(self.alarms, self.undecided)])
                return rets, pend, exits
            backs = self.join(backs)
            n += 1
            if n > 300 or len(backs) > (4 if not self.sel else 4000):
                break
            if not all(self.const_progress(fr, cur[0], x, n) for x in backs):
                break
            cur = backs
        # 2. otherwise: fixpoint
        self.alarms, self.undecided = save
        return self.loop_fix(fr, h, st, reg)

    def merge_alarms(self, base, parts):
        self.alarms, self.undecided = base
        for a, u in parts:
            for k, v in a.items():
                self.alarms.setdefault(k, v)
            for k, v in u.items():
                self.undecided.setdefault(k, v)

    def const_progress(self, fr, a, b, n):
        """does an iteration advance a loop whose bounds are constants?"""
        for k, v in b.mem.items():
            o = a.mem.get(k)
            if o is v or o is None:
                continue
            if isinstance(v, Agg) and isinstance(o, Agg) and v.ty is not None and self.T[v.ty]['k'] == 'adt' and self.T[v.ty]['path'].startswith('std::ops::Range'):
                if all(isinstance(x, T) and isk(x) for x in v.fs[:2]) and len(v.fs) >= 2:
                    return True
            if isinstance(v, Opq) and v.kind == 'it' and isinstance(o, Opq):
                if self.it_const(v):
                    return True
            if isinstance(v, Agg) and isinstance(o, Agg) and v.ty is not None and any(isinstance(x, (Opq, Agg)) for x in v.fs):
                for x, y in zip(v.fs, o.fs):
                    if x is not y and isinstance(x, Opq) and x.kind == 'it' and self.it_const(x):
                        return True
        if a.trace is b.trace and AUTO is None:
            # plain counters: only when no events happen in the loop and the values are compared
            for k, v in b.mem.items():
                o = a.mem.get(k)
                if o is not v and isinstance(v, T) and isinstance(o, T) and isk(v) and isk(o) and k[0] == 'L' and k[1] == fr.depth:
                    if n <= 64:
                        return True
        return False

    def it_const(self, v):
        k = v.args[0]
        if k in ('slice', 'seq'):
            return isk(v.args[2]) and isk(v.args[3])
        if k == 'str':
            return False
        return any(isinstance(x, Opq) and x.kind == 'it' and self.it_const(x) for x in v.args[1:]) or \
            any(isinstance(x, Agg) and len(x.fs) >= 2 and all(isinstance(y, T) and isk(y) for y in x.fs[:2]) for x in v.args[1:])

    def gc(self, st):
        """drop heap objects nothing refers to"""
        roots = [v for k, v in st.mem.items() if k[0] != 'H']
        seen = set()
        bases = set()

        def walk(x):
            if isinstance(x, (V, tuple)):
                if x in seen:
                    return
                seen.add(x)
                if isinstance(x, Ref):
                    b = x.base
                    if b[0] == 'H' and b not in bases:
                        bases.add(b)
                        if b in st.mem:
                            walk(st.mem[b])
                    if b[0] == 'C':
                        walk(b[1])
                elif isinstance(x, Agg):
                    for f in x.fs:
                        walk(f)
                elif isinstance(x, Seq):
                    for s in x.segs:
                        walk(s)
                elif isinstance(x, Opq):
                    for a in x.args:
                        walk(a)
                elif isinstance(x, tuple):
                    if x and x[0] == 'H' and x in st.mem and x not in bases:
                        bases.add(x)
                        walk(st.mem[x])
                    for y in x:
                        walk(y)
        for r in roots:
            walk(r)
        for k in [k for k in st.mem if k[0] == 'H' and k not in bases]:
            del st.mem[k]

    def loop_fix(self, fr, h, st, reg):
        uid = (fr.ctx, fr.it, h, fr.body['path'])
        st = st.copy()
        self.gc(st)
        # symbols of an earlier execution of the same loop become plain old values
        old = [n for n in names_of_state(st) if len(n) > 1 and n[1] == uid]
        if old:
            st = rename_state(st, {n: ('@old', n) for n in old})
        ik = (uid, st.trace)
        inst = self.loopinst.setdefault(ik, len(self.loopinst))
        self.loopseg[inst] = {}
        entry_trace = st.trace
        self.loopentry[inst] = entry_trace
        lmark = AUTO is None or self.sel
        entry_names = names_of_state(st)
        H = []

        class Hd:
            pass

        def newhead(s, entry):
            x = Hd()
            x.idx = len(H)
            x.st = s
            x.entry = s.copy()
            x.k = S(('@k', uid, x.idx), 0, LENMAX)
            x.kb = S(('@kb', uid, x.idx), 0, LENMAX)
            x.ind, x.hav, x.seqind, x.lone = {}, set(), {}, set()
            x.out = x.al = None
            x.guards = False
            x.foreign = False       # entered again from another partition of this loop
            x.kfacts = []           # facts on the iteration count
            x.into = {}             # partition -> states it sends back here
            x.inv = []              # (cell, X, 'Le'|'Ge'): inductive bounds of forgotten numbers
            x.noinv = False
            x.tried = x.again = False
            x.inew, x.snew, x.sstart, x.own = {}, {}, {}, True    # what the running round has generalised
            x.rel = {}              # cell -> (cell2, D): its value is that of cell2 plus D
            x.backs = []
            x.htrace = mktrace(entry_trace, ('L', inst, x.idx)) if lmark else entry_trace
            s.trace = x.htrace
            H.append(x)
            return x
        newhead(st, True)
        todo = [0]
        rounds = 0
        while todo:
            rounds += 1
            if rounds > (60 if AUTO is None else 240):
                raise Budget('loop fixpoint in ' + fr.body['path'])
            hi = todo.pop(0)
            x = H[hi]
            x.inew, x.snew, x.sstart = {}, {}, {}
            run = x.st.copy()
            save = self.alarms, self.undecided
            self.alarms, self.undecided = {}, {}
            try:
                r, p, e, bk = self.region(fr, [(h, run)], reg, [h, False])
                x.al = (self.alarms, self.undecided)
            finally:
                self.alarms, self.undecided = save
            x.out = (r, p, e)
            segs = {}
            groups = {}
            for s in bk:
                seg = trace_since(s.trace, x.htrace)
                F = s.F
                s.trace = x.htrace
                self.gc(s)
                k = (s.taint, s.held, s.bound, s.auto, hash(frozenset(s.mem.items())))
                for g in groups.setdefault(k, []):
                    if g[0].mem == s.mem:
                        if g[0].F != s.F:
                            g[0].F = joinfacts(g[0].F, s.F)
                        g[1].append((seg, F, s.taint))
                        break
                else:
                    groups[k].append((s, [(seg, F, s.taint)]))
            bk2 = [g for l in groups.values() for g in l]
            x.backs = [g[0] for g in bk2]
            changed = set()
            for y in H:
                y.into.pop(hi, None)
            for s, l in bk2:
                dst = self.absorb(fr, uid, H, hi, s, changed, newhead, entry_names)
                for seg, F, tn in l:
                    segs.setdefault(seg, []).append((F, dst, tn))
            self.loopseg[inst][hi] = segs
            for c in sorted(changed):
                if c not in todo:
                    todo.append(c)
            if not todo and AUTO is None:
                # a partition widened on the way that nothing comes back to any more: as it was entered
                for y in H:
                    if not any(y.into.values()) and (y.ind or y.hav or y.seqind) and not y.again:
                        y.again = True
                        y.st = y.entry.copy()
                        y.st.trace = y.htrace
                        y.ind, y.hav, y.seqind, y.rel, y.kfacts, y.inv = {}, set(), {}, {}, [], []
                        y.guards = y.tried = False
                        todo.append(y.idx)
            if not todo:
                # stable: try loop-guard invariants once per header
                for y in H:
                    if not y.guards and (y.ind or y.hav or y.seqind):
                        y.guards = True
                        g = self.guard_facts(y, H) if (y.ind or y.seqind) and not y.foreign else False
                        if AUTO is None and y.hav:
                            g = self.hav_facts(uid, y) or g
                        if g:
                            todo.append(y.idx)
                            if y.rel and not y.tried:
                                y.tried, y.guards = True, False
        rets, pend, exits = [], [], []
        self.merge_alarms((self.alarms, self.undecided), [y.al for y in H if y.al])
        for y in H:
            if y.out:
                if AUTO is None:
                    y.out = ([self.count_known2(y, s, v) for s, v in y.out[0]], y.out[1], [(b, self.count_known(y, s)) for b, s in y.out[2]])
                rets += y.out[0]
                pend += y.out[1]
                exits += y.out[2]
        return rets, pend, exits

    def count_known(self, y, s):
        return self.count_known2(y, s, None)[0]

    def count_known2(self, y, s, v):
        """where the facts fix the number of iterations, say so: lo <= X - m*k < lo+m means k = (X-lo) div m"""
        for key in list(s.F):
            if not isinstance(key, T) or y.k not in TT.syms(key):
                continue
            c, d = lin(key)
            al = d.get(y.k)
            if al is None or any(y.k in TT.syms(a) for a in d if a is not y.k):
                continue
            lo, hi = rng(key, s.F)
            if hi - lo >= abs(al) or hi >= INF or lo <= -INF:
                continue
            if key is y.k:
                n = K(lo)
            else:
                R = sub(key, TT.scale(y.k, al))
                n = div(sub(K(hi), R), al, s.F) if al > 0 else div(sub(R, K(lo)), -al, s.F)
            if y.k in TT.syms(n) or tainted(n):
                continue
            sb = Subst(s.F, {y.k: n})
            t = s.copy()
            F = {}
            ok = True
            for q, f in s.F.items():
                q2 = sb.term(q) if isinstance(q, T) else q
                if q2 is q:
                    F[q] = f
            for q, f in s.F.items():
                q2 = sb.term(q) if isinstance(q, T) else q
                if q2 is not q:
                    if f[0] > -INF:
                        ok = ok and TT.assume(F, TT.cmp('Ge', q2, K(f[0])), True)
                    if f[1] < INF:
                        ok = ok and TT.assume(F, TT.cmp('Le', q2, K(f[1])), True)
                    for e in f[2]:
                        ok = ok and TT.assume(F, TT.cmp('Ne', q2, K(e)), True)
            if not ok:
                continue
            t.F = F
            t.mem = {k: (sb.val(x) if x is not None else None) for k, x in s.mem.items()}
            return self.count_known2(y, t, sb.any(v) if v is not None else None)
        return s, v

    def guard_facts(self, y, H):
        """facts on the iteration count that hold at every back edge, shifted to the header"""
        if not y.backs:
            return False
        cands = {}
        first = True
        for s in y.backs:
            cur = {}
            for key, f in s.F.items():
                if not isinstance(key, T) or y.k not in TT.syms(key):
                    continue
                c, d = lin(key)
                al = d.get(y.k)
                if al is None or any(y.k in TT.syms(a) for a in d if a is not y.k):
                    continue
                lo = f[0] + al if f[0] > -INF else -INF
                hi = f[1] + al if f[1] < INF else INF
                if f[2] and abs(al) == 1:
                    # a counter that moves by one and is left at e does not pass e
                    l0, h0 = rng(Subst(y.entry.F, {y.k: ZERO}).term(key), y.entry.F)
                    for e in f[2]:
                        if al == 1 and h0 <= e:
                            hi = min(hi, e)
                        if al == -1 and l0 >= e:
                            lo = max(lo, e)
                cur[key] = (lo, hi)
            if first:
                cands = cur
                first = False
            else:
                cands = {k: (min(v[0], cur[k][0]), max(v[1], cur[k][1])) for k, v in cands.items() if k in cur}
        added = False
        for key, (lo, hi) in cands.items():
            k0 = Subst(y.entry.F, {y.k: ZERO}).term(key)
            l0, h0 = rng(k0, y.entry.F)
            nlo = lo if l0 >= lo else -INF
            nhi = hi if h0 <= hi else INF
            if nlo == -INF and nhi == INF:
                continue
            if max(nlo, key.lo) > key.lo or min(nhi, key.hi) < key.hi:
                if TT._setf(y.st.F, key, nlo, nhi):
                    y.kfacts.append(key)
                    added = True
        return added

    def cell_value(self, st, cell):
        v = st.mem.get(cell[0]) if cell[0] in st.mem else self.load(st, cell[0])
        for i in cell[1:]:
            fs = v.fs if isinstance(v, Agg) else v.args if isinstance(v, Opq) and v.kind == 'dur' else ()
            if i >= len(fs):
                return None
            v = fs[i]
        return v if isinstance(v, T) else None

    def hav_facts(self, uid, y):
        """numbers the loop forgot: bounds by values the loop does not change, where they are inductive"""
        backs = [s for l in y.into.values() for s in l]
        if not backs or y.noinv:
            return False
        added = False
        cells = sorted(y.hav, key=repr)
        for i, c1 in enumerate(cells):
            for c2 in cells[:i]:
                if c1 in y.rel or c2 in y.rel or c1 not in y.hav:
                    continue
                h1, h2 = self.cell_value(y.st, c1), self.cell_value(y.st, c2)
                e1, e2 = self.cell_value(y.entry, c1), self.cell_value(y.entry, c2)
                if h1 is None or h2 is None or e1 is None or e2 is None or h1.op != 's' or h2.op != 's':
                    continue
                for sg in (1, -1):
                    D = sub(e1, TT.scale(e2, sg))
                    if any(isinstance(n, tuple) and len(n) > 1 and n[1] == uid for n in basenames(D)):
                        continue
                    ok = True
                    for src, l in y.into.items():
                        for s in l:
                            b1, b2 = self.cell_value(s, c1), self.cell_value(s, c2)
                            # from this head the step alone counts: h1 and h2 stand for the values at the head
                            own = src == y.idx
                            if b1 is None or b2 is None or TT.eq(sub(b1, h1) if own else sub(b1, TT.scale(b2, sg)), TT.scale(sub(b2, h2), sg) if own else D, s.F) is not True:
                                ok = False
                                break
                    if ok:
                        y.rel[c1] = (c2, D, sg)
                        y.hav.discard(c1)
                        y.st.mem[c1[0]] = put_cell(y.st.mem.get(c1[0]) if c1[0] in y.st.mem else self.load(y.st, c1[0]), c1[1:], add(TT.scale(h2, sg), D))
                        added = True
                        break
        if added:
            return True
        for cell in sorted(list(y.hav) + list(y.rel), key=repr):
            h = self.cell_value(y.st, cell)
            v0 = self.cell_value(y.entry, cell)
            vs = [self.cell_value(s, cell) for s in backs]
            if h is None or (h.op != 's' and cell not in y.rel) or v0 is None or any(v is None for v in vs):
                continue
            cand = {}
            for s in backs:
                for key in s.F:
                    if isinstance(key, T):
                        for a in lin(key)[1]:
                            if a.op == 's' and not tainted(a) and not any(isinstance(n, tuple) and len(n) > 1 and n[1] == uid for n in basenames(a)):
                                cand[a] = 1
            for X in cand:
                for op in ('Le', 'Ge'):
                    c = lambda v, F: TT.truth(TT.cmp(op, v, X), F) is True
                    if c(v0, y.entry.F) and all(c(v, s.F) for v, s in zip(vs, backs)) and not c(h, y.st.F):
                        if TT.assume(y.st.F, TT.cmp(op, h, X), True):
                            lo, hi = rng(X, y.st.F)
                            TT.assume(y.st.F, TT.cmp(op, h, K(hi if op == 'Le' else lo)), True)
                            y.inv.append((cell, X, op))
                            added = True
        return added

    def still_inv(self, x, s):
        for cell, X, op in x.inv:
            v = self.cell_value(s, cell)
            if v is None or TT.truth(TT.cmp(op, v, X), s.F) is not True:
                return False
        return True

    def absorb(self, fr, uid, H, hi, s, changed, newhead, entry_names):
        order = [hi] + [i for i in range(len(H)) if i != hi]
        self.nheads = len(H)
        canon = s.auto
        if canon is not None:
            nm = {n: ('@h', uid, n) for n in names(canon) if n not in entry_names and n[0][:1] == '@' and not (len(n) > 1 and n[1] == uid and n[0] == '@h')}
            if nm:
                canon = Subst({}, {}, nm).name(canon)
        for i in order:
            x = H[i]
            if x.st.auto != s.auto and x.st.auto != canon:
                continue
            x.own = i == hi
            try:
                r = self.generalise(uid, x, s)
            except Incompat:
                continue
            if i != hi:
                x.foreign = True
                if x.kfacts:
                    for q in x.kfacts:
                        x.st.F.pop(q, None)
                    x.kfacts = []
                    r = True
            if x.inv and not self.still_inv(x, s):
                for cell, X, op in x.inv:
                    h = self.cell_value(x.st, cell)
                    if h is not None:
                        key = linkey(sub(h, X))[0]
                        x.st.F.pop(key, None)
                        x.st.F.pop(linkey(h)[0], None)
                x.inv = []
                x.noinv = True
                r = True
            x.into.setdefault(hi, []).append(s)
            if r:
                changed.add(i)
            return i
        if len(H) >= self.maxheads:
            # give up precision: forget the differing cells
            x = H[hi]
            if not x.st.taint:
                x.st.taint = True
                changed.add(hi)
            for k in list(x.st.mem):
                if k in s.mem and s.mem[k] is not x.st.mem[k]:
                    v = x.st.mem[k]
                    ty = fr.body['locals'][k[2]] if k[0] == 'L' and k[1] == fr.depth else getattr(v, 'ty', None)
                    w = self.sym(ty, ('?', 'loop state', uid, k))
                    if w is not v:
                        x.st.mem[k] = w
                        changed.add(hi)
                elif k not in s.mem:
                    del x.st.mem[k]
                    changed.add(hi)
            self.unmodelled.setdefault('loop partitions ' + fr.body['path'], 1)
            return hi
        s = s.copy()
        born = [n for n in names_of_state(s) if n not in entry_names and n[0][:1] == '@' and not (len(n) > 1 and n[1] == uid and n[0] == '@h')]
        if born:
            s = rename_state(s, {n: ('@h', uid, n) for n in born})
        x = newhead(s, False)
        changed.add(x.idx)
        return x.idx

    def generalise(self, uid, x, s):
        """widen header x to cover s. True if x changed; Incompat if not possible."""
        hm, bm = x.st.mem, s.mem
        if x.st.taint != s.taint and s.taint:
            x.st.taint = True
            ch0 = True
        else:
            ch0 = False
        if x.st.held != s.held or x.st.bound != s.bound:
            raise Incompat()
        new = {}
        changes = False
        save = (dict(x.ind), set(x.hav), dict(x.seqind), dict(x.inew), dict(x.snew), dict(x.rel), set(x.lone))
        try:
            for k in hm:
                if k not in bm:
                    if k[0] == 'L':
                        changes = True
                        continue
                    if k[0] in ('S', '?'):
                        new[k] = hm[k]
                        continue
                    changes = True
                    continue
                a, b = hm[k], bm[k]
                if a is b:
                    new[k] = a
                    continue
                v = self.gen(uid, x, s, a, b, (k,))
                new[k] = v
                if v is not a:
                    changes = True
            for k in bm:
                if k not in hm and k[0] == 'H':
                    # a heap object born in the loop and still referenced
                    raise Incompat()
                if k not in hm and k[0] in ('S',):
                    d = self.load(x.st, k)
                    v = self.gen(uid, x, s, d, bm[k], (k,)) if d is not bm[k] else d
                    if v is not d:
                        new[k] = v
                        changes = True
        except Incompat:
            x.ind, x.hav, x.seqind, x.inew, x.snew, x.rel, x.lone = save
            if ch0:
                x.st.taint = False
            raise
        # facts
        nf = {}
        for k, f in x.st.F.items():
            g = s.F.get(k)
            if g is f or g == f:
                nf[k] = f
                continue
            if isinstance(k, T) and (x.k in TT.syms(k)):
                nf[k] = f
                continue
            lo, hi = rng(k, s.F)
            l, h2, e = f
            e2 = frozenset(v for v in e if (g and v in g[2]) or v < lo or v > hi)
            if lo >= l and hi <= h2 and e2 == e:
                nf[k] = f
            else:
                changes = True
                nl, nh = (l if lo >= l else -INF), (h2 if hi <= h2 else INF)
                if nl > -INF or nh < INF or e2:
                    nf[k] = (nl, nh, e2)
        if changes or ch0:
            x.st.mem = new
            x.st.F = nf
            return True
        return False

    def gen(self, uid, x, s, a, b, cell):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return self.gen_int(uid, x, s, a, b, cell)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.ty != b.ty or a.var != b.var or len(a.fs) != len(b.fs):
                if a.ty == b.ty and x.idx >= (6 if AUTO is None else self.nh) and a.ty is not None:
                    return self.sym(a.ty, ('?' if AUTO is not None else '@h', uid, cell))
                raise Incompat()
            return mkagg(a.ty, a.var, [self.gen(uid, x, s, p, q, cell + (i,)) for i, (p, q) in enumerate(zip(a.fs, b.fs))])
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.gen_seq(uid, x, s, a, b, cell)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.base == b.base and len(a.path) == len(b.path):
                path = []
                for i, (p, q) in enumerate(zip(a.path, b.path)):
                    if p == q:
                        path.append(p)
                    elif p[0] == q[0] and p[0] in 'iw':
                        path.append((p[0],) + tuple(self.gen(uid, x, s, u, v, cell + (i, j)) for j, (u, v) in enumerate(zip(p[1:], q[1:]))))
                    else:
                        raise Incompat()
                return mkref(a.base, path)
            if a.base[0] == 'S' and b.base[0] == 'S' and a.base[2] == b.base[2] and not a.path and not b.path:
                return mkref(('S', ('@h', uid, cell), a.base[2]))
            raise Incompat()
        if isinstance(a, Sym) and isinstance(b, (Sym, Agg)) and a.ty is not None and (a.ty == b.ty):
            if cell in x.hav:
                return a
            x.hav.add(cell)
            v = self.sym(a.ty, ('@h', uid, cell))
            return v
        if isinstance(a, Agg) and isinstance(b, Sym) and a.ty == b.ty and a.ty is not None:
            x.hav.add(cell)
            return self.sym(a.ty, ('@h', uid, cell))
        if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind and len(a.args) == len(b.args):
            out = []
            if a.kind == 'instant' and AUTO is not None:
                # a point in time: which one does not matter where nothing else refers to it
                n = ('@h', uid, cell)
                if a.args[1] is b.args[1] and self.lone(s, b, cell) and (a.args[0] == n or self.lone(x.st, a, cell)):
                    return opq('instant', n, a.args[1])
                if self.nheads < self.nh:
                    raise Incompat()
            for i, (p, q) in enumerate(zip(a.args, b.args)):
                if p is q or p == q:
                    out.append(p)
                elif a.kind == 'dur' and isinstance(p, T) and isinstance(q, T):
                    self.wide = TH_TIME
                    try:
                        out.append(self.gen(uid, x, s, p, q, cell + (i,)))
                    finally:
                        self.wide = ()
                elif isinstance(p, (T, V)) and isinstance(q, (T, V)):
                    out.append(self.gen(uid, x, s, p, q, cell + (i,)))
                else:
                    raise Incompat()
            return opq(a.kind, *out)
        if isinstance(a, Str) and isinstance(b, Str):
            return mkstr(('@h', uid, cell))
        if a is None or b is None:
            return None
        raise Incompat()

    def gen_int(self, uid, x, s, a, b, cell):
        F = s.F
        if TT.eq(a, b, F) is True and cell not in x.ind:
            return a
        if cell in x.lone and not self.lone(s, b, cell):
            x.lone.discard(cell)
            return S(('?', 'loop', uid, cell), min(a.lo, b.lo), max(a.hi, b.hi))
        if cell in x.hav:
            lo, hi = a.lo, a.hi     # facts on it are shown to be inductive elsewhere
            bl, bh = rng(b, F)
            if bl >= lo and bh <= hi:
                return a
            return S(('@h', uid, cell), widen_lo(min(lo, bl)) if bl < lo else lo, widen_hi(max(hi, bh), self.wide) if bh > hi else hi)
        if cell in x.rel:
            c2, D, sg = x.rel[cell]
            v2 = self.cell_value(s, c2)
            if v2 is not None and TT.eq(b, add(TT.scale(v2, sg), D), F) is True:
                return a
            del x.rel[cell]
            x.hav.add(cell)
            lo, hi = rng(a, x.st.F)
            bl, bh = rng(b, F)
            return S(('@h', uid, cell), widen_lo(min(lo, bl)), widen_hi(max(hi, bh), self.wide))
        if cell in x.inew and x.own:
            a0, d = x.inew[cell]
            if sub(b, a0) is d:
                return a
        if cell in x.ind:
            exp = Subst(F, {x.k: add(x.k, ONE)}).term(a)
            if TT.eq(b, exp, F) is True:
                return a
            ent = x.ind.pop(cell)
            if self.wide:
                # b was reached with the count unbounded: start again from the first two values
                b = Subst(F, {x.k: ONE}).term(a)
        else:
            d = sub(b, a)
            if isk(d):
                x.ind[cell] = a
                x.inew[cell] = (a, d)
                return add(a, mul(d, x.k))
            if AUTO is not None and a.op == 's' and b.op == 's' and self.lone(x.st, a, cell) and self.lone(s, b, cell):
                # data from outside that nothing else in the state is related to: any value stands for both
                x.hav.add(cell)
                x.lone.add(cell)
                return S(('@h', uid, cell), min(a.lo, b.lo), max(a.hi, b.hi))
            if AUTO is not None and self.nheads < self.nh and a.op == 's' and b.op == 's':
                raise Incompat()    # unrelated data: keep the two histories apart while there are few
            if AUTO is not None and self.nheads >= self.nh and a.op == 's' and b.op == 's':
                x.hav.add(cell)
                return S(('?', 'loop', uid, cell), widen_lo(min(a.lo, b.lo)), widen_hi(max(a.hi, b.hi), self.wide))
            ent = a
        x.hav.add(cell)
        el, eh = rng(ent, x.entry.F)
        bl, bh = rng(b, F)
        if tainted(b):
            return S(('?', 'loop', uid, cell), widen_lo(min(el, bl)), widen_hi(max(eh, bh), self.wide))
        return S(('@h', uid, cell), el if bl >= el else widen_lo(bl), eh if bh <= eh else widen_hi(bh, self.wide))

    def lone(self, st, v, cell):
        n = names(v)
        if not n or tainted(v) or isinstance(v, T) and v.op != 's':
            return False
        if st.auto is not None and names(st.auto) & n:
            return False
        for k, w in st.mem.items():
            if k != cell[0] and w is not None and (names(w) & n or names(k) & n):
                return False
        w = st.mem.get(cell[0])
        for i in cell[1:]:
            if not isinstance(w, Agg) or not isinstance(i, int) or i >= len(w.fs):
                return False
            if any(j != i and isinstance(f, (T, V)) and names(f) & n for j, f in enumerate(w.fs)):
                return False
            w = w.fs[i]
        if w is not v:
            return False
        if not isinstance(v, T):
            return not any(isinstance(q, T) and names(q) & n for q in st.F)
        rel = [TT.syms(q) for q in st.F if isinstance(q, T) and v in TT.syms(q)]
        if not rel:
            return True
        if any(len(q) == 1 for q in rel):
            return False
        live = set()
        for w in st.mem.values():
            if w is not None:
                live |= names(w)
        if st.auto is not None:
            live |= names(st.auto)
        live -= n
        # relations to numbers that are gone do not tie it to anything
        return all(any(u is not v and names(u) and not (names(u) & live) for u in q) for q in rel)

    def gen_seq(self, uid, x, s, a, b, cell):
        na = len(a.segs)
        if cell in x.seqind:
            tm = x.seqind[cell]
            if tm == 'hav':
                return a
            if tm == 'havlen':
                return a if TT.eq(seqlen(a), seqlen(b), s.F) is True else self.hav_seq(uid, x, a, cell)
            if cell in x.snew and x.own:
                old, n = x.snew[cell]
                if b.segs[:len(old)] == old and len(b.segs) == len(old) + n and all(q[0] == 'e' for q in b.segs[len(old):]):
                    return a
            base = x.sstart.setdefault(cell, a.segs) if x.own else a.segs
            if b.segs[:len(base)] == base:
                extra = b.segs[len(base):]
                sb = Subst(s.F, {x.k: x.kb})
                ext = tuple(sb.seg(q) for q in extra)
                if tm is None:
                    if all(q[0] == 'e' for q in ext):
                        x.seqind[cell] = ext
                        return mkseq(a.ety, list(a.segs[:-1]) + [('l', x.kb, x.k, ext)])
                elif tm == ext:
                    return a
                elif AUTO is None and len(ext) == len(tm) and all(q[0] == 'e' for q in ext) and all(q[0] == 'e' for q in tm):
                    try:
                        mix = tuple(('e', self.gen_elem(uid, x, p[1], q[1], s.F, cell + (i,), a.ety)) for i, (p, q) in enumerate(zip(tm, ext)))
                    except Incompat:
                        return self.hav_seq(uid, x, a, cell)
                    if mix == tm:
                        return a
                    x.seqind[cell] = mix
                    return mkseq(a.ety, list(a.segs[:-1]) + [('l', x.kb, x.k, mix)])
            return self.hav_seq(uid, x, a, cell)
        if b.segs[:na] == a.segs and len(b.segs) > na and all(q[0] == 'e' for q in b.segs[na:]) and not (na and a.segs[-1][0] == 'l' and a.segs[-1][1] is x.kb):
            x.seqind[cell] = None
            x.snew[cell] = (a.segs, len(b.segs) - na)
            ph = tuple(('e', self.sym(a.ety, ('?', 'loop element', uid, cell, i))) for i in range(len(b.segs) - na))
            return mkseq(a.ety, list(a.segs) + [('l', x.kb, x.k, ph)])
        if len(a.segs) == len(b.segs) and all(p[0] == q[0] for p, q in zip(a.segs, b.segs)):
            out = []
            try:
                for i, (p, q) in enumerate(zip(a.segs, b.segs)):
                    if p == q:
                        out.append(p)
                    elif p[0] == 'e':
                        out.append(('e', self.gen(uid, x, s, p[1], q[1], cell + (i,))))
                    elif p[0] == 'c' and p[1] == q[1]:
                        out.append(('c', p[1], p[2], self.gen_int(uid, x, s, p[3], q[3], cell + (i, 3)) if p[3] is not q[3] else p[3],
                                    self.gen_int(uid, x, s, p[4], q[4], cell + (i, 4)) if p[4] is not q[4] else p[4]))
                    elif p[0] == 'r' and p[1] is q[1]:
                        out.append(('r', p[1], self.gen_int(uid, x, s, p[2], q[2], cell + (i, 2))))
                    else:
                        raise Incompat()
                return mkseq(a.ety, out)
            except Incompat:
                pass
        return self.hav_seq(uid, x, a, cell, isk(seqlen(a)) and TT.eq(seqlen(a), seqlen(b), s.F) is True)

    def gen_elem(self, uid, x, p, q, F, cell, ty):
        """an element a loop pushes that differs from round to round"""
        if p is q or p == q:
            return p
        name = ('@h', uid, cell, x.kb)
        if isinstance(p, T) and isinstance(q, T):
            if TT.eq(p, q, F) is True:
                return p
            ql, qh = rng(q, F)
            if p.op == 's' and p.a[0] == name:
                if ql >= p.lo and qh <= p.hi:
                    return p
                return S(name, widen_lo(min(p.lo, ql)), widen_hi(max(p.hi, qh)))
            if tainted(q) or tainted(p):
                return S(('?',) + name, widen_lo(min(p.lo, ql)), widen_hi(max(p.hi, qh)))
            return S(name, widen_lo(min(p.lo, ql)), widen_hi(max(p.hi, qh)))
        if isinstance(p, Agg) and isinstance(q, Agg) and p.ty == q.ty and p.var == q.var and len(p.fs) == len(q.fs):
            return mkagg(p.ty, p.var, [self.gen_elem(uid, x, f, g, F, cell + (i,), None) for i, (f, g) in enumerate(zip(p.fs, q.fs))])
        if isinstance(p, Sym) and p.name == name:
            return p
        if isinstance(p, Seq) and isinstance(q, Seq) and p.ety == q.ety:
            return mkseq(p.ety, [('c', name, p.ety, ZERO, S((name, 'len'), 0, LENMAX))])
        ty = getattr(p, 'ty', None) or getattr(q, 'ty', None) or ty
        if ty is None:
            raise Incompat()
        return self.sym(ty, ('?',) + name if tainted(p) or tainted(q) else name)

    def hav_seq(self, uid, x, a, cell, samelen=False):
        x.seqind[cell] = 'havlen' if samelen else 'hav'
        n = ('@h', uid, cell)
        return mkseq(a.ety, [('c', n, a.ety, ZERO, seqlen(a) if samelen else S((n, 'len'), 0, LENMAX))])


def put_cell(v, path, new):
    if not path:
        return new
    return mkagg(v.ty, v.var, [put_cell(f, path[1:], new) if i == path[0] else f for i, f in enumerate(v.fs)])


def fcmp(op, a, b):
    if op == 'Gt':
        op, a, b = 'Lt', b, a
    elif op == 'Ge':
        op, a, b = 'Le', b, a
    if op == 'Ne':
        return notb(fcmp('Eq', a, b))
    x, y = reals.fk(a), reals.fk(b)
    if x is not None and y is not None:
        return K(int({'Lt': x < y, 'Le': x <= y, 'Eq': x == y}[op]))
    for u, c, flip in ((a, y, False), (b, x, True)):
        # whole numbers small enough to be exact compare as integers
        if c is not None and u.op == 'o' and u.a[0] == 'i2f':
            n = u.a[1][0]
            if n.lo > -(1 << 24) and n.hi < 1 << 24:
                if op == 'Eq':
                    return TT.cmp('Eq', n, K(int(c))) if c.denominator == 1 else ZERO
                if not flip:
                    return TT.cmp('Le', n, K(ceil(c) - 1 if op == 'Lt' else floor(c)))
                return TT.cmp('Ge', n, K(floor(c) + 1 if op == 'Lt' else ceil(c)))
    return O('f' + op, (a, b), 0, 1)


def assert_desc(m):
    return m.split('(')[0] if '(' in m and not m.startswith('Overflow') else m


TH_HI = [0, 1, 7, 15, 31, 63, 127, 255, 1023, 4095, 65535, (1 << 31) - 1, (1 << 32) - 1, LENMAX, (1 << 64) - 1, INF]
TH_LO = [0, -1, -128, -32768, -(1 << 31), -(1 << 63), -INF]


TH_TIME = [n * 10 ** 9 for n in (5, 10, 15, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 300)]


def widen_hi(h, extra=()):
    for t in extra:
        if h <= t:
            return t
    for t in TH_HI:
        if h <= t:
            return t
    return INF


def widen_lo(l):
    for t in TH_LO:
        if l >= t:
            return t
    return -INF


def joinfacts(a, b):
    out = {}
    for k, f in a.items():
        g = b.get(k)
        if g is None:
            # b may still imply a weaker bound
            lo, hi = rng(k, b)
            l, h = (min(f[0], lo) if lo > -INF else -INF), (max(f[1], hi) if hi < INF else INF)
            if l > k.lo or h < k.hi:
                out[k] = (l, h, frozenset())
            continue
        if f == g:
            out[k] = f
            continue
        l, h = min(f[0], g[0]), max(f[1], g[1])
        e = frozenset(v for v in f[2] | g[2] if (v in f[2] or v < f[0] or v > f[1]) and (v in g[2] or v < g[0] or v > g[1]))
        if l > -INF or h < INF or e:
            out[k] = (l, h, e)
    return out


def basename(n):
    while isinstance(n, tuple) and n and isinstance(n[0], tuple):
        n = n[0]
    return n


_bn = {}


def basenames(t):
    r = _bn.get(t)
    if r is None:
        r = frozenset(basename(s.a[0]) for s in TT.syms(t))
        _bn[t] = r
    return r


def has_effect(t):
    while t is not None:
        if t.e[0] not in ('L', 'short'):
            return True
        t = t.prev
    return False


def trace_since(t, stop):
    out = []
    while t is not None and t is not stop:
        out.append(t.e)
        t = t.prev
    return tuple(out[::-1])


def names_of_state(st):
    r = set()
    for k, v in st.mem.items():
        r |= names(k)
        if v is not None:
            r |= names(v)
    for k in st.F:
        if isinstance(k, T):
            r |= names(k)
    if st.auto is not None:
        r |= names(st.auto)
    return r


def rename_state(st, nm):
    s = st.copy()
    sb = Subst({}, {}, nm)
    s.mem = {sb.name(k): (sb.val(v) if v is not None else None) for k, v in st.mem.items()}
    s.F = {}
    if st.auto is not None:
        s.auto = sb.name(st.auto)
    for k, f in st.F.items():
        k2 = sb.term(k)
        if not isk(k2):
            s.F[k2] = f
    return s


def load(path):
    return Engine(json.load(open(path)))
