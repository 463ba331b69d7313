"""Transfer functions for the functions the analysed crate calls but does not define (std, tokio, byteorder,
snafu, log, tracing, bitflags, encoding).  Each model is fn(engine, call) -> [(state, value)]."""
import copy
from .terms import *
from . import terms as TT
from .values import *
from .interp import (EFFECTS, NeedFork, UB, LENMAX, PENDING, St)
from . import interp

M = {}
PRE = []


def model(*paths):
    def deco(f):
        for p in paths:
            M[p] = f
        return f
    return deco


def prefix(*ps):
    def deco(f):
        for p in ps:
            PRE.append((p, f))
        return f
    return deco


# ---------------------------------------------------------------- helpers
def some(ty, v):
    return mkagg(ty, 1, [v])


def none(ty):
    return mkagg(ty, 0, [])


def ok(ty, v):
    return mkagg(ty, 0, [v])


def err(ty, v):
    return mkagg(ty, 1, [v])


UNIT = mkagg(None, 0, [])


def unit(eng, c):
    return mkagg(c.destty, 0, [])


def targ(eng, ty, i=0):
    if ty is None:
        return None
    a = eng.T[ty].get('args') or []
    a = [x for x in a if x is not None]
    return a[i] if i < len(a) else None


def errval(eng, c, ty=None, tag='err'):
    """an arbitrary error value for result type ty (default: the call's destination)"""
    et = targ(eng, ty if ty is not None else c.destty, 1)
    return eng.sym(et, ('@' + tag, c.fr.ctx, c.fr.it, c.blk))


def result_split(eng, c, cond, okval, ty=None):
    """[(st, Ok(okval(st))) under cond, (st, Err) otherwise]"""
    ty = ty if ty is not None else c.destty
    out = []
    for s, v in eng.fork(c.st, cond):
        if v:
            out.append((s, ok(ty, okval(s))))
        else:
            out.append((s, err(ty, errval(eng, c, ty))))
    return out


def require(eng, c, st, cond, desc):
    """cond must hold or the call panics; continue with it assumed. None if it cannot hold"""
    r = TT.truth(cond, st.F)
    if r is not True:
        eng.alarm(st, c.fr, c.blk, 'panic', desc, cond)
        if not TT.assume(st.F, cond, True):
            return None
    return st


def chase(eng, st, v):
    """follow references: (last reference or None, value)"""
    r = None
    n = 0
    while isinstance(v, Ref) and n < 12:
        r = v
        v = eng.deref(st, v)
        n += 1
    return r, v


def chase_to(eng, st, v, pred):
    r = None
    n = 0
    while n < 12:
        if pred(v):
            return r, v
        if not isinstance(v, Ref):
            return r, v
        r = v
        v = eng.deref(st, v)
        n += 1
    return r, v


def seq_of(eng, st, v):
    """(ref to the sequence, the sequence) for a Vec / slice / array or (nested) reference to one"""
    r, q = chase(eng, st, v)
    if isinstance(q, Seq):
        return r, q
    return r, None


def as_seq(eng, st, v):
    if isinstance(v, Seq):
        return v
    return seq_of(eng, st, v)[1]


def elem_ty(eng, ty):
    if ty is None:
        return None
    t = eng.T[ty]
    while t['k'] in ('ref', 'ptr'):
        t = eng.T[t['to']]
    if t['k'] in ('slice', 'array'):
        return t['elem']
    if t['k'] == 'adt' and t.get('args'):
        return t['args'][0]
    return None


def be_term(eng, st, bs, signed=False, little=False):
    F = st.F
    if little:
        bs = list(bs)[::-1]
    w = 8 * len(bs)
    t = None
    bits = []
    for b in reversed(bs):
        nb = nbits(b, F, 8) if isinstance(b, T) else None
        if nb is None:
            bits = None
            break
        nb = list(nb) + [0] * (8 - len(nb))
        bits += nb
    if bits is not None:
        t = frombits(bits)
    else:
        t = ZERO
        for b in bs:
            t = add(scale(t, 256), b if isinstance(b, T) else S(('?', 'byte'), 0, 255))
    return wrap(t, w, True, F) if signed else t


def be_bytes(eng, st, t, w, signed):
    F = st.F
    u = wrap(t, w, False, F)
    bb = nbits(u, F, w)
    if bb is not None:
        bb = list(bb) + [0] * (w - len(bb))
        return [frombits(bb[w - 8 * (i + 1):w - 8 * i]) for i in range(w // 8)]
    return [O('byte', (u, K(i)), 0, 255) for i in range(w // 8)]


def bcond(eng, a):
    return a if isinstance(a, T) else S(('?', 'cond'), 0, 1)


# ---------------------------------------------------------------- pure / logging / formatting
def pure(tag):
    def f(eng, c):
        t = eng.T[c.destty]
        if t['k'] == 'tuple' and not t['elems']:
            return [(c.st, unit(eng, c))]
        if t['k'] == 'bool':
            return [(c.st, UB)]
        if t['k'] in ('ref', 'ptr'):
            return [(c.st, mkref(('C', opq('pure', tag))))]
        if t['k'] == 'adt' and t['path'] == 'std::string::String':
            return [(c.st, mkstr(('@text', c.fr.ctx, c.fr.it, c.blk)))]
        return [(c.st, opq('pure', tag))]
    return f


for _p in ('log::', 'tracing::', 'tracing_core::', 'std::fmt::', 'core::fmt::', 'alloc::fmt::'):
    PRE.append((_p, pure('fmt')))


def fmt_result(eng, c):
    return [(c.st, opq('pure', 'fmt'))]


@model('std::fmt::format', 'alloc::fmt::format')
def m_format(eng, c):
    a = c.args[0]
    return [(c.st, mkstr(('@text', c.fr.ctx, c.fr.it, c.blk)))]


@model('std::hint::must_use', 'std::hint::black_box', 'std::convert::identity')
def m_ident(eng, c):
    return [(c.st, c.args[0])]


@model('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt')
def m_partial(eng, c):
    vs = []
    for a, ty in zip(c.args, c.argtys or []):
        t = eng.T[ty] if ty is not None else {'s': ''}
        if 'log::' in t['s'] or 'tracing' in t['s']:
            return [(c.st, UB)]
        _, v = chase(eng, c.st, a)
        vs.append(v)
    op = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[c.path.split('::')[-1]]
    if len(vs) == 2 and all(isinstance(v, T) for v in vs):
        ty = c.argtys[0]
        while eng.T[ty]['k'] == 'ref':
            ty = eng.T[ty]['to']
        return [(c.st, eng.binop(c.st, op, vs[0], vs[1], ty))]
    if len(vs) == 2 and all(isinstance(v, Opq) and v.kind == 'dur' for v in vs):
        return [(c.st, TT.cmp(op, vs[0].args[0], vs[1].args[0]))]
    return NotImplemented


def val_eq(eng, st, a, b, depth=0):
    """boolean term for a == b, or None"""
    if a is b:
        return ONE
    if isinstance(a, Ref) or isinstance(b, Ref):
        a = chase(eng, st, a)[1]
        b = chase(eng, st, b)[1]
        if a is b:
            return ONE
    if isinstance(a, T) and isinstance(b, T):
        return TT.cmp('Eq', a, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        la, lb = seqlen(a), seqlen(b)
        le = TT.cmp('Eq', la, lb)
        r = TT.truth(le, st.F)
        if r is False:
            return ZERO
        if r is None:
            raise NeedFork(le)
        n = simp(la, st.F)
        if not isk(n):
            n = simp(lb, st.F)
        if isk(n) and kv(n) <= 64:
            ea = [eng.seq_get(st, a, K(i)) for i in range(kv(n))]
            eb = [eng.seq_get(st, b, K(i)) for i in range(kv(n))]
            if all(isinstance(x, T) and x.lo >= 0 and x.hi <= 255 for x in ea + eb):
                return TT.cmp('Eq', be_term(eng, st, ea), be_term(eng, st, eb)) if ea else ONE
            cs = [val_eq(eng, st, x, y, depth + 1) for x, y in zip(ea, eb)]
            if any(x is None for x in cs):
                return None
            return conj(cs)
        if a.segs == b.segs:
            return ONE
        return O('seqeq', (a, b), 0, 1)
    if isinstance(a, Str) and isinstance(b, Str):
        if isinstance(a.d, str) and isinstance(b.d, str):
            return K(int(a.d == b.d))
        return O('streq', (a, b), 0, 1) if repr(a) < repr(b) else O('streq', (b, a), 0, 1)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty:
        if a.var != b.var:
            return ZERO
        cs = [val_eq(eng, st, x, y, depth + 1) for x, y in zip(a.fs, b.fs)]
        if any(x is None for x in cs):
            return None
        return conj(cs)
    if isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)) and (a.ty == b.ty) and a.ty is not None:
        t = eng.T[a.ty]
        if 'variants' in t:
            da, db = eng.discr(st, a, a.ty), eng.discr(st, b, b.ty)
            c = TT.cmp('Eq', da, db)
            r = TT.truth(c, st.F)
            if r is False:
                return ZERO
            if r is None:
                raise NeedFork(c)
            va, vb = eng.variant_of(a, st.F), eng.variant_of(b, st.F)
            v = va if va is not None else vb
            if v is None:
                if all(not x['fields'] for x in t['variants']):
                    return ONE
                return None
            fs = t['variants'][v]['fields']
            cs = []
            for i, f in enumerate(fs):
                x = eng.step(st, a, (('d', v), ('f', i, f['ty'])), 0)
                y = eng.step(st, b, (('d', v), ('f', i, f['ty'])), 0)
                cs.append(val_eq(eng, st, x, y, depth + 1))
            if any(x is None for x in cs):
                return None
            return conj(cs)
    if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind == 'dur':
        return TT.cmp('Eq', a.args[0], b.args[0])
    return None


def conj(cs):
    cs = [x for x in cs if not (isk(x) and kv(x))]
    if any(isk(x) and not kv(x) for x in cs):
        return ZERO
    if not cs:
        return ONE
    if len(cs) == 1:
        return cs[0]
    return O('and', cs, 0, 1)


STD_EQ = ('std::', 'core::', 'alloc::', '<std::', '<core::', '<alloc::', '<&', '<[', '<str', '<T as')


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(eng, c):
    neg = c.path.endswith('ne')
    if c.callee.get('body') is not None and 'knx_ip_client' in c.rpath and '<std::option' not in c.rpath and not neg:
        return NotImplemented
    t = val_eq(eng, c.st, c.args[0], c.args[1])
    if t is None:
        return NotImplemented
    return [(c.st, notb(t) if neg else t)]


# ---------------------------------------------------------------- panics
@prefix('core::panicking::', 'std::rt::', 'std::panicking::', 'core::slice::index::', 'core::option::expect_failed', 'core::result::unwrap_failed',
        'core::str::slice_error_fail', 'core::slice::copy_from_slice_impl', 'alloc::raw_vec::handle_error', 'std::process::abort', 'std::process::exit',
        'core::num::from_ascii')
def m_panic(eng, c):
    if c.destty is not None and eng.T[c.destty]['k'] != 'never':
        return NotImplemented
    what = c.path.split('::')[-1]
    eng.alarm(c.st, c.fr, c.blk, 'panic', 'call of ' + what, None)
    return []


@model('std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed')
def m_panic2(eng, c):
    eng.alarm(c.st, c.fr, c.blk, 'panic', 'call of ' + c.path.split('::')[-1], None)
    return []


# ---------------------------------------------------------------- Option / Result shortcuts (std bodies would do, these are faster)
@model('std::result::Result::<T, E>::unwrap', 'std::result::Result::<T, E>::expect', 'std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect')
def m_unwrap(eng, c):
    cs = eng.cases(c.st, c.args[0])
    if cs is None:
        return NotImplemented
    good = 0 if 'Result' in c.path else 1
    out = []
    for s, v, fs in cs:
        if v == good:
            out.append((s, fs[0] if fs else unit(eng, c)))
        else:
            eng.alarm(s, c.fr, c.blk, 'panic', '%s on %s' % (c.path.split('::')[-1], 'Err' if good == 0 else 'None'), None)
    return out


@model('std::ops::Try::branch')
def m_branch(eng, c):
    cs = eng.cases(c.st, c.args[0])
    if cs is None:
        return NotImplemented
    a = c.args[0]
    p = eng.T[a.ty]['path']
    rty = targ(eng, c.destty, 0)
    out = []
    for s, v, fs in cs:
        if p == 'std::result::Result':
            out.append((s, mkagg(c.destty, 0, fs) if v == 0 else mkagg(c.destty, 1, [mkagg(rty, 1, fs)])))
        elif p == 'std::option::Option':
            out.append((s, mkagg(c.destty, 0, fs) if v == 1 else mkagg(c.destty, 1, [mkagg(rty, 0, [])])))
        else:
            return NotImplemented
    return out


@prefix('snafu::ResultExt::', 'snafu::OptionExt::')
def m_snafu_ext(eng, c):
    v0 = c.args[0]
    cs = eng.cases(c.st, v0)
    if cs is None:
        return NotImplemented
    isres = 'ResultExt' in c.path
    out = []
    for s, v, fs in cs:
        good = (v == 0) if isres else (v == 1)
        if good:
            out.append((s, ok(c.destty, fs[0])))
            continue
        sts = [s]
        if '::with_' in c.path and len(c.args) > 1:
            a = []
            if isres:
                base = ('H', eng.fresh(s, c.fr, c.blk, 'e'))
                s.mem[base] = fs[0]
                a = [mkref(base)]
            sts = [x for x, _ in eng.call_value(s, c.fr, c.blk, c.args[1], a, None)]
        for x in sts:
            out.append((x, err(c.destty, errval(eng, c))))
    return out


@model('snafu::FromString::without_source', 'snafu::FromString::with_source')
def m_fromstring(eng, c):
    if c.callee.get('body') is not None:
        return NotImplemented
    return [(c.st, eng.sym(c.destty, ('@err', c.fr.ctx, c.fr.it, c.blk)))]


@prefix('snafu::')
def m_snafu(eng, c):
    return [(c.st, eng.sym(c.destty, ('@snafu', c.fr.ctx, c.fr.it, c.blk)))]


@prefix('std::io::Error::', 'std::error::')
def m_ioerr(eng, c):
    return [(c.st, eng.sym(c.destty, ('@ioerr', c.fr.ctx, c.fr.it, c.blk)))]


# ---------------------------------------------------------------- readers
def reader(eng, st, v):
    """(setter, sequence, position, set_position) of a Cursor or slice reader"""
    def pred(x):
        return isinstance(x, Agg) and x.ty is not None and eng.T[x.ty]['k'] == 'adt' and eng.T[x.ty]['path'].endswith('Cursor')
    r, a = chase_to(eng, st, v, pred)
    if pred(a) and len(a.fs) == 2 and isinstance(a.fs[1], T):
        q = as_seq(eng, st, a.fs[0])
        if q is None:
            return None

        def setpos(s, p, r=r, a=a):
            if r is not None:
                cur = eng.deref(s, r)
                eng.store(s, r, mkagg(cur.ty, cur.var, [cur.fs[0], p]))
        return q, a.fs[1], setpos
    # &mut &[u8]
    chain = []
    x = v
    while isinstance(x, Ref) and len(chain) < 12:
        chain.append(x)
        x = eng.deref(st, x)
    if isinstance(x, Seq) and len(chain) >= 2:
        holder, sl = chain[-2], chain[-1]
        n = seqlen(x)

        def setpos(s, p, holder=holder, sl=sl, n=n):
            eng.store(s, holder, mkref(sl.base, sl.path + (('w', p, sub(n, p)),)))
        return x, ZERO, setpos
    return None


def take_bytes(eng, c, n):
    """fork: n octets available -> (st, True, [bytes]) else (st, False, None)"""
    rd = reader(eng, c.st, c.args[0])
    if rd is None:
        return None
    q, pos, setpos = rd
    L = seqlen(q)
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Le', add(pos, n), L)):
        if v:
            if isk(n):
                bs = [eng.seq_get(s, q, add(pos, K(i))) for i in range(kv(n))]
            else:
                bs = eng.seq_slice(s, q, pos, n)
            setpos(s, add(pos, n))
            out.append((s, True, bs))
        else:
            # a failed exact read consumes the rest
            t = L if TT.truth(TT.cmp('Le', pos, L), s.F) else pos
            setpos(s, t)
            out.append((s, False, None))
    return out


def m_read_int(w, signed):
    def f(eng, c):
        r = take_bytes(eng, c, K(w // 8))
        if r is None:
            return NotImplemented
        little = any(ty is not None and 'LittleEndian' in eng.T[ty]['s'] for ty in c.callee.get('targs') or [])
        out = []
        for s, good, bs in r:
            if good:
                out.append((s, ok(c.destty, be_term(eng, s, bs, signed, little) if w > 8 or signed else bs[0])))
            else:
                out.append((s, err(c.destty, errval(eng, c, tag='eof'))))
        return out
    return f


for _w in (8, 16, 24, 32, 48, 64, 128):
    for _s in 'ui':
        if _w == 8 and _s == 'i':
            M['byteorder::ReadBytesExt::read_i8'] = m_read_int(8, True)
            continue
        M['byteorder::ReadBytesExt::read_%s%d' % (_s, _w)] = m_read_int(_w, _s == 'i')


def m_write_int(w, signed):
    def f(eng, c):
        r, q = seq_of(eng, c.st, c.args[0])
        t = c.args[1]
        if q is None or not isinstance(t, T):
            return NotImplemented
        ty = c.argtys[0]
        if ty is not None and 'Vec' not in eng.T[ty]['s']:
            return NotImplemented
        bs = be_bytes(eng, c.st, t, w, signed) if w > 8 or signed else [t]
        if any(x is not None and 'LittleEndian' in eng.T[x]['s'] for x in c.callee.get('targs') or []):
            bs = bs[::-1]
        eng.store(c.st, r, mkseq(q.ety, list(q.segs) + [('e', b) for b in bs]))
        return [(c.st, ok(c.destty, mkagg(targ(eng, c.destty, 0), 0, [])))]
    return f


for _w in (8, 16, 24, 32, 64, 128):
    for _s in 'ui':
        M['byteorder::WriteBytesExt::write_%s%d' % (_s, _w)] = m_write_int(_w, _s == 'i')


@model('std::io::Write::write_all', 'std::io::Write::write')
def m_write_all(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    b = as_seq(eng, c.st, c.args[1])
    ty = c.argtys[0]
    if q is None or b is None or ty is None or 'Vec' not in eng.T[ty]['s']:
        return NotImplemented
    eng.store(c.st, r, mkseq(q.ety, list(q.segs) + list(b.segs)))
    v = mkagg(targ(eng, c.destty, 0), 0, []) if c.path.endswith('all') else seqlen(b)
    return [(c.st, ok(c.destty, v))]


@model('std::io::Cursor::<T>::new')
def m_cursor_new(eng, c):
    return [(c.st, mkagg(c.destty, 0, [c.args[0], ZERO]))]


def cursor_agg(eng, st, v):
    def pred(x):
        return isinstance(x, Agg) and len(x.fs) == 2 and x.ty is not None and eng.T[x.ty]['k'] == 'adt' and eng.T[x.ty]['path'].endswith('Cursor')
    r, a = chase_to(eng, st, v, pred)
    return (r, a) if pred(a) else (None, None)


@model('std::io::Cursor::<T>::position')
def m_cursor_pos(eng, c):
    r, a = cursor_agg(eng, c.st, c.args[0])
    return [(c.st, a.fs[1])] if a is not None else NotImplemented


@model('std::io::Cursor::<T>::set_position')
def m_cursor_setpos(eng, c):
    r, a = cursor_agg(eng, c.st, c.args[0])
    if a is None or r is None:
        return NotImplemented
    eng.store(c.st, r, mkagg(a.ty, a.var, [a.fs[0], c.args[1]]))
    return [(c.st, unit(eng, c))]


@model('std::io::Cursor::<T>::get_ref', 'std::io::Cursor::<T>::get_mut')
def m_cursor_ref(eng, c):
    r, a = cursor_agg(eng, c.st, c.args[0])
    if a is None or r is None:
        return NotImplemented
    return [(c.st, mkref(r.base, r.path + (('f', 0, None),)))]


@model('std::io::Cursor::<T>::into_inner')
def m_cursor_inner(eng, c):
    a = c.args[0]
    return [(c.st, a.fs[0])] if isinstance(a, Agg) else NotImplemented


def rsuffix(c, *names):
    return any(c.path.endswith(n) or c.rpath.endswith(n) for n in names)


@model('std::io::Read::read_exact')
def m_read_exact(eng, c):
    br, bq = seq_of(eng, c.st, c.args[1])
    if bq is None:
        return NotImplemented
    n = seqlen(bq)
    r = take_bytes(eng, c, n)
    if r is None:
        return NotImplemented
    out = []
    for s, good, bs in r:
        if good:
            segs = [('e', b) for b in bs] if isinstance(bs, list) else bs.segs
            eng.store(s, br, mkseq(bq.ety, segs))
            out.append((s, ok(c.destty, mkagg(targ(eng, c.destty, 0), 0, []))))
        else:
            eng.store(s, br, mkseq(bq.ety, [('c', ('@partial', c.fr.ctx, c.fr.it, c.blk), bq.ety, ZERO, n)]))
            out.append((s, err(c.destty, errval(eng, c, tag='eof'))))
    return out


@model('std::io::Read::read')
def m_read(eng, c):
    br, bq = seq_of(eng, c.st, c.args[1])
    rd = reader(eng, c.st, c.args[0])
    if bq is None or rd is None:
        return NotImplemented
    q, pos, setpos = rd
    n, L = seqlen(bq), seqlen(q)
    out = []
    for s, full in eng.fork(c.st, TT.cmp('Le', add(pos, n), L)):
        if full:
            eng.store(s, br, eng.seq_slice(s, q, pos, n))
            setpos(s, add(pos, n))
            out.append((s, ok(c.destty, n)))
            continue
        for s2, inside in eng.fork(s, TT.cmp('Le', pos, L)):
            m = sub(L, pos) if inside else ZERO
            if inside:
                part = eng.seq_slice(s2, q, pos, m)
                rest = eng.seq_slice(s2, bq, m, sub(n, m))
                eng.store(s2, br, mkseq(bq.ety, list(part.segs) + list(rest.segs)))
                setpos(s2, L)
            s2.ev('short', c.fr.body['path'])
            out.append((s2, ok(c.destty, m)))
    return out


@model('std::io::Read::read_to_end')
def m_read_to_end(eng, c):
    br, bq = seq_of(eng, c.st, c.args[1])
    rd = reader(eng, c.st, c.args[0])
    if bq is None or rd is None:
        return NotImplemented
    q, pos, setpos = rd
    L = seqlen(q)
    out = []
    for s, inside in eng.fork(c.st, TT.cmp('Le', pos, L)):
        if inside:
            m = sub(L, pos)
            part = eng.seq_slice(s, q, pos, m)
            eng.store(s, br, mkseq(bq.ety, list(bq.segs) + list(part.segs)))
            setpos(s, L)
            out.append((s, ok(c.destty, m)))
        else:
            out.append((s, ok(c.destty, ZERO)))
    return out


# ---------------------------------------------------------------- Vec / slice
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vec_new(eng, c):
    return [(c.st, mkseq(elem_ty(eng, c.destty), []))]


@model('std::vec::Vec::<T, A>::push')
def m_push(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    eng.store(c.st, r, mkseq(q.ety, list(q.segs) + [('e', c.args[1])]))
    return [(c.st, unit(eng, c))]


@model('std::vec::Vec::<T, A>::append')
def m_append(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    r2, q2 = seq_of(eng, c.st, c.args[1])
    if q is None or q2 is None:
        return NotImplemented
    eng.store(c.st, r, mkseq(q.ety, list(q.segs) + list(q2.segs)))
    eng.store(c.st, r2, mkseq(q2.ety, []))
    return [(c.st, unit(eng, c))]


@model('std::vec::Vec::<T, A>::extend_from_slice')
def m_extend_from_slice(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    q2 = as_seq(eng, c.st, c.args[1])
    if q is None or q2 is None:
        return NotImplemented
    eng.store(c.st, r, mkseq(q.ety, list(q.segs) + list(q2.segs)))
    return [(c.st, unit(eng, c))]


@model('std::vec::Vec::<T, A>::clear')
def m_clear(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    eng.store(c.st, r, mkseq(q.ety, []))
    return [(c.st, unit(eng, c))]


@model('std::vec::Vec::<T, A>::truncate')
def m_truncate(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Le', c.args[1], seqlen(q))):
        if v:
            eng.store(s, r, eng.seq_slice(s, q, ZERO, c.args[1]))
        out.append((s, unit(eng, c)))
    return out


@model('std::vec::Vec::<T, A>::resize')
def m_resize(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    out = []
    n, L = c.args[1], seqlen(q)
    for s, v in eng.fork(c.st, TT.cmp('Le', n, L)):
        if v:
            eng.store(s, r, eng.seq_slice(s, q, ZERO, n))
        else:
            eng.store(s, r, mkseq(q.ety, list(q.segs) + [('r', c.args[2], sub(n, L))]))
        out.append((s, unit(eng, c)))
    return out


@model('std::vec::Vec::<T, A>::pop')
def m_pop(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    out = []
    L = seqlen(q)
    for s, v in eng.fork(c.st, TT.cmp('Ge', L, ONE)):
        if v:
            x = eng.seq_get(s, q, sub(L, ONE))
            eng.store(s, r, eng.seq_slice(s, q, ZERO, sub(L, ONE)))
            out.append((s, some(c.destty, x)))
        else:
            out.append((s, none(c.destty)))
    return out


@model('std::vec::Vec::<T, A>::remove')
def m_vremove(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    i = c.args[1]
    s = require(eng, c, c.st, TT.cmp('Lt', i, seqlen(q)), 'Vec::remove index')
    if s is None:
        return []
    x = eng.seq_get(s, q, i)
    eng.store(s, r, eng.seq_set(s, q, i, ONE, []))
    return [(s, x)]


@model('std::vec::Vec::<T, A>::insert')
def m_vinsert(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    i = c.args[1]
    s = require(eng, c, c.st, TT.cmp('Le', i, seqlen(q)), 'Vec::insert index')
    if s is None:
        return []
    eng.store(s, r, eng.seq_set(s, q, i, ZERO, [('e', c.args[2])]))
    return [(s, unit(eng, c))]


@model('std::vec::Vec::<T, A>::split_off')
def m_split_off(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    i, L = c.args[1], seqlen(q)
    s = require(eng, c, c.st, TT.cmp('Le', i, L), 'Vec::split_off index')
    if s is None:
        return []
    eng.store(s, r, eng.seq_slice(s, q, ZERO, i))
    return [(s, eng.seq_slice(s, q, i, sub(L, i)))]


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit')
def m_reserve(eng, c):
    return [(c.st, unit(eng, c))]


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def m_len(eng, c):
    q = as_seq(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    return [(c.st, seqlen(q))]


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_is_empty(eng, c):
    q = as_seq(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    return [(c.st, TT.cmp('Eq', seqlen(q), ZERO))]


def reref(eng, c):
    """Vec -> slice reference: same place"""
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    return [(c.st, r)]


for _p in ('std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::ops::Deref>::deref',
           '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice',
           'core::array::<impl [T; N]>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
           '<[T] as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow',
           '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut', 'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref'):
    M[_p] = reref


def copyseq(eng, c):
    q = as_seq(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    return [(c.st, q)]


for _p in ('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
           'std::array::<impl std::clone::Clone for [T; N]>::clone', '<std::vec::Vec<T> as std::convert::From<[T; N]>>::from',
           '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', '<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from',
           'std::vec::Vec::<T, A>::into_boxed_slice', 'std::slice::<impl [T]>::into_vec'):
    M[_p] = copyseq


@model('std::vec::from_elem')
def m_from_elem(eng, c):
    return [(c.st, mkseq(elem_ty(eng, c.destty), [('r', c.args[0], c.args[1])]))]


@model('std::boxed::Box::<T>::new_uninit', 'std::boxed::box_new_uninit')
def m_new_uninit(eng, c):
    base = ('H', eng.fresh(c.st, c.fr, c.blk, 'box'))
    c.st.mem[base] = None
    c.st.mem.pop(base)
    return [(c.st, mkref(base))]


def find_seq(v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, Opq) and v.kind == 'sparse':
        for _, x in v.args:
            r = find_seq(x)
            if r is not None:
                return r
    if isinstance(v, Agg):
        for x in v.fs:
            r = find_seq(x)
            if r is not None:
                return r
    return None


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_into_vec(eng, c):
    r = c.args[0]
    v = c.st.mem.get(r.base) if isinstance(r, Ref) else None
    q = find_seq(v)
    if q is None:
        return NotImplemented
    c.st.mem.pop(r.base, None)
    return [(c.st, mkseq(q.ety, q.segs))]


@model('std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::pin')
def m_arc_new(eng, c):
    base = ('H', eng.fresh(c.st, c.fr, c.blk, 'arc'))
    c.st.mem[base] = c.args[0]
    return [(c.st, mkref(base))]


def deref1(eng, c):
    """&Arc<T> -> &T"""
    v = eng.deref(c.st, c.args[0]) if isinstance(c.args[0], Ref) else None
    if isinstance(v, Ref):
        return [(c.st, v)]
    return NotImplemented


for _p in ('<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::Deref>::deref',
           '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut', '<std::rc::Rc<T, A> as std::ops::Deref>::deref',
           '<std::sync::Arc<T, A> as std::clone::Clone>::clone', '<std::rc::Rc<T, A> as std::clone::Clone>::clone',
           '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref'):
    M[_p] = deref1


def bounds(idx, eng, q):
    """start and end of a range over a sequence"""
    if not isinstance(idx, Agg) or idx.ty is None or eng.T[idx.ty]['k'] != 'adt':
        return None
    p = eng.T[idx.ty]['path']
    a, L = idx.fs, seqlen(q)
    if p == 'std::ops::Range':
        lo, hi = a[0], a[1]
    elif p == 'std::ops::RangeFrom':
        lo, hi = a[0], L
    elif p == 'std::ops::RangeTo':
        lo, hi = ZERO, a[0]
    elif p == 'std::ops::RangeFull':
        lo, hi = ZERO, L
    elif p == 'std::ops::RangeInclusive':
        lo, hi = a[0], add(a[1], ONE)
    elif p == 'std::ops::RangeToInclusive':
        lo, hi = ZERO, add(a[0], ONE)
    else:
        return None
    return (lo, hi) if isinstance(lo, T) and isinstance(hi, T) else None


def slice_index(eng, c, r, q, idx, ity, st):
    """(cond, result builder) for indexing a sequence by idx; None if unknown"""
    L = seqlen(q)
    if isinstance(idx, T):
        return TT.cmp('Lt', idx, L), (lambda: mkref(r.base, r.path + (('i', idx),)) if r is not None else None), 'index'
    if isinstance(idx, Agg) and idx.ty is not None and eng.T[idx.ty]['k'] == 'adt':
        b = bounds(idx, eng, q)
        if b is None:
            return None
        lo, hi = b
        cond = conj([TT.cmp('Le', lo, hi), TT.cmp('Le', hi, L)])
        return cond, (lambda: mkref(r.base, r.path + (('w', lo, sub(hi, lo)),))), 'slice'
    return None


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or r is None:
        rr, s = chase(eng, c.st, c.args[0])
        if isinstance(s, Str):
            eng.alarm(c.st, c.fr, c.blk, 'panic', 'string slicing', S(('?', 'str slice'), 0, 1))
            return [(c.st, mkref(('C', mkstr(('@sub', s.d, c.fr.ctx, c.fr.it, c.blk)))))]
        return NotImplemented
    x = slice_index(eng, c, r, q, c.args[1], None, c.st)
    if x is None:
        return NotImplemented
    cond, mk, what = x
    s = require(eng, c, c.st, cond, 'out-of-range ' + what)
    if s is None:
        return []
    return [(s, mk())]


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def m_get(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or r is None:
        return NotImplemented
    x = slice_index(eng, c, r, q, c.args[1], None, c.st)
    if x is None:
        return NotImplemented
    cond, mk, what = x
    out = []
    for s, v in eng.fork(c.st, cond):
        out.append((s, some(c.destty, mk()) if v else none(c.destty)))
    return out


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or r is None:
        return NotImplemented
    L = seqlen(q)
    i = ZERO if 'first' in c.path else sub(L, ONE)
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Ge', L, ONE)):
        out.append((s, some(c.destty, mkref(r.base, r.path + (('i', i),))) if v else none(c.destty)))
    return out


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at_checked')
def m_split_at(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or r is None:
        return NotImplemented
    i, L = c.args[1], seqlen(q)

    def two(ty):
        return mkagg(ty, 0, [mkref(r.base, r.path + (('w', ZERO, i),)), mkref(r.base, r.path + (('w', i, sub(L, i)),))])
    cond = TT.cmp('Le', i, L)
    if c.path.endswith('checked'):
        return [(s, some(c.destty, two(targ(eng, c.destty))) if v else none(c.destty)) for s, v in eng.fork(c.st, cond)]
    s = require(eng, c, c.st, cond, 'split_at beyond the end')
    return [(s, two(c.destty))] if s is not None else []


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_split_first(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or r is None:
        return NotImplemented
    L = seqlen(q)
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Ge', L, ONE)):
        if v:
            if c.path.endswith('first'):
                a, b = ('i', ZERO), ('w', ONE, sub(L, ONE))
            else:
                a, b = ('i', sub(L, ONE)), ('w', ZERO, sub(L, ONE))
            out.append((s, some(c.destty, mkagg(targ(eng, c.destty), 0, [mkref(r.base, r.path + (a,)), mkref(r.base, r.path + (b,))]))))
        else:
            out.append((s, none(c.destty)))
    return out


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copy_from(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    q2 = as_seq(eng, c.st, c.args[1])
    if q is None or q2 is None:
        return NotImplemented
    s = require(eng, c, c.st, TT.cmp('Eq', seqlen(q), seqlen(q2)), 'copy_from_slice length mismatch')
    if s is None:
        return []
    eng.store(s, r, mkseq(q.ety, q2.segs))
    return [(s, unit(eng, c))]


@model('core::slice::<impl [T]>::fill')
def m_fill(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    eng.store(c.st, r, mkseq(q.ety, [('r', c.args[1], seqlen(q))]))
    return [(c.st, unit(eng, c))]


@model('core::slice::<impl [T]>::reverse')
def m_reverse(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or any(s[0] != 'e' for s in q.segs):
        return NotImplemented
    eng.store(c.st, r, mkseq(q.ety, q.segs[::-1]))
    return [(c.st, unit(eng, c))]


@model('std::slice::<impl [T]>::concat', 'alloc::slice::<impl [T]>::concat')
def m_concat(eng, c):
    q = as_seq(eng, c.st, c.args[0])
    if q is None or any(s[0] != 'e' for s in q.segs):
        return NotImplemented
    segs = []
    for s in q.segs:
        x = as_seq(eng, c.st, s[1])
        if x is None:
            return NotImplemented
        segs += list(x.segs)
    return [(c.st, mkseq(elem_ty(eng, c.destty), segs))]


@model('core::slice::<impl [T]>::contains')
def m_contains(eng, c):
    q = as_seq(eng, c.st, c.args[0])
    _, x = chase(eng, c.st, c.args[1])
    if q is None or x is None:
        return NotImplemented
    n = seqlen(q)
    if isk(n) and kv(n) <= 64:
        ts = [val_eq(eng, c.st, eng.seq_get(c.st, q, K(i)), x) for i in range(kv(n))]
        if all(t is not None for t in ts):
            return [(c.st, disj(ts))]
    return [(c.st, O('contains', (q, x), 0, 1))]


def disj(cs):
    if any(isk(x) and kv(x) for x in cs):
        return ONE
    cs = [x for x in cs if not isk(x)]
    if not cs:
        return ZERO
    return cs[0] if len(cs) == 1 else O('or', cs, 0, 1)


@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_starts(eng, c):
    q, p = as_seq(eng, c.st, c.args[0]), as_seq(eng, c.st, c.args[1])
    if q is None or p is None or not isk(seqlen(p)):
        return NotImplemented
    n, L = seqlen(p), seqlen(q)
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Le', n, L)):
        if not v:
            out.append((s, ZERO))
        else:
            w = eng.seq_slice(s, q, ZERO if c.path.endswith('starts_with') else sub(L, n), n)
            t = val_eq(eng, s, w, p)
            if t is None:
                return NotImplemented
            out.append((s, t))
    return out


@model('std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from', 'std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for [T; N]>::try_from',
       'std::array::<impl std::convert::TryFrom<&mut [T]> for [T; N]>::try_from')
def m_arr_try(eng, c):
    q = as_seq(eng, c.st, c.args[0])
    at = targ(eng, c.destty, 0)
    if q is None or at is None or eng.T[at]['k'] != 'array' or eng.T[at]['len'] is None:
        return NotImplemented
    n = eng.T[at]['len']
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Eq', seqlen(q), K(n))):
        if v:
            out.append((s, ok(c.destty, mkseq(eng.T[at]['elem'], [('e', eng.seq_get(s, q, K(i))) for i in range(n)] if n <= 64 else q.segs))))
        else:
            out.append((s, err(c.destty, errval(eng, c))))
    return out


@model('std::array::<impl std::convert::TryFrom<&\'a [T]> for &\'a [T; N]>::try_from')
def m_arr_try_ref(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    at = targ(eng, c.destty, 0)
    if q is None or at is None:
        return NotImplemented
    n = eng.T[eng.T[at]['to']].get('len') if eng.T[at]['k'] == 'ref' else None
    if n is None:
        return NotImplemented
    return [(s, ok(c.destty, r) if v else err(c.destty, errval(eng, c))) for s, v in eng.fork(c.st, TT.cmp('Eq', seqlen(q), K(n)))]


# ---------------------------------------------------------------- integers
def ity(eng, c, i=0):
    ty = c.argtys[i] if c.argtys and c.argtys[i] is not None else c.destty
    return eng.int_ty(ty)


def in_range(t, bits, sg):
    lo, hi = trange(bits, sg)
    return conj([TT.cmp('Ge', t, K(lo)), TT.cmp('Le', t, K(hi))])


def m_arith(kind, op):
    def f(eng, c):
        a, b = c.args[0], c.args[1]
        if isinstance(b, Ref):
            b = chase(eng, c.st, b)[1]
        if not isinstance(a, T) or not isinstance(b, T):
            return NotImplemented
        it = selfint(eng, c)
        if it is None:
            return NotImplemented
        bits, sg = it
        lo, hi = trange(bits, sg)
        if op in ('shl', 'shr'):
            if kind == 'wrapping':
                if not isk(b):
                    return NotImplemented
                b = K(kv(b) % bits)
                return [(c.st, (shl if op == 'shl' else shr)(a, b, bits, sg, c.st.F))]
            out = []
            for s, v in eng.fork(c.st, TT.cmp('Lt', b, K(bits))):
                out.append((s, some(c.destty, (shl if op == 'shl' else shr)(a, b, bits, sg, s.F)) if v else none(c.destty)))
            return out
        if op in ('div', 'rem', 'div_euclid', 'rem_euclid'):
            if kind == 'checked':
                out = []
                for s, v in eng.fork(c.st, TT.cmp('Ne', b, ZERO)):
                    out.append((s, some(c.destty, eng.binop(s, 'Div' if 'div' in op else 'Rem', a, b, c.argtys[0])) if v else none(c.destty)))
                return out
            return NotImplemented
        m = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
        if kind == 'wrapping' or kind == 'unchecked':
            return [(c.st, wrap(m, bits, sg, c.st.F))]
        if kind == 'checked':
            out = []
            for s, v in eng.fork(c.st, in_range(m, bits, sg)):
                out.append((s, some(c.destty, m) if v else none(c.destty)))
            return out
        if kind == 'saturating':
            out = []
            for s, v in eng.fork(c.st, TT.cmp('Lt', m, K(lo))):
                if v:
                    out.append((s, K(lo)))
                    continue
                for s2, v2 in eng.fork(s, TT.cmp('Gt', m, K(hi))):
                    out.append((s2, K(hi) if v2 else m))
            return out
        if kind == 'overflowing':
            out = []
            for s, v in eng.fork(c.st, in_range(m, bits, sg)):
                out.append((s, mkagg(c.destty, 0, [m if v else wrap(m, bits, sg, s.F), K(0 if v else 1)])))
            return out
        if kind == 'abs_diff':
            return NotImplemented
        return NotImplemented
    return f


def selfint(eng, c):
    p = c.path
    i = p.find('<impl ')
    if i >= 0:
        n = p[i + 6:p.index('>', i)]
        if n[0] in 'ui' and (n[1:].isdigit() or n[1:] == 'size'):
            return (64 if n[1:] == 'size' else int(n[1:])), n[0] == 'i'
    return None


INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
for _t in INTS:
    for _k in ('wrapping', 'checked', 'saturating', 'overflowing', 'unchecked'):
        for _o in ('add', 'sub', 'mul', 'shl', 'shr', 'div', 'rem', 'rem_euclid', 'div_euclid'):
            M['core::num::<impl %s>::%s_%s' % (_t, _k, _o)] = m_arith(_k, _o)


def m_bytes(order):
    def f(eng, c):
        t = c.args[0]
        it = selfint(eng, c)
        if not isinstance(t, T) or it is None:
            return NotImplemented
        bs = be_bytes(eng, c.st, t, it[0], it[1])
        if order == 'le':
            bs = bs[::-1]
        return [(c.st, mkseq(eng.T[c.destty].get('elem'), [('e', b) for b in bs]))]
    return f


def m_unbytes(order):
    def f(eng, c):
        q = as_seq(eng, c.st, c.args[0])
        it = selfint(eng, c)
        if q is None or it is None:
            return NotImplemented
        bs = [eng.seq_get(c.st, q, K(i)) for i in range(it[0] // 8)]
        return [(c.st, be_term(eng, c.st, bs, it[1], order == 'le'))]
    return f


for _t in INTS:
    for _o in ('be', 'le', 'ne'):
        M['core::num::<impl %s>::to_%s_bytes' % (_t, _o)] = m_bytes('le' if _o == 'ne' else _o)
        M['core::num::<impl %s>::from_%s_bytes' % (_t, _o)] = m_unbytes('le' if _o == 'ne' else _o)


def m_minmax(eng, c):
    a, b = c.args[0], c.args[1]
    mx = c.path.endswith('max')
    if all(isinstance(v, Opq) and v.kind == 'dur' and isinstance(v.args[0], T) for v in (a, b)):
        return [(s, (b if mx else a) if v else (a if mx else b)) for s, v in eng.fork(c.st, TT.cmp('Le', a.args[0], b.args[0]))]
    if not isinstance(a, T) or not isinstance(b, T):
        return NotImplemented
    it = eng.int_ty(c.destty)
    if it is None:
        return [(c.st, O('f' + ('max' if mx else 'min'), (a, b)))]
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Le', a, b)):
        out.append((s, (b if mx else a) if v else (a if mx else b)))
    return out


for _p in ('std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::Ord::max'):
    M[_p] = m_minmax


@model('std::cmp::Ord::clamp')
def m_clamp(eng, c):
    a, lo, hi = c.args
    ts = [x.args[0] if isinstance(x, Opq) and x.kind == 'dur' else x for x in c.args]
    if not all(isinstance(x, T) for x in ts) or eng.int_ty(c.destty) is None and not isinstance(a, Opq):
        return NotImplemented
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Lt', ts[0], ts[1])):
        if v:
            out.append((s, lo))
            continue
        for s2, v2 in eng.fork(s, TT.cmp('Gt', ts[0], ts[2])):
            out.append((s2, hi if v2 else a))
    return out


def m_int_tryfrom(eng, c):
    """integer -> integer TryFrom"""
    v = c.args[0]
    at = targ(eng, c.destty, 0)
    it = eng.int_ty(at) if at is not None else None
    if not isinstance(v, T) or it is None or eng.T[at]['k'] != 'int':
        return NotImplemented
    return result_split(eng, c, in_range(v, *it), lambda s: v)


for _a in INTS:
    for _b in INTS:
        for _pre in ('std::convert::num::', 'core::convert::num::', 'std::convert::num::ptr_try_from_impls::', 'core::convert::num::ptr_try_from_impls::'):
            M['%s<impl std::convert::TryFrom<%s> for %s>::try_from' % (_pre, _a, _b)] = m_int_tryfrom
            M['%s<impl std::convert::From<%s> for %s>::from' % (_pre, _a, _b)] = m_ident


@model('std::convert::TryInto::try_into')
def m_try_into(eng, c):
    v = c.args[0]
    if isinstance(v, T):
        return m_int_tryfrom(eng, c)
    at = targ(eng, c.destty, 0)
    if at is not None and eng.T[at]['k'] == 'array':
        return m_arr_try(eng, c)
    return NotImplemented


@model('std::intrinsics::discriminant_value')
def m_discr(eng, c):
    _, v = chase(eng, c.st, c.args[0])
    return [(c.st, eng.discr(c.st, v, None))]


@model('std::mem::discriminant')
def m_discr2(eng, c):
    _, v = chase(eng, c.st, c.args[0])
    return [(c.st, mkagg(c.destty, 0, [eng.discr(c.st, v, None)]))]


@model('std::mem::replace')
def m_replace(eng, c):
    old = eng.deref(c.st, c.args[0])
    eng.store(c.st, c.args[0], c.args[1])
    return [(c.st, old)]


@model('std::mem::swap')
def m_swap(eng, c):
    a, b = eng.deref(c.st, c.args[0]), eng.deref(c.st, c.args[1])
    eng.store(c.st, c.args[0], b)
    eng.store(c.st, c.args[1], a)
    return [(c.st, unit(eng, c))]


def default_of(eng, ty):
    t = eng.T[ty]
    if t['k'] in ('int', 'bool', 'char'):
        return ZERO
    if t['k'] == 'adt':
        if t['path'] == 'std::option::Option':
            return none(ty)
        if t['path'] == 'std::vec::Vec':
            return mkseq(t['args'][0], [])
        if t['path'] == 'std::string::String':
            return mkstr('')
    if t['k'] == 'array' and t['len'] is not None:
        d = default_of(eng, t['elem'])
        return mkseq(t['elem'], [('r', d, K(t['len']))]) if d is not None else None
    return None


@model('std::mem::take')
def m_take(eng, c):
    d = default_of(eng, c.destty)
    if d is None:
        return NotImplemented
    old = eng.deref(c.st, c.args[0])
    eng.store(c.st, c.args[0], d)
    return [(c.st, old)]


@model('std::option::Option::<T>::take')
def m_opt_take(eng, c):
    old = eng.deref(c.st, c.args[0])
    eng.store(c.st, c.args[0], none(c.destty))
    return [(c.st, old)]


@model('std::default::Default::default')
def m_default(eng, c):
    if c.callee.get('body') is not None and 'knx_ip_client' in c.rpath:
        return NotImplemented
    d = default_of(eng, c.destty)
    return [(c.st, d)] if d is not None else NotImplemented


@model('std::mem::drop')
def m_drop(eng, c):
    eng.drop_value(c.st, c.fr, c.blk, c.args[0])
    return [(c.st, unit(eng, c))]


@model('std::mem::forget')
def m_forget(eng, c):
    return [(c.st, unit(eng, c))]


@model('std::clone::Clone::clone')
def m_clone(eng, c):
    """clone of values without interior identity"""
    _, v = c.args[0], eng.deref(c.st, c.args[0]) if isinstance(c.args[0], Ref) else None
    if isinstance(v, (T, Str)):
        return [(c.st, v)]
    if isinstance(v, Opq) and v.kind in ('tx', 'dur', 'instant', 'pure', 'it', 'fn'):
        return [(c.st, v)]
    if isinstance(v, (Seq, Sym)) and 'knx_ip_client' not in c.rpath:
        return [(c.st, v)]
    return NotImplemented


# floats
def m_f1(op):
    def f(eng, c):
        a = c.args[0]
        return [(c.st, O(op, (a,)))] if isinstance(a, T) else NotImplemented
    return f


for _t in ('f32', 'f64'):
    for _o in ('round', 'floor', 'ceil', 'abs', 'trunc', 'sqrt', 'round_ties_even', 'fract', 'signum', 'exp2', 'log2', 'ln'):
        for _m in ('core', 'std'):
            M['%s::%s::<impl %s>::%s' % (_m, _t, _t, _o)] = m_f1('f' + _o)
    for _o in ('powi', 'powf', 'min', 'max', 'rem_euclid', 'copysign'):
        for _m in ('core', 'std'):
            M['%s::%s::<impl %s>::%s' % (_m, _t, _t, _o)] = lambda eng, c, _o=_o: [(c.st, O('f' + _o, (c.args[0], c.args[1])))] if all(isinstance(x, T) for x in c.args) else NotImplemented
    for _o in ('is_nan', 'is_infinite', 'is_finite', 'is_sign_negative', 'is_sign_positive'):
        for _m in ('core', 'std'):
            M['%s::%s::<impl %s>::%s' % (_m, _t, _t, _o)] = lambda eng, c, _o=_o: [(c.st, O('f' + _o, (c.args[0],), 0, 1))] if isinstance(c.args[0], T) else NotImplemented
    for _m in ('core', 'std'):
        M['%s::%s::<impl %s>::mul_add' % (_m, _t, _t)] = lambda eng, c: [(c.st, O('fAdd', (O('fMul', tuple(c.args[:2])), c.args[2])))] if all(isinstance(x, T) for x in c.args) else NotImplemented
        M['%s::%s::<impl %s>::clamp' % (_m, _t, _t)] = lambda eng, c: [(c.st, O('fclamp', tuple(c.args)))] if all(isinstance(x, T) for x in c.args) else NotImplemented

# conversions integer -> float
for _a in INTS:
    for _b in ('f32', 'f64'):
        for _pre in ('std::convert::num::', 'core::convert::num::'):
            M['%s<impl std::convert::From<%s> for %s>::from' % (_pre, _a, _b)] = lambda eng, c: [(c.st, O('i2f', (c.args[0],)))]


# ---------------------------------------------------------------- strings
def str_of(eng, st, v):
    _, s = chase(eng, st, v)
    return s if isinstance(s, Str) else None


def strcopy(eng, c):
    s = str_of(eng, c.st, c.args[0])
    return [(c.st, s)] if s is not None else NotImplemented


def strref(eng, c):
    r, s = chase(eng, c.st, c.args[0])
    return [(c.st, r)] if isinstance(s, Str) and r is not None else NotImplemented


for _p in ('std::str::<impl std::borrow::ToOwned for str>::to_owned', '<std::string::String as std::convert::From<&str>>::from',
           '<std::string::String as std::clone::Clone>::clone', 'alloc::str::<impl std::borrow::ToOwned for str>::to_owned',
           '<std::string::String as std::convert::From<std::string::String>>::from'):
    M[_p] = strcopy
for _p in ('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', '<str as std::convert::AsRef<str>>::as_ref',
           '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow'):
    M[_p] = strref


@model('std::string::ToString::to_string')
def m_to_string(eng, c):
    s = str_of(eng, c.st, c.args[0])
    if s is not None:
        return [(c.st, s)]
    _, v = chase(eng, c.st, c.args[0])
    if isinstance(v, T):
        return [(c.st, mkstr(('text', v)))]
    # Display of anything else: text that depends on the value only
    return [(c.st, mkstr(('@text', c.fr.ctx, c.fr.it, c.blk)))]


@model('std::string::String::new')
def m_string_new(eng, c):
    return [(c.st, mkstr(''))]


@model('std::string::String::from_utf8_lossy', 'std::string::String::from_utf8', 'core::str::from_utf8', 'std::str::from_utf8')
def m_utf8(eng, c):
    q = as_seq(eng, c.st, c.args[0])
    s = mkstr(('utf8', q if q is not None else ('?', 'utf8')))
    t = eng.T[c.destty]
    if t['k'] == 'adt' and t['path'] == 'std::result::Result':
        it = targ(eng, c.destty)
        v = s if eng.T[it]['k'] != 'ref' else mkref(('C', s))
        return result_split(eng, c, O('utf8ok', (s,), 0, 1), lambda st: v)
    return [(c.st, s)]


@model('core::str::<impl str>::len', 'std::string::String::len')
def m_strlen(eng, c):
    s = str_of(eng, c.st, c.args[0])
    if s is None:
        return NotImplemented
    return [(c.st, K(len(s.d.encode())) if isinstance(s.d, str) else S(('strlen', s), 0, LENMAX))]


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def m_strempty(eng, c):
    s = str_of(eng, c.st, c.args[0])
    if s is None:
        return NotImplemented
    if isinstance(s.d, tuple) and s.d[0] == 'latin1':
        return [(c.st, TT.cmp('Eq', seqlen(s.d[1]), ZERO))]
    return [(c.st, TT.cmp('Eq', K(len(s.d.encode())) if isinstance(s.d, str) else S(('strlen', s), 0, LENMAX), ZERO))]


@model('core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes', 'core::str::<impl str>::bytes')
def m_asbytes(eng, c):
    s = str_of(eng, c.st, c.args[0])
    if s is None:
        return NotImplemented
    u8 = eng.tyid('u8')
    if isinstance(s.d, str):
        q = mkseq(u8, [('e', K(x)) for x in s.d.encode()])
    else:
        q = mkseq(u8, [('c', ('bytes', s), u8, ZERO, S(('strlen', s), 0, LENMAX))])
    if c.path.endswith('into_bytes'):
        return [(c.st, q)]
    if c.path.endswith('::bytes'):
        return [(c.st, opq('it', 'seq', q, ZERO, seqlen(q)))]
    return [(c.st, mkref(('C', q)))]


def pat_key(eng, st, p):
    _, v = chase(eng, st, p)
    if isinstance(v, T) and isk(v):
        return chr(kv(v))
    if isinstance(v, Str) and isinstance(v.d, str):
        return v.d
    return None


def latin(s, p, F):
    """for a text read from octets: [(octet, is it the character p: True/False/None)], None: not such a text"""
    if not (isinstance(s, Str) and isinstance(s.d, tuple) and s.d[0] == 'latin1') or not (isinstance(p, str) and len(p) == 1 and ord(p) < 256):
        return None
    out = []
    for g in s.d[1].segs:
        if g[0] == 'e':
            out.append(g[1])
        elif g[0] == 'r' and isk(simp(g[2], F)) and kv(simp(g[2], F)) <= 64:
            out += [g[1]] * kv(simp(g[2], F))
        else:
            return None
    return [(x, TT.eq(x, K(ord(p)), F)) for x in out]


def mklatin(s, l):
    return mkstr(('latin1', mkseq(s.d[1].ety, [('e', x) for x, _ in l])))


@model('core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_right_matches')
def m_trim_matches(eng, c):
    s = str_of(eng, c.st, c.args[0])
    p = pat_key(eng, c.st, c.args[1])
    op = c.path.split('::')[-1]
    if s is None or p is None:
        return NotImplemented
    if isinstance(s.d, str) and len(p) == 1:
        r = mkstr(s.d.rstrip(p) if 'end' in op or 'right' in op else s.d.lstrip(p) if 'start' in op else s.d.strip(p))
    else:
        l = latin(s, p, c.st.F)
        if l is None:
            return NotImplemented
        if 'start' not in op:
            while l and l[-1][1] is True:
                l = l[:-1]
            if l and l[-1][1] is None:
                return NotImplemented
        if 'start' in op or op == 'trim_matches':
            while l and l[0][1] is True:
                l = l[1:]
            if l and l[0][1] is None:
                return NotImplemented
        r = mklatin(s, l)
    return [(c.st, mkref(('C', r)))]


def nparts(s, p):
    """number of parts of text s split at p"""
    if isinstance(s.d, tuple) and s.d[0] == 'rest' and s.d[2] == p:
        return sub(nparts(s.d[1], p), ONE)
    if isinstance(s.d, tuple) and s.d[0] == 'part' and s.d[2] == ('split', p):
        return ONE
    return S(('nparts', s, ('split', p)), 1, LENMAX)


def mkpart(s, key, i):
    if key[0] == 'split':
        if isinstance(s.d, tuple) and s.d[0] == 'rest' and s.d[2] == key[1]:
            return mkpart(s.d[1], key, add(i, ONE))
        if isinstance(s.d, tuple) and s.d[0] == 'part' and s.d[2] == key:
            return s
    return mkstr(('part', s, key, i))


@model('core::str::<impl str>::contains', 'core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with')
def m_strcontains(eng, c):
    s = str_of(eng, c.st, c.args[0])
    p = pat_key(eng, c.st, c.args[1])
    if s is None or p is None:
        return [(c.st, S(('@contains', c.fr.ctx, c.fr.it, c.blk), 0, 1))]
    op = c.path.split('::')[-1]
    if isinstance(s.d, str):
        return [(c.st, K(int({'contains': p in s.d, 'starts_with': s.d.startswith(p), 'ends_with': s.d.endswith(p)}[op])))]
    l = latin(s, p, c.st.F)
    if l is not None:
        l = {'contains': l, 'starts_with': l[:1], 'ends_with': l[-1:]}[op]
        if any(x[1] is True for x in l) or all(x[1] is False for x in l):
            return [(c.st, K(int(any(x[1] is True for x in l))))]
    if op == 'contains' and p:
        return [(c.st, TT.cmp('Ge', nparts(s, p), K(2)))]
    return [(c.st, O(op, (s, p), 0, 1))]


@model('core::str::<impl str>::split', 'core::str::<impl str>::rsplit', 'core::str::<impl str>::splitn', 'core::str::<impl str>::split_terminator')
def m_split(eng, c):
    s = str_of(eng, c.st, c.args[0])
    pi = 2 if c.path.endswith('splitn') else 1
    p = pat_key(eng, c.st, c.args[pi])
    op = c.path.split('::')[-1]
    if s is None or p is None:
        return NotImplemented
    l = latin(s, p, c.st.F) if op == 'split' else None
    if l is not None and all(x[1] is not None for x in l):
        parts = [[]]
        for x in l:
            if x[1]:
                parts.append([])
            else:
                parts[-1].append(x)
        st_ = eng.tyid('&str')
        return [(c.st, opq('it', 'seq', mkseq(st_, [('e', mkref(('C', mklatin(s, x)))) for x in parts]), ZERO, K(len(parts))))]
    if isinstance(s.d, str) and op == 'split':
        parts = s.d.split(p)
        st_ = eng.tyid('&str')
        return [(c.st, opq('it', 'seq', mkseq(st_, [('e', mkref(('C', mkstr(x)))) for x in parts]), ZERO, K(len(parts))))]
    key = (op, p) + ((c.args[1],) if op == 'splitn' else ())
    if op == 'splitn' and isinstance(c.args[1], T) and isk(c.args[1]) and 1 <= kv(c.args[1]) <= 6:
        m = kv(c.args[1])
        np = nparts(s, p)
        st_ = eng.tyid('&str')
        out = []
        for k in range(1, m + 1):
            st = c.st.copy()
            if not TT.assume(st.F, TT.cmp('Eq' if k < m else 'Ge', np, K(k)), True):
                continue
            l = [mkpart(s, ('split', p), K(i)) for i in range(k if k < m else k - 1)]
            if k == m:
                r = s
                for _ in range(k - 1):
                    r = mkstr(('rest', r, p))
                l.append(r)
            out.append((st, opq('it', 'seq', mkseq(st_, [('e', mkref(('C', x))) for x in l]), ZERO, K(k))))
        return out
    n = nparts(s, p) if op == 'split' else S(('nparts', s, key), 1, LENMAX)
    if op == 'splitn' and isinstance(c.args[1], T):
        TT.assume(c.st.F, TT.cmp('Le', n, c.args[1]), True)
    return [(c.st, opq('it', 'parts', s, key, ZERO, n))]


@model('core::str::<impl str>::split_once')
def m_split_once(eng, c):
    s = str_of(eng, c.st, c.args[0])
    p = pat_key(eng, c.st, c.args[1])
    if s is None or p is None:
        return NotImplemented
    l = latin(s, p, c.st.F)
    if l is not None and all(x[1] is not None for x in l):
        i = [x[1] for x in l].index(True) if any(x[1] for x in l) else None
        if i is None:
            return [(c.st, none(c.destty))]
        return [(c.st, some(c.destty, mkagg(targ(eng, c.destty), 0, [mkref(('C', mklatin(s, x))) for x in (l[:i], l[i + 1:])])))]
    if isinstance(s.d, str):
        if p in s.d:
            a, b = s.d.split(p, 1)
            return [(c.st, some(c.destty, mkagg(targ(eng, c.destty), 0, [mkref(('C', mkstr(a))), mkref(('C', mkstr(b)))])))]
        return [(c.st, none(c.destty))]
    out = []
    for st, v in eng.fork(c.st, TT.cmp('Ge', nparts(s, p), K(2)) if p else O('contains', (s, p), 0, 1)):
        if v:
            a, b = mkpart(s, ('split', p), ZERO), mkstr(('rest', s, p))
            out.append((st, some(c.destty, mkagg(targ(eng, c.destty), 0, [mkref(('C', a)), mkref(('C', b))]))))
        else:
            out.append((st, none(c.destty)))
    return out


@model('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end', 'core::str::<impl str>::to_lowercase',
       'core::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase')
def m_trim(eng, c):
    s = str_of(eng, c.st, c.args[0])
    if s is None:
        return NotImplemented
    v = mkstr((c.path.split('::')[-1], s))
    return [(c.st, mkref(('C', v)) if eng.T[c.destty]['k'] == 'ref' else v)]


@model('core::str::<impl str>::parse')
def m_parse(eng, c):
    s = str_of(eng, c.st, c.args[0])
    t = targ(eng, c.destty, 0)
    if s is None or t is None:
        return NotImplemented
    ty = eng.T[t]
    if ty['k'] == 'int':
        it = eng.int_ty(t)
        if isinstance(s.d, str):
            try:
                n = int(s.d)
                lo, hi = trange(*it)
                if lo <= n <= hi:
                    return [(c.st, ok(c.destty, K(n)))]
            except ValueError:
                pass
            return [(c.st, err(c.destty, errval(eng, c)))]
        k, b = 0, s
        while isinstance(b.d, tuple) and b.d[0] == 'rest' and (k == 0 or b.d[2] == s.d[2]):
            k, b = k + 1, b.d[1]
        if k and s.d[2] and not s.d[2][0].isdigit() and s.d[2][0] not in '+-':
            # the rest after the k-th separator is a number only if it is the last part
            res = []
            for st, v in eng.fork(c.st, TT.cmp('Eq', nparts(b, s.d[2]), K(k + 1))):
                if not v:
                    res.append((st, err(c.destty, errval(eng, c))))
                    continue
                q = mkpart(b, ('split', s.d[2]), K(k))
                c.st = st
                n = S(('num', q))
                res += result_split(eng, c, conj([O('isnum', (q,), 0, 1), in_range(n, *it)]), lambda st, n=n: n)
            return res
        n = S(('num', s))
        return result_split(eng, c, conj([O('isnum', (s,), 0, 1), in_range(n, *it)]), lambda st: n)
    if isinstance(s.d, str) and ty['k'] == 'adt' and ty['path'].startswith('std::net::'):
        import re
        m = re.fullmatch(r'(\d+)\.(\d+)\.(\d+)\.(\d+)(?::(\d+))?', s.d)
        if m and (m.group(5) is not None) == ('Socket' in ty['path']) and all(int(m.group(i)) < 256 for i in range(1, 5)):
            return [(c.st, ok(c.destty, ipval(eng, t, s.d)))]
        return [(c.st, err(c.destty, errval(eng, c)))]
    if ty['k'] == 'adt' and not ty.get('local') and ty['path'].startswith('std::net::'):
        return result_split(eng, c, O('isaddr', (s, ty['path']), 0, 1), lambda st: eng.sym(t, ('addr', s)))
    return NotImplemented


@model('std::str::FromStr::from_str')
def m_from_str(eng, c):
    if 'knx_ip_client' in c.rpath:
        return NotImplemented
    return m_parse(eng, c)


def ipval(eng, ty, text):
    """SocketAddr / SocketAddrV4 / Ipv4Addr value of literal text"""
    t = eng.T[ty]
    host, _, port = text.partition(':')
    octs = [K(int(x)) for x in host.split('.')]
    p = t['path']
    if p.endswith('Ipv4Addr') and 'variants' in t:
        return mkagg(ty, 0, [mkseq(eng.tyid('u8'), [('e', o) for o in octs])])
    if p.endswith('SocketAddrV4') and 'variants' in t:
        f = t['variants'][0]['fields']
        return mkagg(ty, 0, [ipval(eng, f[0]['ty'], host), K(int(port))])
    if p.endswith('SocketAddr') and 'variants' in t:
        f = t['variants'][0]['fields']
        return mkagg(ty, 0, [ipval(eng, f[0]['ty'], text)])
    return opq('addr', text)


@prefix('encoding::')
def m_encoding(eng, c):
    # text <-> octets; both directions total, results depend on the input only
    op = c.path.split('::')[-1]
    if op == 'encode':
        s = str_of(eng, c.st, c.args[1])
        if s is None:
            return NotImplemented
        if isinstance(s.d, tuple) and s.d[0] == 'latin1':
            return [(c.st, ok(c.destty, s.d[1]))]
        t = targ(eng, c.destty, 0)
        e = elem_ty(eng, t)
        L = S(('enclen', s), 0, LENMAX)
        q = mkseq(e, [('c', ('enc', s), e, ZERO, L)])
        out = []
        trap = chase(eng, c.st, c.args[2])[1] if len(c.args) > 2 else None
        for st, v in eng.fork(c.st, O('encodable', (s,), 0, 1)):
            if not v and not (isinstance(trap, Agg) and trap.var == 0):
                # something is put for (or instead of) the characters that have no octet
                L2 = S(('enclen', s, 'trap'), 0, LENMAX)
                out.append((st, ok(c.destty, mkseq(e, [('c', ('enc', s, 'trap'), e, ZERO, L2)]))))
                continue
            out.append((st, ok(c.destty, q) if v else err(c.destty, eng.sym(targ(eng, c.destty, 1), ('@enc', c.fr.ctx)))))
        return out
    if op == 'decode':
        q = as_seq(eng, c.st, c.args[1])
        if q is None:
            return NotImplemented
        n = mkstr(('latin1', q))
        s = q.segs
        if len(s) == 1 and s[0][0] == 'c' and s[0][1][:1] == ('enc',) and len(s[0][1]) == 2:
            n = s[0][1][1]
        # every octet string is valid ISO 8859-1
        return [(c.st, ok(c.destty, n))]
    return NotImplemented


# ---------------------------------------------------------------- ranges and iterators
def is_range(eng, v):
    return isinstance(v, Agg) and v.ty is not None and eng.T[v.ty]['k'] == 'adt' and eng.T[v.ty]['path'] in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom')


def iter_from(eng, st, v, ty):
    """value of into_iter()"""
    if isinstance(v, Opq) and v.kind == 'it':
        return v
    if is_range(eng, v):
        return v
    if isinstance(v, Seq):
        return opq('it', 'seq', v, ZERO, seqlen(v))
    if isinstance(v, Ref):
        x = eng.deref(st, v)
        if isinstance(x, Seq):
            return opq('it', 'slice', v, ZERO, seqlen(x))
        if isinstance(x, Opq) and x.kind == 'it':
            return opq('it', 'byref', v)
        if is_range(eng, x):
            return opq('it', 'byref', v)
        if isinstance(x, Ref):
            y = chase(eng, st, x)
            if isinstance(y[1], Seq):
                return opq('it', 'slice', y[0], ZERO, seqlen(y[1]))
        if isinstance(x, Agg) and x.ty is not None and eng.T[x.ty].get('path') == 'std::option::Option':
            return opq('it', 'seq', mkseq(None, [('e', mkref(v.base, v.path + (('d', 1), ('f', 0, None))))] if x.var == 1 else []), ZERO, K(x.var))
    if isinstance(v, Agg) and v.ty is not None and eng.T[v.ty].get('path') == 'std::option::Option':
        return opq('it', 'seq', mkseq(None, [('e', v.fs[0])] if v.var == 1 else []), ZERO, K(v.var))
    return None


def it_next(eng, st, fr, blk, it, back=False):
    """[(state, item or None, new iterator)] or None when not understood"""
    if is_range(eng, it):
        p = eng.T[it.ty]['path']
        a, b = it.fs[0], (it.fs[1] if len(it.fs) > 1 else None)
        if p == 'std::ops::RangeFrom':
            return [(st, a, mkagg(it.ty, 0, [add(a, ONE)]))]
        if not isinstance(a, T) or not isinstance(b, T):
            return None
        out = []
        if p == 'std::ops::RangeInclusive':
            ex = it.fs[2]
            for s, v in eng.fork(st, conj([notb(ex), TT.cmp('Le', a, b)])):
                if not v:
                    out.append((s, None, it))
                    continue
                for s2, last in eng.fork(s, TT.cmp('Eq', a, b)):
                    if last:
                        out.append((s2, a, mkagg(it.ty, 0, [a, b, ONE])))
                    else:
                        out.append((s2, b if back else a, mkagg(it.ty, 0, [a, sub(b, ONE), ZERO] if back else [add(a, ONE), b, ZERO])))
            return out
        for s, v in eng.fork(st, TT.cmp('Lt', a, b)):
            if v:
                if back:
                    out.append((s, sub(b, ONE), mkagg(it.ty, 0, [a, sub(b, ONE)])))
                else:
                    out.append((s, a, mkagg(it.ty, 0, [add(a, ONE), b])))
            else:
                out.append((s, None, it))
        return out
    if not (isinstance(it, Opq) and it.kind == 'it'):
        return None
    k = it.args[0]
    if k in ('slice', 'seq'):
        _, src, a, b = it.args
        out = []
        for s, v in eng.fork(st, TT.cmp('Lt', a, b)):
            if not v:
                out.append((s, None, it))
                continue
            i = sub(b, ONE) if back else a
            if k == 'slice':
                x = mkref(src.base, src.path + (('i', i),))
            else:
                x = eng.seq_get(s, src, i)
            out.append((s, x, opq('it', k, src, a, sub(b, ONE)) if back else opq('it', k, src, add(a, ONE), b)))
        return out
    if k == 'parts' and not back:
        _, s0, key, i, n = it.args
        out = []
        for s, v in eng.fork(st, TT.cmp('Lt', i, n)):
            if v:
                out.append((s, mkref(('C', mkpart(s0, key, i))), opq('it', 'parts', s0, key, add(i, ONE), n)))
            else:
                out.append((s, None, it))
        return out
    if k == 'chunks' and not back:
        _, src, w, a, b, exact = it.args
        out = []
        for s, v in eng.fork(st, TT.cmp('Le', add(a, w), b)):
            if v:
                out.append((s, mkref(src.base, src.path + (('w', a, w),)), opq('it', k, src, w, add(a, w), b, exact)))
                continue
            if exact:
                out.append((s, None, it))
                continue
            for s2, v2 in eng.fork(s, TT.cmp('Lt', a, b)):
                if v2:
                    out.append((s2, mkref(src.base, src.path + (('w', a, sub(b, a)),)), opq('it', k, src, w, b, b, exact)))
                else:
                    out.append((s2, None, it))
        return out
    if k == 'windows' and not back:
        _, src, w, a, b = it.args
        out = []
        for s, v in eng.fork(st, TT.cmp('Le', add(a, w), b)):
            out.append((s, mkref(src.base, src.path + (('w', a, w),)), opq('it', k, src, w, add(a, ONE), b)) if v else (s, None, it))
        return out
    if k == 'byref':
        r = it.args[1]
        x = eng.deref(st, r)
        rs = it_next(eng, st, fr, blk, x, back)
        if rs is None:
            return None
        out = []
        for s, v, n in rs:
            eng.store(s, r, n)
            out.append((s, v, it))
        return out
    if k == 'rev':
        rs = it_next(eng, st, fr, blk, it.args[1], not back)
        return None if rs is None else [(s, v, opq('it', 'rev', n)) for s, v, n in rs]
    if k in ('copied', 'cloned'):
        rs = it_next(eng, st, fr, blk, it.args[1], back)
        if rs is None:
            return None
        out = []
        for s, v, n in rs:
            if v is not None and isinstance(v, Ref):
                v = eng.deref(s, v)
            out.append((s, v, opq('it', k, n)))
        return out
    if k in ('map', 'inspect'):
        rs = it_next(eng, st, fr, blk, it.args[1], back)
        if rs is None:
            return None
        out = []
        for s, v, n in rs:
            if v is None:
                out.append((s, None, opq('it', k, n, it.args[2])))
                continue
            for s2, w in eng.call_value(s, fr, blk, it.args[2], [v], None):
                out.append((s2, w if k == 'map' else v, opq('it', k, n, it.args[2])))
        return out
    if k in ('filter', 'take_while', 'skip_while', 'filter_map', 'map_while') and not back:
        if k in ('skip_while',):
            return None
        rs = it_next(eng, st, fr, blk, it.args[1], back)
        if rs is None:
            return None
        out = []
        for s, v, n in rs:
            n2 = opq('it', k, n, it.args[2])
            if v is None:
                out.append((s, None, n2))
                continue
            if k in ('filter', 'take_while'):
                base = ('H', ('@flt', fr.ctx, fr.it, blk))
                s.mem[base] = v
                arg = mkref(base)
            else:
                arg = v
            for s2, w in eng.call_value(s, fr, blk, it.args[2], [arg], None):
                if k in ('filter', 'take_while'):
                    for s3, b in eng.fork(s2, bcond(eng, w)):
                        if b:
                            out.append((s3, v, n2))
                        elif k == 'filter':
                            out.append((s3, SKIP, n2))
                        else:
                            out.append((s3, None, n2))
                else:
                    cs = eng.cases(s2, w)
                    if cs is None:
                        return None
                    for s3, var, fs in cs:
                        out.append((s3, fs[0], n2) if var == 1 else (s3, SKIP if k == 'filter_map' else None, n2))
        return out
    if k == 'enumerate' and not back:
        rs = it_next(eng, st, fr, blk, it.args[1])
        if rs is None:
            return None
        i = it.args[2]
        return [(s, mkagg(None, 0, [i, v]) if v is not None else None, opq('it', k, n, add(i, ONE) if v is not None else i)) for s, v, n in rs]
    if k == 'zip' and not back:
        rs = it_next(eng, st, fr, blk, it.args[1])
        if rs is None:
            return None
        out = []
        for s, v, n in rs:
            if v is None:
                out.append((s, None, it))
                continue
            r2 = it_next(eng, s, fr, blk, it.args[2])
            if r2 is None:
                return None
            for s2, w, m in r2:
                out.append((s2, mkagg(None, 0, [v, w]) if w is not None else None, opq('it', k, n, m)))
        return out
    if k == 'take' and not back:
        n = it.args[2]
        out = []
        for s, v in eng.fork(st, TT.cmp('Ge', n, ONE)):
            if not v:
                out.append((s, None, it))
                continue
            rs = it_next(eng, s, fr, blk, it.args[1])
            if rs is None:
                return None
            out += [(s2, w, opq('it', k, m, sub(n, ONE))) for s2, w, m in rs]
        return out
    if k == 'chain' and not back:
        a, b, ph = it.args[1:]
        if isk(ph) and kv(ph) == 0:
            rs = it_next(eng, st, fr, blk, a)
            if rs is None:
                return None
            out = []
            for s, v, n in rs:
                if v is not None:
                    out.append((s, v, opq('it', k, n, b, ZERO)))
                else:
                    r2 = it_next(eng, s, fr, blk, b)
                    if r2 is None:
                        return None
                    out += [(s2, w, opq('it', k, a, m, ONE)) for s2, w, m in r2]
            return out
        rs = it_next(eng, st, fr, blk, b)
        return None if rs is None else [(s, v, opq('it', k, a, n, ONE)) for s, v, n in rs]
    if k == 'stepby' and not back:
        rs = it_next(eng, st, fr, blk, it.args[1])
        if rs is None:
            return None
        out = []
        w = it.args[2]
        for s, v, n in rs:
            if v is None:
                out.append((s, None, it))
                continue
            if is_range(eng, n) and isinstance(w, T):
                # skip w-1 further values (range start may pass the end, which ends the iteration)
                out.append((s, v, opq('it', k, mkagg(n.ty, n.var, [add(n.fs[0], sub(w, ONE))] + list(n.fs[1:])), w)))
            else:
                return None
        return out
    return None


class _Skip:
    def __repr__(self):
        return 'SKIP'


SKIP = _Skip()


@model('std::iter::IntoIterator::into_iter', 'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::option::Option::<T>::iter')
def m_into_iter(eng, c):
    v = iter_from(eng, c.st, c.args[0], c.argtys[0] if c.argtys else None)
    return [(c.st, v)] if v is not None else NotImplemented


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact')
def m_chunks(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or r is None or not isinstance(c.args[1], T):
        return NotImplemented
    s = require(eng, c, c.st, TT.cmp('Ge', c.args[1], ONE), 'zero chunk size')
    if s is None:
        return []
    return [(s, opq('it', 'chunks', r, c.args[1], ZERO, seqlen(q), c.path.endswith('exact')))]


@model('core::slice::<impl [T]>::windows')
def m_windows(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None or r is None or not isinstance(c.args[1], T):
        return NotImplemented
    s = require(eng, c, c.st, TT.cmp('Ge', c.args[1], ONE), 'zero window size')
    return [(s, opq('it', 'windows', r, c.args[1], ZERO, seqlen(q)))] if s is not None else []


def as_it(eng, st, v):
    if is_range(eng, v) or (isinstance(v, Opq) and v.kind == 'it'):
        return v
    return iter_from(eng, st, v, None)


def it_adapt(kind, extra=0):
    def f(eng, c):
        v = as_it(eng, c.st, c.args[0])
        if v is None:
            return NotImplemented
        if kind == 'enumerate':
            return [(c.st, opq('it', kind, v, ZERO))]
        if kind in ('zip', 'chain'):
            w = iter_from(eng, c.st, c.args[1], None)
            if w is None:
                return NotImplemented
            return [(c.st, opq('it', kind, v, w, *([ZERO] if kind == 'chain' else [])))]
        if kind == 'stepby':
            s = require(eng, c, c.st, TT.cmp('Ge', c.args[1], ONE), 'zero step')
            return [(s, opq('it', kind, v, c.args[1]))] if s is not None else []
        if kind == 'skip':
            n = c.args[1]
            if isinstance(v, Opq) and v.args[0] in ('slice', 'seq'):
                _, src, a, b = v.args
                out = []
                for s, g in eng.fork(c.st, TT.cmp('Le', add(a, n), b)):
                    out.append((s, opq('it', v.args[0], src, add(a, n) if g else b, b)))
                return out
            return NotImplemented
        if kind in ('fuse', 'byref0', 'peekable0'):
            return [(c.st, v)]
        return [(c.st, opq('it', kind, v, *c.args[1:1 + extra]))]
    return f


for _k, _n, _e in (('rev', 'rev', 0), ('map', 'map', 1), ('enumerate', 'enumerate', 0), ('zip', 'zip', 1), ('copied', 'copied', 0),
                   ('cloned', 'cloned', 0), ('take', 'take', 1), ('skip', 'skip', 1), ('chain', 'chain', 1), ('filter', 'filter', 1),
                   ('filter_map', 'filter_map', 1), ('map_while', 'map_while', 1), ('take_while', 'take_while', 1), ('inspect', 'inspect', 1), ('step_by', 'stepby', 1), ('fuse', 'fuse', 0),
                   ('flat_map', 'flat_map', 1), ('flatten', 'flatten', 0)):
    M['std::iter::Iterator::' + _k] = it_adapt(_n, _e)


@model('std::iter::Iterator::by_ref')
def m_by_ref(eng, c):
    return [(c.st, c.args[0])]


@model('std::iter::once')
def m_once(eng, c):
    return [(c.st, opq('it', 'seq', mkseq(None, [('e', c.args[0])]), ZERO, ONE))]


@model('std::iter::repeat_n')
def m_repeat_n(eng, c):
    return [(c.st, opq('it', 'seq', mkseq(None, [('r', c.args[0], c.args[1])]), ZERO, c.args[1]))]


ENDLESS = 1 << 62


@model('std::iter::repeat')
def m_repeat(eng, c):
    return [(c.st, opq('it', 'seq', mkseq(None, [('r', c.args[0], K(ENDLESS))]), ZERO, K(ENDLESS)))]


@model('std::iter::empty')
def m_iempty(eng, c):
    return [(c.st, opq('it', 'seq', mkseq(None, []), ZERO, ZERO))]


def has_filter(it):
    return isinstance(it, Opq) and it.kind == 'it' and (it.args[0] in ('filter', 'filter_map') or any(has_filter(x) for x in it.args[1:]))


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def m_next(eng, c):
    r = c.args[0]
    r, it = chase_to(eng, c.st, r, lambda x: is_range(eng, x) or (isinstance(x, Opq) and x.kind == 'it'))
    if r is None or it is None:
        return NotImplemented
    back = c.path.endswith('back')
    if has_filter(it):
        return drive(eng, c, r, step_find_any, opq('acc', c.destty), back)
    rs = it_next(eng, c.st, c.fr, c.blk, it, back)
    if rs is None:
        return NotImplemented
    ity_ = targ(eng, c.destty)
    out = []
    for s, v, n in rs:
        eng.store(s, r, n)
        if v is not None:
            v = fixty(eng, v, ity_)
        out.append((s, some(c.destty, v) if v is not None else none(c.destty)))
    return out


def fixty(eng, v, ty):
    """tuples made by iterator adaptors get their type"""
    if isinstance(v, Agg) and v.ty is None and ty is not None and eng.T[ty]['k'] == 'tuple':
        es = eng.T[ty]['elems']
        return mkagg(ty, 0, [fixty(eng, f, es[i]) if i < len(es) else f for i, f in enumerate(v.fs)])
    return v


# consumers are run as a small loop: blocks 0 -> 1 (step) -> 2 (branch) -> 3 (return)
SYN = {}


def syn_body(eng, name):
    b = SYN.get((id(eng), name))
    if b is None:
        un = None
        for i, t in enumerate(eng.T):
            if t['k'] == 'tuple' and not t['elems']:
                un = i
                break
        b = {'name': name, 'path': name, 'local': False, 'span': '', 'argc': 3, 'locals': [un] * 8, 'names': [], 'spread': None, 'promoted': [],
             'blocks': [
                 {'cleanup': False, 'sp': '', 's': [], 't': ['goto', 1]},
                 {'cleanup': False, 'sp': '', 's': [['=', [5], ['ref', [1], True]], ['=', [6], ['ref', [2], True]]],
                  't': ['call', ['c', [3]], [['c', [5]], ['c', [6]]], [4], 2, un, [None, None]]},
                 {'cleanup': False, 'sp': '', 's': [], 't': ['switch', ['c', [4]], [[1, 1]], 3, None]},
                 {'cleanup': False, 'sp': '', 's': [['=', [0], ['use', ['c', [2]]]]], 't': ['return']},
             ]}
        SYN[(id(eng), name)] = b
    return b


def drive(eng, c, itref, step, acc, back=False):
    """run step until it reports the end; the result is read from the accumulator"""
    body = syn_body(eng, 'iterator loop')
    own = not isinstance(itref, Ref)
    arg = itref if own else opq('it', 'byref', itref)
    if back:
        arg = opq('it', 'rev', arg)
    outs = eng.exec_body(c.st, body, [arg, acc, opq('pyfn', step)], c.fr.ctx + ((c.path, c.blk),), c.fr.depth + 1, c.fr.it)
    res = []
    for s, v in outs:
        if v is PENDING:
            res.append((s, v))
        else:
            res.append((s, v))
    return res


def step_gen(f):
    def step(eng, st, fr, b, args):
        itr, accr = args
        it = eng.deref(st, itr)
        rs = it_next(eng, st, fr, b, it)
        if rs is None:
            v = eng.unknown(None, fr, b, 'iterator ' + repr(it)[:60])
            st.taint = True
            eng.store(st, accr, opq('acc?', v))
            return [(st, ZERO)]
        out = []
        for s, v, n in rs:
            eng.store(s, itr, n)
            if v is SKIP:
                out.append((s, ONE))
                continue
            out += f(eng, s, fr, b, v, accr)
        return out
    return step


def _find_any(eng, s, fr, b, v, accr):
    ty = eng.deref(s, accr)
    ty = ty.args[0]
    eng.store(s, accr, some(ty, fixty(eng, v, targ(eng, ty))) if v is not None else none(ty))
    return [(s, ZERO)]


step_find_any = step_gen(_find_any)


def _collect(eng, s, fr, b, v, accr):
    if v is None:
        return [(s, ZERO)]
    q = eng.deref(s, accr)
    if isinstance(q, Seq):
        v = fixty(eng, v, q.ety)
        eng.store(s, accr, mkseq(q.ety, list(q.segs) + [('e', v)]))
        return [(s, ONE)]
    return [(s, ZERO)]


step_collect = step_gen(_collect)


def _collect_res(eng, s, fr, b, v, accr):
    """accumulator: Agg(None,0,[seq, wrapper type term])"""
    acc = eng.deref(s, accr)
    q, ty = acc.fs
    if v is None:
        return [(s, ZERO)]
    p = eng.T[kv(ty)]['path']
    cs = eng.cases(s, v)
    out = []
    for s2, var, fs in cs or []:
        good = var == (0 if p.endswith('Result') else 1)
        if good:
            eng.store(s2, accr, mkagg(None, 0, [mkseq(q.ety, list(q.segs) + [('e', fs[0])]), ty]))
            out.append((s2, ONE))
        else:
            eng.store(s2, accr, mkagg(kv(ty), var, fs))
            out.append((s2, ZERO))
    return out


step_collect_res = step_gen(_collect_res)


def bulk(eng, st, it):
    """the segments of an iterator that hands on elements as they are, or None"""
    if not (isinstance(it, Opq) and it.kind == 'it'):
        return None
    k = it.args[0]
    if k in ('copied', 'cloned'):
        return bulk(eng, st, it.args[1])
    if k == 'slice':
        _, r, a, b = it.args
        q = eng.deref(st, r)
        if not isinstance(q, Seq):
            return None
        if isk(a) and kv(a) == 0 and b is seqlen(q):
            return list(q.segs)
        return list(eng.seq_slice(st, q, a, sub(b, a)).segs)
    if k == 'seq' and isk(it.args[2]) and kv(it.args[2]) == 0 and it.args[3] is seqlen(it.args[1]):
        return list(it.args[1].segs)
    if k == 'take':
        x, n = it.args[1], it.args[2]
        if isinstance(x, Opq) and x.kind == 'it' and x.args[0] == 'seq' and isk(x.args[3]) and kv(x.args[3]) == ENDLESS and isinstance(n, T):
            return [('r', x.args[1].segs[0][1], n)]
        segs = bulk(eng, st, x)
        if segs is not None and isinstance(n, T):
            q = mkseq(None, segs)
            if TT.truth(TT.cmp('Le', seqlen(q), n), st.F) is True:
                return segs
            if TT.truth(TT.cmp('Le', n, seqlen(q)), st.F) is True:
                return list(eng.seq_slice(st, q, ZERO, n).segs)
        return None
    if k == 'chain' and isk(it.args[3]) and kv(it.args[3]) == 0:
        x, y = bulk(eng, st, it.args[1]), bulk(eng, st, it.args[2])
        return None if x is None or y is None else x + y
    return None


def _flat(eng, s, fr, b, v, accr):
    acc = eng.deref(s, accr)     # Agg(None,0,[seq, f])
    if v is None or not isinstance(acc.fs[0], Seq):
        return [(s, ZERO)]
    out = []
    f = acc.fs[1]
    rs = [(s, v)] if f is ZERO else eng.call_value(s, fr, b, f, [v], None)
    for s2, w in rs:
        it = iter_from(eng, s2, w, None)
        segs = bulk(eng, s2, it) if it is not None else None
        if segs is None:
            s2.taint = True
            eng.store(s2, accr, mkagg(None, 0, [opq('acc?', eng.unknown(None, fr, b, 'flattened ' + repr(w)[:40])), f]))
            out.append((s2, ZERO))
            continue
        q = eng.deref(s2, accr).fs[0]
        eng.store(s2, accr, mkagg(None, 0, [mkseq(q.ety, list(q.segs) + segs), f]))
        out.append((s2, ONE))
    return out


step_flat = step_gen(_flat)


def gather(eng, c, st, it, ety, deref):
    """all elements of an iterator as one sequence: [(state, Seq | unknown)]"""
    if isinstance(it, Opq) and it.kind == 'it':
        k = it.args[0]
        if deref or owned(eng, it, ety):
            segs = bulk(eng, st, it)
            if segs is not None:
                return [(st, mkseq(ety, segs))]
        if k == 'chain' and isk(it.args[3]) and kv(it.args[3]) == 0:
            out = []
            for s, x in gather(eng, c, st, it.args[1], ety, deref):
                for s2, y in (gather(eng, c, s, it.args[2], ety, deref) if isinstance(x, Seq) else [(s, x)]):
                    out.append((s2, mkseq(ety, list(x.segs) + list(y.segs)) if isinstance(x, Seq) and isinstance(y, Seq) else y))
            return out
        if k in ('flat_map', 'flatten'):
            c2 = copy.copy(c)
            c2.st = st
            out = []
            for s, v in drive(eng, c2, it.args[1], step_flat, mkagg(None, 0, [mkseq(ety, []), it.args[2] if k == 'flat_map' else ZERO])):
                out.append((s, v.fs[0] if isinstance(v, Agg) else v))
            return out
    c2 = copy.copy(c)
    c2.st = st
    return drive(eng, c2, it, step_collect, mkseq(ety, []))


def owned(eng, it, ety):
    """the elements are values of type ety (not references to them)"""
    if not isinstance(it, Opq):
        return False
    k = it.args[0]
    if k in ('copied', 'cloned'):
        return True
    if k == 'seq':
        return True
    if k == 'chain':
        return owned(eng, it.args[1], ety) and owned(eng, it.args[2], ety)
    return False


@model('std::iter::Iterator::collect')
def m_collect(eng, c):
    it = as_it(eng, c.st, c.args[0])
    if it is None:
        return NotImplemented
    t = eng.T[c.destty]
    if t['k'] != 'adt':
        return NotImplemented
    if t['path'] == 'std::vec::Vec':
        return gather(eng, c, c.st, it, t['args'][0], eng.T[t['args'][0]]['k'] != 'ref')
    if t['path'] in ('std::result::Result', 'std::option::Option'):
        inner = targ(eng, c.destty, 0)
        if inner is None or eng.T[inner].get('path') != 'std::vec::Vec':
            return NotImplemented
        acc = mkagg(None, 0, [mkseq(eng.T[inner]['args'][0], []), K(c.destty)])
        out = []
        for s, v in drive(eng, c, it, step_collect_res, acc):
            if isinstance(v, Agg) and v.ty is None:
                v = mkagg(c.destty, 0 if t['path'].endswith('Result') else 1, [v.fs[0]])
            out.append((s, v))
        return out
    if t['path'] == 'std::string::String':
        ch = eng.tyid('char')
        if ch is not None:
            out = []
            for s, v in gather(eng, c, c.st, it, ch, True):
                # characters below 256 are those of ISO 8859-1
                if isinstance(v, Seq) and all(g[0] in 'er' and isinstance(g[1], T) and 0 <= rng(g[1], s.F)[0] and rng(g[1], s.F)[1] < 256 for g in v.segs):
                    out.append((s, mkstr(('latin1', v))))
                else:
                    out.append((s, mkstr(('@text', c.fr.ctx, c.fr.it, c.blk))))
            return out
        return [(c.st, mkstr(('@text', c.fr.ctx, c.fr.it, c.blk)))]
    return NotImplemented


@model('std::vec::Vec::<T, A>::retain')
def m_retain(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    it = opq('it', 'filter', opq('it', 'seq', q, ZERO, seqlen(q)), c.args[1])
    out = []
    for s, v in gather(eng, c, c.st, it, q.ety, True):
        eng.store(s, r, v if isinstance(v, Seq) else eng.unknown(None, c.fr, c.blk, 'retain'))
        out.append((s, unit(eng, c)))
    return out


@model('std::vec::Vec::<T, A>::drain')
def m_drain(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    b = bounds(c.args[1], eng, q)
    if b is None:
        return NotImplemented
    lo, hi = b
    s = require(eng, c, c.st, conj([TT.cmp('Le', lo, hi), TT.cmp('Le', hi, seqlen(q))]), 'Vec::drain range')
    if s is None:
        return []
    n = sub(hi, lo)
    eng.store(s, r, eng.seq_set(s, q, lo, n, []))
    return [(s, opq('it', 'seq', eng.seq_slice(s, q, lo, n), ZERO, n))]


@model('std::iter::Extend::extend')
def m_extend(eng, c):
    r, q = seq_of(eng, c.st, c.args[0])
    if q is None:
        return NotImplemented
    it = iter_from(eng, c.st, c.args[1], None)
    if it is None:
        return NotImplemented
    out = []
    for s, v in gather(eng, c, c.st, it, q.ety, True):
        if isinstance(v, Seq):
            q1 = eng.deref(s, r)
            eng.store(s, r, mkseq(q.ety, list(q1.segs) + list(v.segs)))
        out.append((s, unit(eng, c)))
    return out


def _fold(eng, s, fr, b, v, accr):
    acc = eng.deref(s, accr)     # Agg(None,0,[f, acc])
    if v is None:
        return [(s, ZERO)]
    out = []
    for s2, w in eng.call_value(s, fr, b, acc.fs[0], [acc.fs[1], v], None):
        eng.store(s2, accr, mkagg(None, 0, [acc.fs[0], w]))
        out.append((s2, ONE))
    return out


step_fold = step_gen(_fold)


@model('std::iter::Iterator::fold')
def m_fold(eng, c):
    it = as_it(eng, c.st, c.args[0])
    if it is None:
        return NotImplemented
    return [(s, v.fs[1] if isinstance(v, Agg) else v) for s, v in drive(eng, c, it, step_fold, mkagg(None, 0, [c.args[2], c.args[1]]))]


def _sum(eng, s, fr, b, v, accr):
    acc = eng.deref(s, accr)
    if v is None:
        return [(s, ZERO)]
    if isinstance(v, Ref):
        v = chase(eng, s, v)[1]
    eng.store(s, accr, add(acc, v) if isinstance(v, T) and isinstance(acc, T) else S(('?', 'sum')))
    return [(s, ONE)]


step_sum = step_gen(_sum)


@model('std::iter::Iterator::sum')
def m_sum(eng, c):
    it = as_it(eng, c.st, c.args[0])
    it2 = eng.int_ty(c.destty)
    if it is None or it2 is None:
        return NotImplemented
    out = []
    lo, hi = trange(*it2)
    for s, v in drive(eng, c, it, step_sum, ZERO):
        if isinstance(v, T):
            if it2[0] < 64:
                s = require(eng, c, s, in_range(v, *it2), 'overflow in sum')
                if s is None:
                    continue
        out.append((s, v))
    return out


def _foreach(eng, s, fr, b, v, accr):
    f = eng.deref(s, accr)
    if v is None:
        return [(s, ZERO)]
    return [(s2, ONE) for s2, _ in eng.call_value(s, fr, b, mkref(accr.base, accr.path), [v], None)]


step_foreach = step_gen(_foreach)


@model('std::iter::Iterator::for_each')
def m_for_each(eng, c):
    it = as_it(eng, c.st, c.args[0])
    if it is None:
        return NotImplemented
    return [(s, unit(eng, c)) for s, v in drive(eng, c, it, step_foreach, c.args[1])]


def mk_pred(kind):
    def f(eng, s, fr, b, v, accr):
        acc = eng.deref(s, accr)      # Agg(None,0,[f, result, idx])
        fn, res, i = acc.fs
        if v is None:
            return [(s, ZERO)]
        out = []
        arg = v
        if kind in ('find',):
            base = ('H', ('@find', fr.ctx, fr.it, b))
            s.mem[base] = v
            arg = mkref(base)
        for s2, w in eng.call_value(s, fr, b, fn, [arg], None):
            if kind == 'find_map':
                for s3, var, fs in eng.cases(s2, w) or []:
                    if var == 1:
                        eng.store(s3, accr, mkagg(None, 0, [fn, w, i]))
                        out.append((s3, ZERO))
                    else:
                        out.append((s3, ONE))
                continue
            for s3, t in eng.fork(s2, bcond(eng, w)):
                if kind == 'any' and t:
                    eng.store(s3, accr, mkagg(None, 0, [fn, ONE, i]))
                    out.append((s3, ZERO))
                elif kind == 'all' and not t:
                    eng.store(s3, accr, mkagg(None, 0, [fn, ZERO, i]))
                    out.append((s3, ZERO))
                elif kind == 'find' and t:
                    eng.store(s3, accr, mkagg(None, 0, [fn, mkagg(None, 1, [v]), i]))
                    out.append((s3, ZERO))
                elif kind == 'position' and t:
                    eng.store(s3, accr, mkagg(None, 0, [fn, mkagg(None, 1, [i]), i]))
                    out.append((s3, ZERO))
                else:
                    eng.store(s3, accr, mkagg(None, 0, [fn, res, add(i, ONE)]))
                    out.append((s3, ONE))
        return out
    return step_gen(f)


def m_pred(kind):
    step = mk_pred(kind)

    def f(eng, c):
        a = c.args[0]
        if isinstance(a, Ref):
            r, it = chase_to(eng, c.st, a, lambda x: is_range(eng, x) or (isinstance(x, Opq) and x.kind == 'it'))
            if it is None:
                return NotImplemented
            it = r
        else:
            it = as_it(eng, c.st, a)
        if it is None:
            return NotImplemented
        init = {'any': ZERO, 'all': ONE}.get(kind, mkagg(None, 0, []))
        out = []
        for s, v in drive(eng, c, it, step, mkagg(None, 0, [c.args[1], init, ZERO])):
            r = v.fs[1] if isinstance(v, Agg) and len(v.fs) == 3 else v
            if isinstance(r, Agg) and r.ty is None:
                r = mkagg(c.destty, r.var, r.fs)
            out.append((s, r))
        return out
    return f


for _k in ('any', 'all', 'find', 'position', 'find_map'):
    M['std::iter::Iterator::' + _k] = m_pred(_k)
    M['<std::slice::Iter<\'a, T> as std::iter::Iterator>::' + _k] = M['std::iter::Iterator::' + _k]


@model('std::iter::Iterator::count')
def m_count(eng, c):
    it = as_it(eng, c.st, c.args[0])
    if isinstance(it, Opq) and it.args[0] in ('slice', 'seq'):
        return [(c.st, sub(it.args[3], it.args[2]))]
    if isinstance(it, Opq) and it.args[0] == 'parts':
        return [(c.st, sub(it.args[4], it.args[3]))]
    return NotImplemented


@model('std::iter::ExactSizeIterator::len')
def m_itlen(eng, c):
    _, it = chase_to(eng, c.st, c.args[0], lambda x: is_range(eng, x) or (isinstance(x, Opq) and x.kind == 'it'))
    if isinstance(it, Opq) and it.args[0] in ('slice', 'seq'):
        return [(c.st, sub(it.args[3], it.args[2]))]
    return NotImplemented


def _last(eng, s, fr, b, v, accr):
    if v is None:
        return [(s, ZERO)]
    eng.store(s, accr, mkagg(None, 1, [v]))
    return [(s, ONE)]


step_last = step_gen(_last)


@model('std::iter::Iterator::last')
def m_last(eng, c):
    it = as_it(eng, c.st, c.args[0])
    if it is None:
        return NotImplemented
    return [(s, mkagg(c.destty, v.var, v.fs) if isinstance(v, Agg) else v) for s, v in drive(eng, c, it, step_last, mkagg(None, 0, []))]


@model('std::iter::Iterator::nth')
def m_nth(eng, c):
    r, it = chase_to(eng, c.st, c.args[0], lambda x: is_range(eng, x) or (isinstance(x, Opq) and x.kind == 'it'))
    n = c.args[1]
    if isinstance(it, Opq) and it.args[0] in ('slice', 'seq', 'parts') and r is not None and isinstance(n, T):
        if it.args[0] == 'parts':
            _, src, key, a, b = it.args
        else:
            _, src, a, b = it.args
        i = add(a, n)
        out = []
        for s, v in eng.fork(c.st, TT.cmp('Lt', i, b)):
            if v:
                x = mkref(src.base, src.path + (('i', i),)) if it.args[0] == 'slice' else eng.seq_get(s, src, i) if it.args[0] == 'seq' else mkref(('C', mkstr(('part', src, key, i))))
                eng.store(s, r, opq('it', it.args[0], src, add(i, ONE), b) if it.args[0] != 'parts' else opq('it', 'parts', src, key, add(i, ONE), b))
                out.append((s, some(c.destty, x)))
            else:
                out.append((s, none(c.destty)))
        return out
    return NotImplemented


# ---------------------------------------------------------------- time
DUR_UNIT = {'from_secs': 10 ** 9, 'from_millis': 10 ** 6, 'from_micros': 1000, 'from_nanos': 1, 'from_mins': 60 * 10 ** 9, 'from_hours': 3600 * 10 ** 9}


def m_dur(eng, c):
    t = c.args[0]
    if not isinstance(t, T):
        return NotImplemented
    return [(c.st, opq('dur', scale(t, DUR_UNIT[c.path.split('::')[-1]])))]


for _k in DUR_UNIT:
    M['std::time::Duration::' + _k] = m_dur


def dur_op(st, op, vs):
    """(result, may it be out of range) of arithmetic on durations and instants; (None, ..) when not followed"""
    how = op.split('_')[0] if '_' in op else ''
    op = op.split('_')[-1] if how in ('saturating', 'checked') else op
    if len(vs) < 2 or not isinstance(vs[0], Opq):
        return None, False
    a, b = vs[0], vs[1]
    bt = b.args[0] if isinstance(b, Opq) and b.kind == 'dur' and isinstance(b.args[0], T) else None
    if a.kind == 'instant' and bt is not None and isinstance(a.args[1], T) and op in ('add', 'sub'):
        t = add(a.args[1], bt) if op == 'add' else sub(a.args[1], bt)
        if op == 'add':
            st.ev('timer', a.args[0], t)
        return opq('instant', a.args[0], t), False
    if a.kind != 'dur' or not isinstance(a.args[0], T):
        return None, False
    t = a.args[0]
    if op in ('add', 'sub') and bt is not None:
        r = add(t, bt) if op == 'add' else sub(t, bt)
        if op == 'sub' and how:
            ge = TT.truth(TT.cmp('Ge', t, bt), st.F)
            if ge is not True:
                if how == 'saturating' and ge is False:
                    return opq('dur', ZERO), False
                return (opq('dur', r), True) if how == 'checked' and TT.assume(st.F, TT.cmp('Ge', t, bt), True) else (None, False)
        return opq('dur', r), False
    if op == 'mul' and isinstance(b, T):
        return opq('dur', mul(t, b)), False
    if op == 'div' and isinstance(b, T) and isk(b) and kv(b):
        return opq("dur", div(t, kv(b), st.F)), False
    return None, False


@prefix('std::time::Duration::', '<std::time::Duration as', '<std::time::Instant as', 'std::time::Instant::', 'tokio::time::Instant::', '<tokio::time::Instant as')
def m_time(eng, c):
    op = c.path.split('::')[-1]
    vs = [chase(eng, c.st, a)[1] if isinstance(a, Ref) else a for a in c.args]
    if op == 'now':
        n = eng.fresh(c.st, c.fr, c.blk, 'now')
        c.st.ev('now', n)
        return [(c.st, opq('instant', n, ZERO))]
    if vs and isinstance(vs[0], Opq) and vs[0].kind == 'instant' and len(vs) > 1 and op == 'add' and not isinstance(vs[1], Opq):
        c.st.ev('timer', vs[0].args[0], vs[1])
        return [(c.st, opq('instant', vs[0].args[0], vs[1]))]
    if op == 'new' and len(vs) == 2 and all(isinstance(v, T) for v in vs):
        return [(c.st, opq('dur', add(scale(vs[0], 10 ** 9), vs[1])))]
    if len(vs) == 1 and isinstance(vs[0], Opq) and vs[0].kind == 'dur' and isinstance(vs[0].args[0], T):
        t = vs[0].args[0]
        u = {'as_secs': 10 ** 9, 'as_millis': 10 ** 6, 'as_micros': 1000, 'as_nanos': 1}.get(op)
        if u:
            return [(c.st, div(t, u, c.st.F) if u > 1 else t)]
        u = {'subsec_nanos': 1, 'subsec_micros': 1000, 'subsec_millis': 10 ** 6}.get(op)
        if u:
            t = rem(t, 10 ** 9, c.st.F)
            return [(c.st, div(t, u, c.st.F) if u > 1 else t)]
        if op == 'is_zero':
            return [(c.st, TT.cmp('Eq', t, ZERO))]
    r, v = dur_op(c.st, op.replace('_assign', ''), vs)
    if op.endswith('_assign'):
        ref = chase(eng, c.st, c.args[0])[0]
        if ref is None:
            return NotImplemented
        eng.store(c.st, ref, r if r is not None else eng.unknown(c.argtys[0] and eng.T[c.argtys[0]]['to'], c.fr, c.blk, op))
        return [(c.st, unit(eng, c))]
    if r is not None:
        t = eng.T[c.destty]
        if t['k'] == 'adt' and t['path'] == 'std::option::Option':
            out = [(c.st, some(c.destty, r))]
            if v:
                s = c.st.copy()
                out.append((s, none(c.destty)))
            return out
        return [(c.st, r)]
    if op == 'clone':
        return [(c.st, vs[0])]
    t = eng.T[c.destty]
    if t['k'] == 'adt' and t['path'] == 'std::time::Duration':
        return [(c.st, opq('dur', S(('@elapsed', c.fr.ctx, c.fr.it, c.blk), 0, INF)))]
    return [(c.st, eng.sym(c.destty, ('@time', c.fr.ctx, c.fr.it, c.blk)))]


# ---------------------------------------------------------------- futures
def site(c, tag):
    return ('@' + tag, c.fr.ctx, c.fr.it, c.blk)


@model('std::future::IntoFuture::into_future', 'std::pin::Pin::<Ptr>::new_unchecked', 'std::pin::Pin::<Ptr>::new', 'tracing::Instrument::instrument',
       'tracing::Instrument::in_current_span', 'std::pin::Pin::<&\'a mut T>::get_mut', 'std::pin::Pin::<&\'a mut T>::get_unchecked_mut',
       'std::boxed::Box::<T, A>::into_pin', 'futures_util::FutureExt::boxed')
def m_fut_ident(eng, c):
    return [(c.st, c.args[0])]


@model('std::pin::Pin::<Ptr>::as_mut')
def m_pin_as_mut(eng, c):
    v = eng.deref(c.st, c.args[0])
    return [(c.st, v if isinstance(v, Ref) else c.args[0])]


@model('std::pin::Pin::<Ptr>::set', 'std::pin::Pin::<&mut T>::set')
def m_pin_set(eng, c):
    r = eng.deref(c.st, c.args[0])
    if not isinstance(r, Ref):
        return NotImplemented
    old = eng.deref(c.st, r)
    eng.drop_value(c.st, c.fr, c.blk, old)
    eng.store(c.st, r, c.args[1])
    return [(c.st, unit(eng, c))]


@model('std::future::get_context')
def m_getctx(eng, c):
    return [(c.st, mkref(('C', opq('ctx'))))]


@model('std::future::poll_fn')
def m_poll_fn(eng, c):
    return [(c.st, opq('fut', 'pollfn', c.args[0]))]


@model('std::future::ready')
def m_ready(eng, c):
    return [(c.st, opq('fut', 'ready', c.args[0]))]


@model('tokio::macros::support::thread_rng_n')
def m_rng(eng, c):
    return [(c.st, ZERO)]


@model('tokio::macros::support::poll_budget_available')
def m_budget(eng, c):
    return [(c.st, mkagg(c.destty, 0, [UNIT]))]


def ready(eng, ty, v):
    return mkagg(ty, 0, [v])


@model('std::future::Future::poll')
def m_poll(eng, c):
    def isfut(x):
        return (isinstance(x, Opq) and x.kind in ('fut', 'inprog', 'done')) or (isinstance(x, Agg) and x.ty is not None and eng.T[x.ty]['k'] == 'coroutine')
    r, f = chase_to(eng, c.st, c.args[0], isfut)
    if isinstance(f, Sym) and f.ty is not None and eng.T[f.ty]['k'] == 'coroutine':
        f = eng.expand(f)
    if isinstance(f, Opq) and f.kind == 'sparse':
        return NotImplemented
    if not isfut(f) or r is None:
        return NotImplemented
    return poll_value(eng, c, c.st, r, f, c.destty)


def poll_value(eng, c, st, r, f, pty):
    """poll the future f stored at r; result type Poll<..> = pty"""
    vty = targ(eng, pty, 0)
    pend = mkagg(pty, 1, [])
    out = []
    if isinstance(f, Opq) and f.kind == 'inprog':
        if f.args[1][1]:
            # resumed in the middle of handling something: the same continuation, and with it every
            # outcome, is explored by the poll that found this operation ready at once. The future owns
            # its state, so what the other branches did in between cannot change it.
            eng.cuts += 1
            return []
        if f.args[1][2]:
            st.ev('unparked', f.args[1][2])
        f = f.args[2]
    if isinstance(f, Agg):
        bi = eng.T[f.ty].get('body')
        if bi is None:
            return [(st, ready(eng, pty, eng.unknown(vty, c.fr, c.blk, 'coroutine without body')))]
        body = eng.B[bi]
        t0, held0 = st.trace, st.held
        outs = eng.exec_body(st, body, [f, mkref(('C', opq('ctx')))], c.fr.ctx + ((body['path'], c.blk),), c.fr.depth + 1, c.fr.it)
        for s, v in outs:
            if v is PENDING:
                kind = 'unknown'
                if s.trace is not None and s.trace.e[0] == 'pend':
                    kind = s.trace.e[1]
                    s.trace = s.trace.prev
                prog = progress(s.trace, t0, kind)
                kept = tuple(sorted({x[0] for x in s.held if x not in held0}))
                s.held = held0
                eng.store(s, r, opq('inprog', f.ty, (kind, prog, kept), f))
                if kept:
                    s.ev('parked', kept, body['path'])
                if prog:
                    s.ev('suspend', kind, body['path'])
                s.ev('pend', kind)
                out.append((s, pend))
            else:
                eng.store(s, r, opq('done'))
                out.append((s, ready(eng, pty, v)))
        return out
    k = f.args[0]
    if k == 'ready':
        return [(st, ready(eng, pty, f.args[1]))]
    if k == 'pollfn':
        base = ('H', eng.fresh(st, c.fr, c.blk, 'pollfn'))
        st.mem[base] = f.args[1]
        t0 = st.trace
        eng.sel += 1
        try:
            outs = eng.call_value(st, c.fr, c.blk, mkref(base), [mkref(('C', opq('ctx')))], pty)
        finally:
            eng.sel -= 1
        kinds = set()
        res = []
        for s, v in outs:
            # leaf suspensions recorded by this poll
            evs = []
            t = s.trace
            while t is not t0 and t is not None:
                evs.append(t.e)
                t = t.prev
            mine = [e[1] for e in evs if e[0] == 'pend']
            rest = [e for e in reversed(evs) if e[0] != 'pend']
            s.trace = t0
            if interp.AUTO is None or eng.sel:
                for e in rest:
                    s.trace = interp.mktrace(s.trace, e)
            if base in s.mem:
                eng.store(s, r, opq('fut', 'pollfn', s.mem.pop(base)))
            res.append((s, v, mine))
            if isinstance(v, Agg) and v.var == 1:
                kinds |= set(mine)
            elif v is PENDING:
                kinds |= set(mine)
        ks = tuple(sorted(kinds, key=repr))
        for s, v, mine in res:
            if v is PENDING or (isinstance(v, Agg) and v.var == 1):
                if eng.sel:
                    s.ev('pend', ks[0] if len(ks) == 1 else ('select', ks))
                    out.append((s, pend))
                # not in a select: the task sleeps until something is ready
                continue
            s.ev('select', ks, s.bound, s.held)
            out.append((s, v))
        return out
    if k == 'timeout':
        return poll_timeout(eng, c, st, r, f, pty)
    return poll_leaf(eng, c, st, r, f, pty, vty)




def progress(t, t0, kind):
    """is a suspended future in the middle of something (not waiting for its next input)?"""
    while t is not None and t is not t0:
        if t.e[0] == 'L':
            break
        if t.e[0] in EFFECTS or t.e[0] == 'fx':
            return True
        t = t.prev
    idle = kind in ('recv', 'rx') or isinstance(kind, tuple) and kind[0] == 'select' and ('recv' in kind[1] or 'rx' in kind[1])
    return not (idle or kind == 'lock' or isinstance(kind, tuple) and kind[0] in ('tick', 'sleep'))


def poll_timeout(eng, c, st, r, f, pty):
    vty = targ(eng, pty, 0)          # Result<T, Elapsed>
    inner_ty = targ(eng, vty, 0)
    ir = f.args[2]
    inner = eng.deref(st, ir)
    ipty = find_poll_ty(eng, inner_ty)
    out = []
    st.bound += 1
    t0 = st.trace
    eng.sel += 1
    try:
        outs = poll_value(eng, c, st, ir, inner, ipty)
    finally:
        eng.sel -= 1
    for s, v in outs:
        s.bound -= 1
        kind = 'unknown'
        if s.trace is not None and s.trace.e[0] == 'pend':
            kind = s.trace.e[1]
            s.trace = s.trace.prev
        if interp.AUTO is not None and not eng.sel:
            s.trace = t0
        if isinstance(v, Agg) and v.var == 0:
            eng.store(s, r, opq('done'))
            out.append((s, ready(eng, pty, ok(vty, v.fs[0]))))
        else:
            if eng.sel:
                s2 = s.copy()
                s2.ev('pend', kind)
                out.append((s2, mkagg(pty, 1, [])))
            s.ev('elapsed', kind, f.args[1].args[0] if isinstance(f.args[1], Opq) and f.args[1].args else None)
            out.append((s, ready(eng, pty, err(vty, eng.sym(targ(eng, vty, 1), site(c, 'elapsed'))))))
    return out


def find_poll_ty(eng, ty):
    """id of Poll<ty>, or a stand-in that carries the payload type"""
    for i, t in enumerate(eng.T):
        if t['k'] == 'adt' and t['path'] == 'std::task::Poll' and t['args'] and t['args'][0] == ty:
            return i
    t = {'s': 'std::task::Poll<?>', 'k': 'adt', 'path': 'std::task::Poll', 'local': False, 'kind': 'enum', 'args': [ty],
         'variants': [{'name': 'Ready', 'discr': 0, 'fields': [{'name': '0', 'ty': ty, 'pub': True}]}, {'name': 'Pending', 'discr': 1, 'fields': []}]}
    eng.T.append(t)
    return len(eng.T) - 1


def received(eng, c, st, sock, buf, addr, vty):
    """every datagram that may be received now: [(state, Ok(count))]"""
    n = eng.fresh(st, c.fr, c.blk, 'rx')
    s = st.copy()
    bq = as_seq(eng, s, buf)
    br, _ = seq_of(eng, s, buf)
    if bq is None:
        return None
    L = seqlen(bq)
    cnt = S((n, 'n'), 0, LENMAX)
    out = []
    if TT.assume(s.F, TT.cmp('Le', cnt, L), True):
        eng.store(s, br, mkseq(bq.ety, [('c', n, bq.ety, ZERO, cnt), ('c', ('@stale', n), bq.ety, ZERO, sub(L, cnt))]))
        v = cnt
        if addr:
            tt = targ(eng, vty, 0)
            v = mkagg(tt, 0, [cnt, eng.sym(eng.T[tt]['elems'][1], (n, 'peer'))])
        for klass, hyp in rxclasses(eng, st) or [(None, None)]:
            s2 = s.copy()
            if hyp is not None and not hyp(s2.F, n, cnt):
                continue
            s2.ev('recv', n, cnt, sock, c.fr.ctx, klass, L)
            out.append((s2, ok(vty, v)))
    return out


def poll_leaf(eng, c, st, r, f, pty, vty):
    k = f.args[0]
    out = []
    sel = eng.sel > 0
    kind = k
    if k in ('sleep', 'sleepuntil'):
        kind = ('sleep', f.args[2])
    if k == 'tick':
        kind = ('tick', f.args[1])
    if k == 'recvready':
        kind = 'recv'
    fr = c.fr
    # the operations below may have to wait
    if sel and k not in ('bind', 'connect'):
        s = st.copy()
        s.ev('pend', kind)
        out.append((s, mkagg(pty, 1, [])))
    if not sel and k not in ('bind', 'connect', 'send', 'sendto', 'sendready'):
        st.ev('wait', kind, st.bound, st.held)
    if st.held:
        eng.heldwaits.setdefault((k, tuple(x[0] for x in st.held)), (fr.body['path'], c.blk))

    def rdy(s, v):
        eng.store(s, r, opq('done'))
        out.append((s, ready(eng, pty, v)))

    def ioerr(s):
        return err(vty, eng.sym(targ(eng, vty, 1), site(c, 'ioerr')))
    if k == 'recv':
        _, sock, buf = f.args[:3]
        got = received(eng, c, st, sock, buf, len(f.args) > 3 and f.args[3] == 'from', vty)
        if got is None:
            return [(st, ready(eng, pty, eng.unknown(vty, fr, c.blk, 'recv buffer')))]
        for s2, v in got:
            rdy(s2, v)
        s = st.copy()
        s.ev('recverr', fr.ctx)
        rdy(s, ioerr(s))
        return out
    if k in ('recvready', 'sendready'):
        rdy(st.copy(), ok(vty, mkagg(targ(eng, vty), 0, [])))
        s = st.copy()
        if k == 'recvready':
            s.ev('recverr', fr.ctx)
        rdy(s, ioerr(s))
        return out
    if k in ('send', 'sendto'):
        payload, dst = f.args[2], f.args[3] if len(f.args) > 3 else None
        s = st.copy()
        s.ev('send', payload, dst, s.held, fr.ctx)
        rdy(s, ok(vty, seqlen(payload) if isinstance(payload, Seq) else eng.sym(targ(eng, vty), site(c, 'sent'))))
        s = st.copy()
        s.ev('senderr', payload, fr.ctx)
        rdy(s, ioerr(s))
        return out
    if k == 'bind':
        s = st.copy()
        n = eng.fresh(s, fr, c.blk, 'sock')
        s.ev('bind', n)
        rdy(s, ok(vty, opq('socket', n)))
        s = st.copy()
        rdy(s, ioerr(s))
        return out
    if k == 'connect':
        s = st.copy()
        s.ev('sockconnect', f.args[1])
        rdy(s, ok(vty, mkagg(targ(eng, vty), 0, [])))
        s = st.copy()
        rdy(s, ioerr(s))
        return out
    if k == 'lock':
        lid, cty, mref, style = f.args[1], f.args[2], f.args[3], f.args[4]
        rdy(st, acquire(eng, c, st, lid, cty, mref))
        return out
    if k == 'tx':
        chan, v = f.args[1], f.args[2]
        s = st.copy()
        s.ev('tx', chan, v, s.held, fr.ctx)
        rdy(s, ok(vty, mkagg(targ(eng, vty), 0, [])))
        s = st.copy()
        s.ev('txerr', chan, v, fr.ctx)
        rdy(s, ioerr(s))
        return out
    if k == 'rx':
        chan = f.args[1]
        n = eng.fresh(st, fr, c.blk, 'msg')
        m = eng.sym(targ(eng, vty), n)
        for klass, hyp in eng.msgclasses or [(None, None)]:
            s = st.copy()
            if hyp is not None and not hyp(s, m):
                continue
            s.ev('rx', chan, n, fr.ctx, klass)
            rdy(s, some(vty, m))
        s = st.copy()
        s.ev('rxclosed', chan)
        rdy(s, none(vty))
        return out
    if k in ('sleep', 'sleepuntil'):
        st.ev('slept', f.args[2], f.args[1].args[0] if isinstance(f.args[1], Opq) and f.args[1].args and isinstance(f.args[1].args[0], T) else None)
        rdy(st, mkagg(vty, 0, []))
        return out
    if k == 'tick':
        st.ev('tick', f.args[1])
        # an interval stays usable: do not mark done
        out.append((st, ready(eng, pty, eng.sym(vty, site(c, 'tick')))))
        return out
    if k == 'join':
        rdy(st, eng.sym(vty, site(c, 'join')))
        return out
    return [(st, ready(eng, pty, eng.unknown(vty, fr, c.blk, 'future ' + str(k))))]


def acquire(eng, c, st, lid, cty, mref):
    """take lock lid: its content is whatever the other tasks left there"""
    n = eng.fresh(st, c.fr, c.blk, 'lock')
    base = ('H', n)
    known = getattr(interp.AUTO, 'content', None)
    v = known(st, lid, cty) if known else None
    st.mem[base] = eng.sym(cty, n) if v is None else v
    st.ev('lock', lid, n, st.held)
    st.held = st.held + ((lid, n),)
    return opq('guard', lid, base, n)


def gty(eng, ty):
    """strip references / Arc"""
    while ty is not None:
        t = eng.T[ty]
        if t['k'] in ('ref', 'ptr'):
            ty = t['to']
        elif t['k'] == 'adt' and t['path'] in ('std::sync::Arc', 'std::boxed::Box') and t.get('args'):
            ty = t['args'][0]
        else:
            break
    return ty


@model('tokio::sync::Mutex::<T>::new', 'std::sync::Mutex::<T>::new', 'tokio::sync::RwLock::<T>::new', 'std::sync::RwLock::<T>::new')
def m_mutex_new(eng, c):
    c.st.ev('newlock', eng.T[targ(eng, c.destty)]['s'], c.args[0])
    return [(c.st, opq('mutex', targ(eng, c.destty)))]


@model('tokio::sync::Mutex::<T>::lock', 'tokio::sync::Mutex::<T>::lock_owned', 'tokio::sync::RwLock::<T>::write', 'tokio::sync::RwLock::<T>::read')
def m_lock(eng, c):
    ct = targ(eng, gty(eng, c.argtys[0]))
    return [(c.st, opq('fut', 'lock', eng.T[ct]['s'], ct, c.args[0], c.path.split('::')[-1]))]


@model('tokio::sync::Mutex::<T>::blocking_lock')
def m_blocking_lock(eng, c):
    ct = targ(eng, gty(eng, c.argtys[0]))
    return [(c.st, acquire(eng, c, c.st, eng.T[ct]['s'], ct, c.args[0]))]


@model('std::sync::Mutex::<T>::lock')
def m_std_lock(eng, c):
    ct = targ(eng, gty(eng, c.argtys[0]))
    s2 = c.st.copy()
    g = acquire(eng, c, c.st, eng.T[ct]['s'], ct, c.args[0])
    return [(c.st, ok(c.destty, g)), (s2, err(c.destty, opq('pure', 'poison')))]


@model('tokio::sync::Mutex::<T>::try_lock')
def m_try_lock(eng, c):
    ct = targ(eng, gty(eng, c.argtys[0]))
    s2 = c.st.copy()
    g = acquire(eng, c, c.st, eng.T[ct]['s'], ct, c.args[0])
    return [(c.st, ok(c.destty, g)), (s2, err(c.destty, eng.sym(targ(eng, c.destty, 1), site(c, 'trylock'))))]


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def m_deref(eng, c):
    v = eng.deref(c.st, c.args[0]) if isinstance(c.args[0], Ref) else None
    if isinstance(v, Opq) and v.kind == 'guard':
        return [(c.st, mkref(v.args[1]))]
    if isinstance(v, Opq) and v.kind == 'part':
        return NotImplemented
    for p in (c.rpath,):
        f = M.get(p)
        if f is not None and f is not m_deref:
            r = f(eng, c)
            if r is not NotImplemented:
                return r
    if isinstance(v, Ref) and ('Pin' in c.rpath or 'Arc' in c.rpath or 'Box' in c.rpath):
        return [(c.st, v)]
    return NotImplemented


@model('tokio::sync::mpsc::channel', 'tokio::sync::mpsc::unbounded_channel', 'tokio::sync::oneshot::channel')
def m_channel(eng, c):
    it = targ(eng, eng.T[c.destty]['elems'][0])
    ch = eng.T[it]['s']
    return [(c.st, mkagg(c.destty, 0, [opq('tx', ch), opq('rx', ch)]))]


def rxclasses(eng, st):
    auto = interp.AUTO
    if eng.rxclasses and auto is not None:
        return auto.rxclasses(st.auto, eng.rxclasses)
    return eng.rxclasses


def chan_of(eng, c):
    return eng.T[targ(eng, gty(eng, c.argtys[0]))]['s']


@model('tokio::sync::mpsc::Sender::<T>::send')
def m_tx(eng, c):
    return [(c.st, opq('fut', 'tx', chan_of(eng, c), c.args[1]))]


def listener(eng, st, a):
    """identity of a sender put there by an automaton, None: any other"""
    v = chase(eng, st, a)[1]
    return v.args[1] if isinstance(v, Opq) and v.kind == 'tx' and len(v.args) > 1 else None


@model('tokio::sync::mpsc::Sender::<T>::try_send', 'tokio::sync::mpsc::UnboundedSender::<T>::send', 'tokio::sync::mpsc::Sender::<T>::blocking_send')
def m_try_send(eng, c):
    st, ety, v = c.st, targ(eng, c.destty, 1), c.args[1]
    out = []
    who = listener(eng, st, c.args[0])
    kinds = ['full', 'closed'] if eng.T[ety].get('path', '').endswith('TrySendError') else ['closed']
    for i, k in enumerate(kinds):
        s = st.copy()
        if who is not None:
            s.ev('told', who, k)
        s.ev('txerr', chan_of(eng, c), v, c.fr.ctx, k + ' now')
        out.append((s, err(c.destty, mkagg(ety, i, [v]))))
    if who is not None:
        st.ev('told', who, 'ok')
    st.ev('tx', chan_of(eng, c), v, st.held, c.fr.ctx, 'now')
    return [(st, ok(c.destty, mkagg(targ(eng, c.destty), 0, [])))] + out


@model('tokio::sync::mpsc::Receiver::<T>::recv', 'tokio::sync::mpsc::UnboundedReceiver::<T>::recv')
def m_rx(eng, c):
    return [(c.st, opq('fut', 'rx', chan_of(eng, c)))]


@model('tokio::sync::mpsc::Receiver::<T>::try_recv', 'tokio::sync::mpsc::UnboundedReceiver::<T>::try_recv')
def m_try_rx(eng, c):
    chan, ety = chan_of(eng, c), targ(eng, c.destty, 1)
    n = eng.fresh(c.st, c.fr, c.blk, 'msg')
    m = eng.sym(targ(eng, c.destty), n)
    out = []
    for klass, hyp in eng.msgclasses or [(None, None)]:
        s = c.st.copy()
        if hyp is not None and not hyp(s, m):
            continue
        s.ev('rx', chan, n, c.fr.ctx, klass)
        out.append((s, ok(c.destty, m)))
    for i, e in enumerate(('rxempty', 'rxclosed')):
        s = c.st.copy()
        s.ev(e, chan)
        out.append((s, err(c.destty, mkagg(ety, i, []))))
    return out


@model('tokio::sync::mpsc::Receiver::<T>::is_empty', 'tokio::sync::mpsc::UnboundedReceiver::<T>::is_empty')
def m_rx_is_empty(eng, c):
    s = c.st.copy()
    s.ev('rxempty', chan_of(eng, c))
    return [(s, K(1)), (c.st, K(0))]


@model('tokio::sync::mpsc::Receiver::<T>::len', 'tokio::sync::mpsc::UnboundedReceiver::<T>::len')
def m_rx_len(eng, c):
    s = c.st.copy()
    s.ev('rxempty', chan_of(eng, c))
    c.st.ev('rxlen', chan_of(eng, c))
    return [(s, K(0)), (c.st, S(eng.fresh(c.st, c.fr, c.blk, 'len'), 1, LENMAX))]


@model('tokio::sync::mpsc::Receiver::<T>::close')
def m_rx_close(eng, c):
    return [(c.st, unit(eng, c))]


@model('tokio::sync::mpsc::Sender::<T>::is_closed')
def m_tx_closed(eng, c):
    who = listener(eng, c.st, c.args[0])
    if who is not None:
        s = c.st.copy()
        s.ev('told', who, 'is closed')
        c.st.ev('told', who, 'is open')
        return [(s, ONE), (c.st, ZERO)]
    return [(c.st, S(site(c, 'closed'), 0, 1))]


@model('tokio::sync::mpsc::Sender::<T>::capacity')
def m_tx_capacity(eng, c):
    s = c.st.copy()
    return [(s, ZERO), (c.st, S(site(c, 'capacity'), 1, (1 << 61) - 1))]


@model('tokio::time::interval', 'tokio::time::interval_at')
def m_interval(eng, c):
    n = eng.fresh(c.st, c.fr, c.blk, 'interval')
    d = c.args[-1]
    c.st.ev('interval', n, d.args[0] if isinstance(d, Opq) and d.kind == 'dur' else None)
    return [(c.st, opq('interval', n, d))]


@model('tokio::time::Interval::set_missed_tick_behavior', 'tokio::time::Interval::reset')
def m_missed(eng, c):
    if c.path.endswith('reset'):
        _, v = chase(eng, c.st, c.args[0])
        c.st.ev('tickreset', v.args[0] if isinstance(v, Opq) else None)
    return [(c.st, unit(eng, c))]


@model('tokio::time::Interval::tick')
def m_tick(eng, c):
    _, v = chase(eng, c.st, c.args[0])
    if isinstance(v, Opq) and v.kind == 'interval':
        return [(c.st, opq('fut', 'tick', v.args[0], v.args[1]))]
    return [(c.st, opq('fut', 'tick', ('unknown interval',), None))]


@model('tokio::time::sleep')
def m_sleep(eng, c):
    n = eng.fresh(c.st, c.fr, c.blk, 'sleep')
    d = c.args[0]
    c.st.ev('timer', n, d.args[0] if isinstance(d, Opq) and d.kind == 'dur' else d)
    return [(c.st, opq('fut', 'sleep', d, n))]


@model('tokio::time::sleep_until')
def m_sleep_until(eng, c):
    d = c.args[0]
    if isinstance(d, Opq) and d.kind == 'instant':
        return [(c.st, opq('fut', 'sleepuntil', opq('dur', d.args[1]) if isinstance(d.args[1], T) else d.args[1], d.args[0]))]
    n = eng.fresh(c.st, c.fr, c.blk, 'sleep')
    c.st.ev('timer', n, S(('?', 'deadline'), 0, INF))
    return [(c.st, opq('fut', 'sleepuntil', d, n))]


@model('tokio::time::timeout')
def m_timeout(eng, c):
    c.st.ev('limit', c.args[0].args[0] if isinstance(c.args[0], Opq) and c.args[0].kind == 'dur' else c.args[0])
    base = ('H', eng.fresh(c.st, c.fr, c.blk, 'tofut'))
    c.st.mem[base] = c.args[1]
    return [(c.st, opq('fut', 'timeout', c.args[0], mkref(base)))]


@model('tokio::time::timeout_at')
def m_timeout_at(eng, c):
    base = ('H', eng.fresh(c.st, c.fr, c.blk, 'tofut'))
    c.st.mem[base] = c.args[1]
    d = c.args[0]
    if isinstance(d, Opq) and d.kind == 'instant':
        d = opq('dur', d.args[1]) if isinstance(d.args[1], T) else d.args[1]
    else:
        c.st.ev('timer', base[1], S(('?', 'deadline'), 0, INF))
    return [(c.st, opq('fut', 'timeout', d, mkref(base)))]


@model('tokio::spawn', 'tokio::task::spawn')
def m_spawn(eng, c):
    f = c.args[0]
    eng.record_spawn(c, f)
    return [(c.st, opq('fut', 'join'))]


@model('tokio::task::yield_now')
def m_yield_now(eng, c):
    return [(c.st, opq('fut', 'ready', UNIT))]


@model('tokio::net::UdpSocket::bind')
def m_bind(eng, c):
    return [(c.st, opq('fut', 'bind', c.args[0]))]


@model('tokio::net::UdpSocket::connect')
def m_connect(eng, c):
    return [(c.st, opq('fut', 'connect', c.args[1]))]


@model('tokio::net::UdpSocket::local_addr', 'tokio::net::UdpSocket::peer_addr')
def m_local_addr(eng, c):
    _, v = chase(eng, c.st, c.args[0])
    key = (c.path.split('::')[-1], v.args[0] if isinstance(v, Opq) and v.args else getattr(v, 'name', 'socket'))
    return result_split(eng, c, S(site(c, 'hasaddr'), 0, 1), lambda s: eng.sym(targ(eng, c.destty), key))


def sockid(eng, st, v):
    r, x = chase(eng, st, v)
    if isinstance(x, Opq) and x.kind == 'socket':
        return x
    if isinstance(x, Sym):
        return x
    return r


@model('tokio::net::UdpSocket::recv')
def m_recv(eng, c):
    return [(c.st, opq('fut', 'recv', sockid(eng, c.st, c.args[0]), c.args[1]))]


@model('tokio::net::UdpSocket::recv_from')
def m_recv_from(eng, c):
    return [(c.st, opq('fut', 'recv', sockid(eng, c.st, c.args[0]), c.args[1], 'from'))]


@model('tokio::net::UdpSocket::send')
def m_send(eng, c):
    q = as_seq(eng, c.st, c.args[1])
    return [(c.st, opq('fut', 'send', sockid(eng, c.st, c.args[0]), q if q is not None else eng.unknown(None, c.fr, c.blk, 'send payload')))]


@model('tokio::net::UdpSocket::send_to')
def m_send_to(eng, c):
    q = as_seq(eng, c.st, c.args[1])
    return [(c.st, opq('fut', 'sendto', sockid(eng, c.st, c.args[0]), q if q is not None else eng.unknown(None, c.fr, c.blk, 'send payload'), c.args[2]))]


@model('tokio::net::UdpSocket::try_recv', 'tokio::net::UdpSocket::try_recv_from')
def m_try_recv(eng, c):
    got = received(eng, c, c.st, sockid(eng, c.st, c.args[0]), c.args[1], c.path.endswith('from'), c.destty)
    if got is None:
        return NotImplemented
    s = c.st.copy()
    return got + [(s, err(c.destty, eng.sym(targ(eng, c.destty, 1), site(c, 'nothing there'))))]


@model('tokio::net::UdpSocket::try_send', 'tokio::net::UdpSocket::try_send_to')
def m_try_send(eng, c):
    q = as_seq(eng, c.st, c.args[1])
    if q is None:
        q = eng.unknown(None, c.fr, c.blk, 'send payload')
    s = c.st.copy()
    c.st.ev('send', q, c.args[2] if len(c.args) > 2 else None, c.st.held, c.fr.ctx)
    s.ev('senderr', q, c.fr.ctx)
    return [(c.st, ok(c.destty, seqlen(q) if isinstance(q, Seq) else eng.sym(targ(eng, c.destty), site(c, 'sent')))),
            (s, err(c.destty, eng.sym(targ(eng, c.destty, 1), site(c, 'ioerr'))))]


@model('tokio::net::UdpSocket::readable', 'tokio::net::UdpSocket::writable')
def m_ready_sock(eng, c):
    return [(c.st, opq('fut', 'recvready' if c.path.endswith('readable') else 'sendready'))]


@prefix('tokio::net::UdpSocket::')
def m_sock_other(eng, c):
    op = c.path.split('::')[-1]
    if op.startswith(('set_', 'join_', 'leave_')):
        return result_split(eng, c, S(site(c, op), 0, 1), lambda s: mkagg(targ(eng, c.destty), 0, []))
    return NotImplemented


# ---------------------------------------------------------------- bitflags
@prefix('bitflags::')
def m_bitflags(eng, c):
    return [(c.st, eng.sym(c.destty, site(c, 'flags')))]


@model('std::intrinsics::bswap')
def m_bswap(eng, c):
    it = eng.int_ty(c.destty)
    bs = be_bytes(eng, c.st, c.args[0], it[0], it[1])
    return [(c.st, be_term(eng, c.st, bs[::-1], it[1]))]


@model('std::intrinsics::cold_path', 'std::intrinsics::assert_inhabited')
def m_nop(eng, c):
    return [(c.st, unit(eng, c))]


@model('std::intrinsics::saturating_add', 'std::intrinsics::saturating_sub')
def m_isat(eng, c):
    it = eng.int_ty(c.destty)
    a, b = c.args
    m = add(a, b) if c.path.endswith('add') else sub(a, b)
    lo, hi = trange(*it)
    out = []
    for s, v in eng.fork(c.st, TT.cmp('Lt', m, K(lo))):
        if v:
            out.append((s, K(lo)))
            continue
        for s2, v2 in eng.fork(s, TT.cmp('Gt', m, K(hi))):
            out.append((s2, K(hi) if v2 else m))
    return out


@model('std::iter::Iterator::size_hint')
def m_size_hint(eng, c):
    return NotImplemented


def install(eng):
    eng.models = dict(M)
    eng.prefix_models = list(PRE)


@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'core::ops::FnOnce::call_once', 'core::ops::FnMut::call_mut', 'core::ops::Fn::call')
def m_call_fn_item(eng, c):
    """function items (also tuple constructors) passed as values"""
    f = c.args[0]
    while isinstance(f, Ref):
        f = eng.deref(c.st, f)
    if isinstance(f, Opq) and f.kind == 'fn' and len(c.args) == 2 and isinstance(c.args[1], Agg):
        return eng.call_value(c.st, c.fr, c.blk, f, list(c.args[1].fs), c.destty)
    if isinstance(f, Agg) and f.ty is not None and eng.T[f.ty]['k'] == 'closure' and eng.T[f.ty].get('body') is not None and len(c.args) == 2 and isinstance(c.args[1], Agg):
        return eng.call_value(c.st, c.fr, c.blk, c.args[0], list(c.args[1].fs), c.destty)
    return NotImplemented
