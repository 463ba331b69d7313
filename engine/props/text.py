"""C37: device names"""
from .data import *
from ..models import str_of, chase
from .codec import decoded, byte, POS

NAME = 30


def octets(n, lo=1):
    return [S(('name', i), lo, 255) for i in range(n)]


def block(a, seq):
    """a device information block whose name field holds seq, everything else unknown"""
    t = [(i, t) for i, t in enumerate(a.eng.T) if t['k'] == 'adt' and t.get('local') and t['path'].endswith('::DeviceInformationDIB') and 'variants' in t]
    if not t:
        raise Missing('DeviceInformationDIB')
    i, t = t[0]
    fs = t['variants'][0]['fields']
    at_ = [k for k, f in enumerate(fs) if f['name'] == 'friendly_name']
    if not at_:
        raise Missing('field friendly_name of DeviceInformationDIB')
    vals = [a.eng.sym(f['ty'], ('f', f['name'])) for f in fs]
    vals[at_[0]] = seq
    return mkagg(i, 0, vals)


def c37(a):
    e8 = u8(a)
    a.eng.nh = a.eng.maxheads = 2 * NAME + 4     # loops over a name are followed element by element
    new = a.meth('DeviceInformationDIB', 'new')
    get = a.meth('DeviceInformationDIB', 'friendly_name')
    strs = [i for i, ty in enumerate(new['inputs']) if a.eng.T[ty]['s'].split('::')[-1] in ('String', '&str', 'str')]
    if not strs:
        raise Missing('name parameter of DeviceInformationDIB::new')

    def make(name, F=()):
        st = St()
        for t, v in F:
            TT.assume(st.F, t, v)
        args = [a.eng.sym(ty, ('a%d' % i,)) for i, ty in enumerate(new['inputs'])]
        args[strs[0]] = mkref(('C', name)) if a.eng.T[new['inputs'][strs[0]]]['k'] == 'ref' else name
        return call(a, new, args, st)
    K1, K2, K3 = ('device name: %s' % x for x in ('up to 30 characters are accepted', 'the field holds the characters and then NULs', 'the text is read back without the padding'))
    # names of every length up to 30, every character
    for k in range(NAME + 1):
        cs = octets(k, 0)
        for s, v in make(mkstr(('latin1', mkseq(e8, [('e', c) for c in cs])))):
            proved(a, K1, isok(v), 'a name of %d characters is refused' % k, s)
            if isok(v):
                got = fields(a, v.fs[0]).get('friendly_name')
                want = mkseq(e8, [('e', c) for c in cs] + [('e', ZERO)] * (NAME - k))
                proved(a, K2, veq(got, want, s.F, a.eng), 'for %d characters it holds %s' % (k, repr(got)[:100]), s)
    n = S('n', NAME + 1, 1 << 32)
    for s, v in make(mkstr(('latin1', mkseq(e8, [('c', 'chars', e8, ZERO, n)])))):
        proved(a, 'device name: more than 30 characters are refused', not isok(v), 'a longer name is accepted', s)
    t = mkstr(('text',))
    enc = O('encodable', (t,), 0, 1)
    for s, v in make(t, [(enc, False)]):
        proved(a, 'device name: characters outside ISO 8859-1 are refused', not isok(v), 'such a name is accepted', s)
    # reading: every length, every character other than NUL
    for k in range(NAME + 1):
        cs = octets(k)
        f = mkseq(e8, [('e', c) for c in cs] + [('e', ZERO)] * (NAME - k))
        for s, v in call(a, get, [block(a, f)]):
            a.count('lengths')
            if not isok(v):
                proved(a, K3, False, 'a name of %d characters is an error' % k, s)
                continue
            x = str_of(a.eng, s, v.fs[0])
            d = x.d if isinstance(x, Str) else None
            if isinstance(d, str):
                good = k == 0 and d == ''
            elif isinstance(d, tuple) and d[0] == 'latin1':
                good = veq(d[1], mkseq(e8, [('e', c) for c in cs]), s.F, a.eng)
            else:
                good = None
                s.taint = s.taint or '@text' in repr(d)      # put together in a way that is not followed
            proved(a, K3, good, 'a name of %d characters is read as %s' % (k, repr(d)[:100]), s)
    a.sample('names of 0 to 30 characters, any octets')


# ------------------------------------------------------------------ printed addresses
def piece(x):
    return mkstr(('fmt', tuple(x)))


def glue(ps):
    """pieces of a text with literal text joined: a tuple of str and (how, value)"""
    out = []
    for p in ps:
        if not isinstance(p, str) and p[0] in ('display', 'debug') and isinstance(p[1], T) and isk(p[1]):
            p = str(kv(p[1]))
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return tuple(out)


def pieces(x):
    """the pieces of a text value, None if it is not known"""
    if isinstance(x, Str):
        if isinstance(x.d, str):
            return (x.d,)
        if x.d[0] == 'fmt':
            return x.d[1]
        if x.d[0] == 'text' and len(x.d) == 2 and isinstance(x.d[1], T):
            return (('display', x.d[1]),)
    return None


def show(eng, c, how, v):
    """what printing one value yields: [(state, pieces)]"""
    st = c.st
    r, v = chase(eng, st, v)
    if how == 'display':
        ps = pieces(v)
        if ps is not None:
            return [(st, ps)]
    if isinstance(v, T):
        if any(x is not None and eng.T[x]['k'] == 'char' for x in c.callee.get('targs') or []):
            return [(st, (char(v),) if how == 'display' else (('@', how),))]
        return [(st, ((how, v),))]
    if isinstance(v, Agg) and v.ty is not None and how in ('display', 'debug'):
        for f in eng.fns:
            if f.get('self') == v.ty and f['key'] is not None and (f.get('trait') or '').endswith('fmt::' + how.capitalize()) and not f.get('derived'):
                b = ('H', ('shown', c.fr.ctx, c.fr.it, c.blk))
                st.mem[b] = piece(())
                if r is None:
                    r = mkref(('C', v))
                out = []
                for s, _ in eng.exec_call(st, c.fr, c.blk, eng.B[f['key']], [r, mkref(b)]):
                    ps = pieces(s.mem.get(b))
                    out.append((s, ps if ps is not None else (('@', how),)))
                return out
    return [(st, (('@', how),))]


def char(v):
    return chr(kv(v)) if isinstance(v, T) and isk(v) else ('display', v) if isinstance(v, T) else ('@', 'char')


def template(q):
    """the parts of a compiled format string: str, or the index of an argument, or None for one with options"""
    b = []
    for g in q.segs:
        if g[0] == 'r' and isk(g[2]):
            b += [kv(g[1])] * kv(g[2])
        elif g[0] != 'e' or not isk(g[1]):
            return None
        else:
            b.append(kv(g[1]))
    out, i, n = [], 0, 0
    while i < len(b) and b[i] != 0:
        x = b[i]
        i += 1
        if x < 0x80:
            out.append(bytes(b[i:i + x]).decode('utf8', 'replace'))
            i += x
        elif x == 0x80:
            k = b[i] + 256 * b[i + 1]
            out.append(bytes(b[i + 2:i + 2 + k]).decode('utf8', 'replace'))
            i += 2 + k
        else:
            o = bytes(b[i:i + (4 if x & 1 else 0) + (2 if x & 2 else 0) + (2 if x & 4 else 0)])
            i += len(o)
            if x & 8:
                n = b[i] + 256 * b[i + 1]
                i += 2
            out.append((n, o))
            n += 1
    return out


def strings(eng, c, name):
    """a text put together in a String"""
    st = c.st
    ref, cur = chase(eng, st, c.args[0]) if c.args else (None, None)
    if name in ('push_str', 'push', 'add', 'add_assign') and isinstance(cur, Str) and pieces(cur) is not None:
        _, x = chase(eng, st, c.args[1])
        ps = (char(x),) if name == 'push' else pieces(x)
        if ps is None:
            return NotImplemented
        new = piece(pieces(cur) + tuple(ps))
        if name == 'add':
            return [(st, new)]
        if ref is None:
            return NotImplemented
        eng.store(st, ref, new)
        return [(st, mkagg(c.destty, 0, []))]
    if name in ('join', 'concat') and isinstance(cur, Seq) and all(g[0] == 'e' for g in cur.segs):
        sep = ()
        if name == 'join':
            sep = pieces(chase(eng, st, c.args[1])[1])
        l = [pieces(chase(eng, st, g[1])[1]) for g in cur.segs]
        if sep is None or any(x is None for x in l):
            return NotImplemented
        out = ()
        for k, x in enumerate(l):
            out += (tuple(sep) if k else ()) + tuple(x)
        return [(st, piece(out))]
    if name == 'new' and not c.args and c.destty is not None and eng.T[c.destty].get('path') == 'std::string::String':
        return [(st, piece(()))]
    return NotImplemented


def fmt(eng, c):
    r = fmt1(eng, c)
    if r is NotImplemented and ('fmt' in c.path or 'fmt' in c.rpath) and c.callee.get('body') is None:
        # something not followed is done with the output: the text is unknown from here
        for x in c.args:
            ref, cur = chase(eng, c.st, x)
            if ref is not None and isinstance(cur, Str) and isinstance(cur.d, tuple) and cur.d[0] == 'fmt' and ref.base[0] == 'H':
                eng.store(c.st, ref, mkstr(('@text', c.fr.ctx, c.fr.it, c.blk)))
    return r


def fmt1(eng, c):
    """formatting followed piece by piece"""
    p, r = c.path, c.rpath
    st = c.st
    name = p.split('::')[-1]
    if 'string::String' in p + r or 'std::slice' in p or 'alloc::slice' in p or 'ToString' in p:
        return strings(eng, c, name)
    if 'fmt' not in p and 'fmt' not in r:
        return NotImplemented

    def okv():
        return mkagg(c.destty, 0, [mkagg(eng.T[c.destty]['args'][0] if eng.T[c.destty].get('args') else None, 0, [])])

    def ok_():
        return [(st, okv())]

    def write(ps):
        ref, cur = chase(eng, st, c.args[0])
        if not isinstance(cur, Str) or pieces(cur) is None or ref is None:
            return NotImplemented
        eng.store(st, ref, piece(pieces(cur) + tuple(ps)))
        return ok_()
    if '::Argument::' in p or '::Argument<' in p:
        if name.startswith('new_'):
            return [(s, piece(ps)) for s, ps in show(eng, c, name[4:], c.args[0])]
    if '::Arguments' in p:
        if name in ('from_str', 'new_const', 'from_str_nonconst'):
            _, s = chase(eng, st, c.args[0])
            if pieces(s) is not None:
                return [(st, s)]
        if name == 'new':
            _, q = chase(eng, st, c.args[0])
            _, xs = chase(eng, st, c.args[1])
            t = template(q) if isinstance(q, Seq) else None
            if t is not None and isinstance(xs, Seq) and all(g[0] == 'e' for g in xs.segs):
                out = []
                for x in t:
                    if isinstance(x, str):
                        out.append(x)
                        continue
                    ps = pieces(xs.segs[x[0]][1])
                    if ps is None:
                        out.append(('@', 'arg'))
                    elif x[1]:
                        out += [('spec', x[1], y) for y in ps]
                    else:
                        out += ps
                return [(st, piece(out))]
        return NotImplemented
    if name == 'format' and c.args:
        return [(st, c.args[0])] if pieces(c.args[0]) is not None else NotImplemented
    if name.startswith('debug_') and 'Formatter' in p:
        return write([('structure', name)])
    if name == 'write_fmt':
        ps = pieces(c.args[1])
        return write(ps) if ps is not None else NotImplemented
    if name in ('write_str', 'pad'):
        _, s = chase(eng, st, c.args[1])
        return write(pieces(s)) if pieces(s) is not None else NotImplemented
    if name == 'write_char':
        return write([char(c.args[1])])
    bi = c.callee.get('body')
    if bi is not None and bi < len(eng.B) and eng.B[bi] is not None:
        return eng.exec_call(st, c.fr, c.blk, eng.B[bi], c.args)
    if name == 'fmt' and ('Display' in p or 'Debug' in p):
        ref, cur = chase(eng, st, c.args[1])
        if isinstance(cur, Str) and pieces(cur) is not None and ref is not None:
            out = []
            for s, ps in show(eng, c, 'display' if 'Display' in p else 'debug', c.args[0]):
                eng.store(s, ref, piece(pieces(cur) + tuple(ps)))
                out.append((s, okv()))
            return out
    return NotImplemented


def c38(a):
    a.eng.fmt = fmt
    n = S('n', 0, 65535)
    for ty, ctor, sep, text, widths in (('IndividualAddress', 'individual', '.', True, (4, 4, 8)), ('Group3LevelAddress', 'group_3_level', '/', True, (5, 3, 8)),
                                        ('Group2LevelAddress', 'group_2_level', '/', False, (5, 11)), ('Group1LevelAddress', 'group_1_level', '/', False, (16,))):
        prints = []
        for how in ('Debug', 'Display'):
            try:
                prints.append((how, a.meth(ty, 'fmt', 'fmt::' + how)))
            except Missing:
                if how == 'Debug':
                    raise

        def check(st, v, want, made):
            for how, f in prints:
                if f.get('derived'):
                    proved(a, '%s: %s text' % (ty, how), False, 'prints the structure, not the notation', st)
                    continue
                for s, r in call(a, f, [v, piece(())], st):
                    s.taint = s.taint or st.taint
                    out = [x for b, x in s.mem.items() if b[0] == 'H' and b[1][:3] == ('arg', f['path'], 1)]
                    a.count('texts')
                    ps = pieces(out[-1]) if out else None
                    if ps is None or any(p[0] == '@' for p in ps if not isinstance(p, str)):
                        a.undecided('%s: %s text' % (ty, how), 'the text is put together in a way that is not followed')
                        continue
                    ps = glue(ps)
                    good = len(ps) == 2 * len(want) - 1
                    for k, p in enumerate(ps if good else ()):
                        if k % 2:
                            good = good and p == sep
                        else:
                            good = good and not isinstance(p, str) and p[0] in ('display', 'debug') and isinstance(p[1], T) and samebits(p[1], want[k // 2], 16, s.F)
                    proved(a, '%s: %s text' % (ty, how), bool(good), '%s, made %s, prints as %s' % (sep.join(map(repr, want)), made, ' '.join(map(repr, ps))), s)
                    proved(a, '%s: %s text, no error' % (ty, how), isok(r), 'printing fails', s)
                    a.sample('%s(%s) prints %s' % (ty, ', '.join(map(repr, want)), ' '.join(map(repr, ps))))
        parts = [S(('p', i), 0, (1 << w) - 1) for i, w in enumerate(widths)]
        for s, v in call(a, a.meth('KnxAddress', ctor), parts):
            if isinstance(v, Agg) and len(v.fs) == 1:
                check(s, v.fs[0], parts, 'from its parts')
        if not text:
            continue
        at_, fields_ = 16, []
        for w in widths:
            at_ -= w
            fields_.append(rem(div(n, 1 << at_, {}), 1 << w, {}))
        for s, v in call(a, a.meth(ty, 'from_u16'), [n]):
            check(s, v, fields_, 'from its number')
        s0 = mkstr(('text',))
        for s, v in call(a, a.meth(ty, 'try_from', 'TryFrom<&'), [mkref(('C', s0))]):
            if isok(v):
                check(s, v.fs[0], [S(('num', mkpart(s0, ('split', sep), K(i)))) for i in range(len(widths))], 'from text')


# ------------------------------------------------------------------ layout of the service frames
# kind: ('n', k) a number of k octets, ('b', k) k octets as they are, ('p', k) a structure of k octets with its own packet(), ('c',) a code,
# ('r',) all octets that follow up to the end of the structure, ('l', fields) a list of structures of 2 octets, ('m', mask) flags
N1, N2, HP, IP, IA = ('n', 1), ('n', 2), ('p', 8), ('b', 4), ('a',)
FRAMES = {
    'ConnectionResponse': dict(communication_channel_id=(6, N1), status=(7, N1), data_endpoint=(8, HP), crd=(16, ('p', 4))),
    'ConnectionstateRequest': dict(communication_channel_id=(6, N1), control_endpoint=(8, HP)),
    'ConnectionstateResponse': dict(communication_channel_id=(6, N1), status=(7, N1)),
    'DisconnectRequest': dict(communication_channel_id=(6, N1), control_endpoint=(8, HP)),
    'DisconnectResponse': dict(communication_channel_id=(6, N1), status=(7, N1)),
    'SearchRequest': dict(discovery_endpoint=(6, HP)),
    'SearchResponse': dict(control_endpoint=(6, HP)),
    'TunnelingRequest': dict(communication_channel_id=(7, N1), sequence_nr=(8, N1), cemi=(10, ('r',))),
    'TunnelingAck': dict(communication_channel_id=(7, N1), sequence_nr=(8, N1), status=(9, N1)),
    'FeatureResp': dict(communication_channel_id=(7, N1), sequence_nr=(8, N1), feature=(10, ('c',)), status=(11, N1), value=(12, N1)),
}
DIBS = {
    'DeviceInformationDIB': dict(structure_length=(0, N1), knx_medium=(2, ('c',)), knx_device_status=(3, ('m', 1)), knx_individual_address=(4, IA), project_installation_identifier=(6, N2),
                                 serial_number=(8, ('b', 6)), routing_multicast_address=(14, IP), mac_address=(18, ('b', 6)), friendly_name=(24, ('b', 30))),
    'SupportedServiceFamiliesDIB': dict(structure_length=(0, N1), service_families=(2, ('l', ('service_family', 'version')))),
    'IpConfigDIB': dict(structure_length=(0, N1), ip_address=(2, IP), subnet_mask=(6, IP), default_gateway=(10, IP), ip_capabilities=(14, N1), ip_assignment_method=(15, N1)),
    'IpCurrentConfigDIB': dict(structure_length=(0, N1), current_ip_address=(2, IP), current_subnet_mask=(6, IP), current_default_gateway=(10, IP), dhcp_server=(14, IP),
                               current_ip_assignment_method=(18, N1), reserved=(19, N1)),
    'KNXAddressesDIB': dict(structure_length=(0, N1), knx_individual_address=(2, IA), additional_individual_addresses=(4, ('l', None))),
    'ManufacturerDataDIB': dict(structure_length=(0, N1), knx_manufacturer_id=(2, N2), manufacturer_specific_data=(4, ('d',))),
}


def same8(x, y, F):
    return isinstance(x, T) and isinstance(y, T) and samebits(x, y, 8, F) is True


def big(bs):
    r = ZERO
    for b in bs:
        r = add(scale(r, 256), b)
    return r


def inner_seq(v):
    while isinstance(v, Agg) and len(v.fs) == 1:
        v = v.fs[0]
    return v if isinstance(v, Seq) else None


def layout(a, key, s, v, base, spec, end=None):
    fs = fields(a, v)
    o = lambda i: byte(add(base, i if isinstance(i, T) else K(i)))
    F = s.F
    for name, (off, kind) in spec.items():
        k = '%s %s' % (key, name)
        if name not in fs:
            a.undecided(k, 'no such field')
            continue
        x = fs[name]
        a.count('fields')
        if kind[0] in 'nm':
            while isinstance(x, Agg) and len(x.fs) == 1:
                x = x.fs[0]
        if kind[0] == 'n':
            w = kind[1]
            good = None if not isinstance(x, T) else samebits(x, big([o(off + i) for i in range(w)]), 8 * w, F) is True
        elif kind[0] == 'm':
            b = nbits(x, F, 8) if isinstance(x, T) else None
            good = None if b is None else b[0] == (o(off), 0)
        elif kind[0] == 'b':
            q = inner_seq(x)
            good = None if q is None else veq(q, mkseq(u8(a), [('e', o(off + i)) for i in range(kind[1])]), F, a.eng) or False
        elif kind[0] == 'c':
            vs = a.eng.T[x.ty]['variants'] if isinstance(x, Agg) else None
            d = vs[x.var].get('discr') if vs else None
            good = None if d is None else TT.eq(o(off), K(int(d)), F) is True
        elif kind[0] == 'a':
            good = True
            for s2, y in call(a, a.meth('IndividualAddress', 'to_u16'), [x], s):
                good = good and samebits(y, big([o(off), o(off + 1)]), 16, s2.F) is True
        elif kind[0] == 'p':
            good = True
            ty = a.eng.T[x.ty]['path'].split('::')[-1]
            for s2, q in call(a, a.meth(ty, 'packet'), [x], s):
                q = inner_seq(q)
                good = good and q is not None and veq(seqlen(q), K(kind[1]), s2.F, a.eng) is True
                for i in range(kind[1] if good else 0):
                    good = good and same8(at(a, s2, q, i), o(off + i), s2.F)
        elif kind[0] in ('r', 'd'):
            q = inner_seq(x)
            e_ = add(base, frombits([(o(5), i) for i in range(8)] + [(o(4), i) for i in range(8)]) if kind[0] == 'r' else o(0))
            good = None if q is None else seq_eq(q, mkseq(u8(a), [('c', IN, u8(a), add(base, K(off)), sub(e_, add(base, K(off))))]), F, a.eng) or False
        else:
            good = True
            n = ZERO
            for g in x.segs if isinstance(x, Seq) else ():
                es = [(g[1], n)] if g[0] == 'e' else [(g[3][0][1], add(n, g[1]))] if g[0] == 'l' and len(g[3]) == 1 and g[3][0][0] == 'e' else None
                if es is None:
                    good = None
                    break
                for y, i in es:
                    p = add(K(off), scale(i, 2))
                    if kind[1]:
                        ys = fields(a, y)
                        good = good and all(same8(ys.get(fn), o(add(p, K(j))), F) for j, fn in enumerate(kind[1]))
                    else:
                        for s2, z in call(a, a.meth('IndividualAddress', 'to_u16'), [y], s):
                            good = good and samebits(z, big([o(p), o(add(p, ONE))]), 16, s2.F) is True
                n = add(n, ONE if g[0] == 'e' else g[2])
            good = good if isinstance(x, Seq) else None
        if good is None:
            a.undecided(k, 'held in a form that is not followed: %s' % repr(x)[:100])
        else:
            proved(a, k, good, 'is %s instead of what is at octet %d' % (repr(x)[:160], off), s)


def c39(a):
    e8 = u8(a)
    for name, spec in sorted(FRAMES.items()):
        for s, v in decoded(a, name)[1]:
            layout(a, name, s, v, POS, spec)
    for s, v in decoded(a, 'DIB')[1]:
        x = v.fs[0]
        ty = a.eng.T[x.ty]['path'].split('::')[-1]
        if ty not in DIBS:
            a.undecided('DIB', 'unknown block %s' % ty)
            continue
        layout(a, ty, s, x, POS, DIBS[ty])

    # what is built
    def octets_of(s, v):
        out = []
        ty = a.eng.T[v.ty]['path'].split('::')[-1]
        return call(a, a.meth(ty, 'packet'), [v], s)

    def built(key, v, want, st=None):
        """want: function of the state giving segments"""
        for s, q in octets_of(st or St(), v):
            if isinstance(q, Agg):
                q = q.fs[0] if isok(q) else None
            w = mkseq(e8, want)
            good = isinstance(q, Seq) and seq_eq(q, w, s.F, a.eng)
            proved(a, key + ' octets', good, 'are %s instead of %s' % (repr(q)[:300], repr(w)[:300]), s)
            a.sample('%s -> %s' % (key, repr(q)[:200]))

    c = lambda *bs: [('e', K(b) if isinstance(b, int) else b) for b in bs]
    UDP = [8, 1, 0, 0, 0, 0, 0, 0]
    for ctor, want in (('udp', UDP), ('tcp', [8, 2, 0, 0, 0, 0, 0, 0])):
        for s, v in call(a, a.meth('HPAI', ctor), []):
            built('HPAI::' + ctor, v, c(*want), s)
    for ctor, code in (('tunnel', 2), ('busmonitor', 0x80)):
        for s, v in call(a, a.meth('ConnectionRequest', ctor), []):
            built('ConnectionRequest::' + ctor, v, c(6, 16, 2, 5, 0, 26, *(UDP + UDP + [4, 4, code, 0])), s)
    for ctor, code in (('tunnel_linklayer', 2), ('tunnel_raw', 4), ('tunnel_busmonitor', 0x80)):
        for s, v in call(a, a.meth('CRI', ctor), []):
            built('CRI::' + ctor, v, c(4, 4, code, 0), s)
    for s, v in call(a, a.meth('SearchRequest', 'udp'), []):
        built('SearchRequest::udp', v, c(6, 16, 2, 1, 0, 14, 8, 1, 224, 0, 23, 12, 0x0e, 0x57), s)
    # an endpoint read from octets stands for any endpoint
    hp = [(s, x) for s, x in decoded(a, 'HPAI')[1]]
    ch, seq, st_, val = (S((n,), 0, 255) for n in ('ch', 'seq', 'status', 'value'))
    for s, h in hp:
        hb = [8] + [byte(add(POS, K(i))) for i in range(1, 8)]
        h_addr = fields(a, h).get('address')
        if h_addr is not None:
            for s2, v in call(a, a.meth('SearchRequest', 'udp_unicast'), [h_addr], s):
                built('SearchRequest::udp_unicast', v, c(6, 16, 2, 1, 0, 14, 8, 1, *hb[2:]), s2)
        for name, svc in (('ConnectionstateRequest', 7), ('DisconnectRequest', 9)):
            for s2, v in call(a, a.meth(name, 'new'), [ch, h], s):
                built(name + '::new', v, c(6, 16, 2, svc, 0, 16, ch, 0, *hb), s2)
                if name == 'DisconnectRequest':
                    for s3, r in call(a, a.meth('DisconnectResponse', 'from_disconnect_request'), [v], s2):
                        built('DisconnectResponse::from_disconnect_request', r, c(6, 16, 2, 10, 0, 8, ch, 0), s3)
    for s, r in decoded(a, 'ConnectionResponse')[1]:
        o = [byte(add(POS, K(i))) for i in range(20)]
        for name, svc in (('ConnectionstateRequest', 7), ('DisconnectRequest', 9)):
            for s2, v in call(a, a.meth(name, 'from_connection_response'), [r], s):
                built(name + '::from_connection_response', v, c(6, 16, 2, svc, 0, 16, o[6], 0, 8, *o[9:16]), s2)
        for g, i in (('get_communication_channel_id', 6), ('get_status', 7)):
            for s2, v in call(a, a.meth('ConnectionResponse', g), [r], s):
                proved(a, 'ConnectionResponse::' + g, same8(v, o[i], s2.F), 'is %r' % (v,), s2)
        for s2, v in call(a, a.meth('ConnectionResponse', 'get_data_endpoint'), [r], s):
            built('ConnectionResponse::get_data_endpoint', v, c(8, *o[9:16]), s2)
    for s, v in call(a, a.meth('TunnelingAck', 'new'), [ch, seq, st_]):
        built('TunnelingAck::new', v, c(6, 16, 4, 0x21, 0, 10, 4, ch, seq, st_), s)
    m = S(('cemi', 'len'), 0, 60000)
    cemi = mkseq(e8, [('c', ('cemi',), e8, ZERO, m)])
    tot = add(m, K(10))
    for s, v in call(a, a.meth('TunnelingRequest', 'new'), [ch, seq, cemi]):
        built('TunnelingRequest::new', v, c(6, 16, 4, 0x20, div(tot, 256, {}), rem(tot, 256, {})) + c(4, ch, seq, 0) + list(cemi.segs), s)
    code = S(('code',), 0, 255)
    for s, f in call(a, a.meth('KnxIpFeature', 'try_from'), [code]):
        if isok(f):
            for s2, v in call(a, a.meth('FeatureSet', 'new'), [ch, seq, f.fs[0], val], s):
                built('FeatureSet::new', v, c(6, 16, 4, 0x24, 0, 13, 4, ch, seq, 0, code, 0, val), s2)
