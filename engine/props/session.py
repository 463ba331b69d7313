"""C10-C13, C16, C17: the background session task; typestate automata over its event histories"""
from ..core import *
from .. import terms as TT
from .. import interp
from .codec import samebits, eqk, at, word, word_is, seq_eq, veq
from .world import *

TUNNELLED = ('treq', 'treqbad', 'treqinfo', 'fresp')


# ---------------------------------------------------------------- reading events
def octet(auto, st, q, i):
    return at(auto.a, st, q, i) if isinstance(q, Seq) else None


def service(auto, st, q):
    """service identifier of a sent frame, None when not constant"""
    h, l = octet(auto, st, q, 2), octet(auto, st, q, 3)
    if isinstance(h, T) and isinstance(l, T):
        h, l = simp(h, st.F), simp(l, st.F)
        if isk(h) and isk(l):
            return kv(h) * 256 + kv(l)
    return None


def is_frame(auto, st, q, want):
    """are the octets of q exactly want (ints and terms)? True / False / None"""
    if not isinstance(q, Seq):
        return None
    r = TT.eq(seqlen(q), K(len(want)), st.F)
    if r is not True:
        return r
    out = True
    for i, w in enumerate(want):
        b = octet(auto, st, q, i)
        if not isinstance(b, T):
            return None
        if isinstance(w, int):
            w = K(w)
        r = samebits(b, w, 8, st.F)
        if r is False:
            return False
        if r is None:
            out = None
    return out


def ack_frame(n):
    return [6, 0x10, 4, 0x21, 0, 10, 4, db(n, 7), db(n, 8), 0]


def holds_endpoint(eng, ty, seen=()):
    """index path to the Option of a local struct with an endpoint in type ty"""
    t = eng.T[ty]
    if ty in seen or t['k'] != 'adt':
        return None
    if t['path'] == 'std::option::Option':
        x = eng.T[t['args'][0]]
        if x['k'] == 'adt' and x.get('local') and x.get('kind') == 'struct' and has_hpai(eng, t['args'][0]):
            return ()
        return None
    if t.get('local') and t.get('kind') == 'struct':
        for i, f in enumerate(t['variants'][0]['fields']):
            p = holds_endpoint(eng, f['ty'], seen + (ty,))
            if p is not None:
                return (i,) + p
    return None


def has_hpai(eng, ty):
    for f in eng.T[ty]['variants'][0]['fields']:
        if eng.T[f['ty']]['k'] == 'adt' and eng.T[f['ty']]['path'].endswith('::HPAI'):
            return True
    return False


_lk = {}


def session_lock(eng, lid):
    """path to the session option inside the content of lock lid, None: another lock"""
    k = (id(eng), lid)
    if k not in _lk:
        r = None
        for i, t in enumerate(eng.T):
            if t.get('s') == lid and t['k'] == 'adt':
                p = holds_endpoint(eng, i)
                if p is not None:
                    r = (i, p)
                    break
        _lk[k] = r
    return _lk[k]


def stored(eng, lid, v):
    """the session option inside the lock content v"""
    ty, p = session_lock(eng, lid)
    for i in p:
        if isinstance(v, Sym):
            v = eng.expand(v)
        if not isinstance(v, Agg):
            return None
        v = v.fs[i]
    return v


def option_ty(eng, lid):
    ty, p = session_lock(eng, lid)
    for i in p:
        ty = eng.T[ty]['variants'][0]['fields'][i]['ty']
    return ty


def original(eng, lid, name):
    """what the lock held when it was taken"""
    ty, p = session_lock(eng, lid)
    return stored(eng, lid, eng.sym(ty, name))


def some_of(eng, st, lid, v):
    """(is it there: True/False/None, the session data)"""
    oty = option_ty(eng, lid)
    if isinstance(v, Agg):
        return (v.var == 1), (v.fs[0] if v.var == 1 else None)
    if isinstance(v, Sym):
        r = TT.eq(eng.discr(st, v, oty), K(1), st.F)
        d = eng.sym(eng.T[oty]['args'][0], (v.name, 'v1', 0))
        return r, d
    return None, None


def parts(eng, lid, d):
    """(channel, sequence, endpoint) of session data d"""
    if isinstance(d, Sym):
        d = eng.expand(d)
    if not isinstance(d, Agg):
        return None, None, None
    ch = sq = ep = None
    fl = eng.T[d.ty]['variants'][0]['fields']
    u8s = [(f['name'], v) for f, v in zip(fl, d.fs) if eng.T[f['ty']]['s'] == 'u8']
    for nm, v in u8s:
        if 'seq' in nm or 'counter' in nm:
            sq = v
        elif ch is None:
            ch = v
    if sq is None and len(u8s) == 2:
        sq = u8s[1][1]
    for f, v in zip(fl, d.fs):
        if eng.T[f['ty']]['k'] == 'adt' and eng.T[f['ty']]['path'].endswith('::HPAI'):
            ep = v
    return ch, sq, ep


def leaf_syms(v):
    out = set()

    def walk(x):
        if isinstance(x, T):
            out.update(TT.syms(x))
        elif isinstance(x, Agg):
            for f in x.fs:
                walk(f)
        elif isinstance(x, Seq):
            for s in x.segs:
                for y in s[1:]:
                    walk(y)
        elif isinstance(x, Opq):
            for y in x.args:
                walk(y)
    walk(v)
    return out


class Task(Auto):
    """keeps whether the session is up; state = (up, ob)"""

    def init(self):
        return (False, ())

    def rxclasses(self, q, classes):
        # before a session is up only connect responses matter; 'other' is any datagram at all
        return classes if q[0] else [c for c in classes if c[0] in ('cr0', 'crE', 'other')]

    def step(self, st, e):
        if e[0] == 'lock' and not st.auto[0] and session_lock(self.eng, e[1]) is not None:
            # only the task itself establishes a session (C14 shows that the operations never do)
            o = original(self.eng, e[1], e[2])
            if isinstance(o, Sym):
                TT.assume(st.F, TT.cmp('Eq', self.eng.discr(st, o, option_ty(self.eng, e[1])), K(0)), True)
        return Auto.step(self, st, e)

    def on_unlock(self, q, st, e):
        _, lid, name, content = e
        if session_lock(self.eng, lid) is None:
            return
        v = stored(self.eng, lid, content)
        o = original(self.eng, lid, name)
        if v is o:
            return
        there, d = some_of(self.eng, st, lid, v)
        if isinstance(v, Agg) and there is False:
            return (False, self.cleared(q, st))
        if isinstance(v, Agg) and there:
            # a new session, or the old one with a changed counter
            ch, sq, ep = parts(self.eng, lid, d)
            och, osq, oep = parts(self.eng, lid, some_of(self.eng, st, lid, o)[1])
            if ch is not None and ch is och:
                return
            return (True, self.stored(q, st, lid, d))
        return

    def cleared(self, q, st):
        return ()

    def stored(self, q, st, lid, d):
        return ()

    def on_suspend(self, q, st, e):
        # the receive path is resumed later: that continuation is followed on its own
        return (q[0], ())


# ---------------------------------------------------------------- C10
class Ack(Task):
    prune = True

    def on_recv(self, q, st, e):
        up, ob = q
        n, klass = e[1], e[5]
        if ob and ob[0] == 'need':
            self.check(st, False, '%s: %s not acknowledged before the next datagram is read' % (self.root, LABEL[ob[2]]))
            return (up, ())
        if not up:
            return (up, ())
        if klass in TUNNELLED:
            return (up, ('need', n, klass))
        if klass in ('ack', 'cs0', 'csE'):
            return (up, ('quiet', None, klass))
        return (up, ())

    def on_recverr(self, q, st, e):
        up, ob = q
        if ob and ob[0] == 'need':
            self.check(st, False, '%s: %s not acknowledged before the next datagram is read' % (self.root, LABEL[ob[2]]))
        return (up, ())

    def on_tick(self, q, st, e):
        up, ob = q
        return (up, () if ob and ob[0] == 'quiet' else ob)

    on_slept = on_elapsed = on_tick

    def on_send(self, q, st, e):
        up, ob = q
        if not ob:
            return
        p = e[1]
        code = service(self, st, p)
        if ob[0] == 'quiet':
            self.check(st, False, '%s: %s answered with a frame' % (self.root, LABEL[ob[2]]), 'frame %r' % (code,))
            return
        if code == 0x0421 or code is None:
            k = '%s: acknowledgement of a %s' % (self.root, LABEL[ob[2]])
            if ob[0] == 'acked':
                self.check(st, False, k + ' is sent once', 'a second one is sent')
                return
            r = is_frame(self, st, p, ack_frame(ob[1]))
            self.check(st, r, k + ' echoes channel and sequence number with status 0', 'frame is %s' % show(p))
            return (up, ('acked', None, ob[2]))

    def on_senderr(self, q, st, e):
        up, ob = q
        if ob and ob[0] == 'need':
            r = is_frame(self, st, e[1], ack_frame(ob[1]))
            if r is not False:
                return (up, ('acked', None, ob[2]))

    def on_tx(self, q, st, e):
        up, ob = q
        if ob and ob[0] == 'need' and 'CEMI' in e[1]:
            self.check(st, False, '%s: telegram handed over before its acknowledgement' % self.root)

    def cleared(self, q, st):
        up, ob = q
        if ob and ob[0] == 'need':
            self.check(st, False, '%s: %s never acknowledged' % (self.root, LABEL[ob[2]]), 'the session ends instead')
        return ()

    def on_ret(self, q, st, e):
        self.cleared(q, st)


LABEL = {'treq': 'tunnelling request', 'treqbad': 'tunnelling request with undecodable content', 'treqinfo': 'tunnelling request with additional information',
         'fresp': 'feature response', 'ack': 'tunnelling ack', 'cs0': 'positive state response', 'csE': 'negative state response',
         'dreq': 'disconnect request', 'dresp': 'disconnect response', 'cr0': 'positive connect response', 'crE': 'negative connect response', 'other': 'datagram'}


def show(v):
    r = repr(v)
    import re
    r = re.sub(r'<@(\w+)[^<>]*?([\w.]+)>', r'<\1 \2>', r)
    return r[:300]


def both(a, cls, classes=SESSION):
    out = []
    for client in (True, False):
        rs = session(a, lambda root: cls(a, root), client, classes)
        if not rs:
            raise Missing('session task spawned by ' + ('UdpClient::connect' if client else 'UdpMonitor::connect'))
        for r in rs:
            a.sample('%s: %d block executions, %d event checks' % (r.auto.root, r.steps, sum(r.auto.seen.values())))
        out += rs
    a.assume += ASSUME
    return out


ASSUME = ['a suspended receive path owns its state: continuing it after another select branch ran has the same outcomes as an uninterrupted run',
          'lock contents at acquisition are arbitrary (any other task may have run)']


def witnessed(a, cls, rs, keys):
    """the obligations the automaton must have met at least once; otherwise the analysis did not see the behaviour"""
    for k in keys:
        hit = any(k in s for r in rs for s in r.auto.seen)
        if not hit:
            if any(r.budget or r.unmodelled for r in rs):
                a.undecided('not met: ' + k)
            else:
                a.ob(False, 'never happens: ' + k, 'no history of a session task contains it')


def c10(a):
    rs = both(a, Ack)
    witnessed(a, Ack, rs, ['acknowledgement of a %s echoes' % LABEL[k] for k in TUNNELLED])


# ---------------------------------------------------------------- C11
class Deliver(Task):
    prune = True

    def end(self, q, st, how):
        up, ob = q
        if ob and ob[0] == 'need':
            self.check(st, False, '%s: telegram not delivered' % self.root, how)
        if ob and ob[0] == 'bad' and how != 'the next datagram is read':
            self.check(st, False, '%s: session ends on a %s' % (self.root, LABEL[ob[2]]), how)

    def on_recv(self, q, st, e):
        up, ob = q
        self.end(q, st, 'the next datagram is read')
        if ob and ob[0] == 'need':
            return (up, ())
        n, klass = e[1], e[5]
        if ob and ob[0] == 'bad':
            self.check(st, True, '%s: session goes on after a %s' % (self.root, LABEL[ob[2]]))
        if not up:
            return (up, ())
        if klass == 'treq':
            return (up, ('need', n, klass))
        if klass in ('treqbad', 'treqinfo'):
            return (up, ('bad', n if klass == 'treqinfo' else None, klass))
        if klass in ('fresp', 'ack', 'cs0'):
            return (up, ('none', None, klass))
        return (up, ())

    def on_recverr(self, q, st, e):
        self.end(q, st, 'the next datagram is read')
        return (q[0], ())

    def on_senderr(self, q, st, e):
        # the session may end because it cannot answer
        return (q[0], ())

    def on_tick(self, q, st, e):
        return (q[0], ())

    def on_txerr(self, q, st, e):
        if len(e) > 4 and 'full' in e[4]:
            return q    # the consumer is only slow: the telegram is still owed
        return (q[0], ())

    def on_tx(self, q, st, e):
        up, ob = q
        if 'CEMI' not in e[1]:
            return
        if not ob:
            return
        k = self.root + ': '
        if ob[0] == 'done':
            self.check(st, False, k + 'telegram delivered once', 'it is delivered again')
            return
        if ob[0] == 'none' or ob[2] == 'treqbad':
            self.check(st, False, k + 'something delivered for a %s' % LABEL[ob[2]])
            return
        v, n = e[2], ob[1]
        r, why = cemi_of(self, st, v, n, ob[2] == 'treq')
        self.check(st, r, k + 'delivered message is the one of the %s' % LABEL[ob[2]], why)
        return (up, ('done', None, ob[2]))

    def cleared(self, q, st):
        self.end(q, st, 'the session is dropped')
        return ()

    def on_ret(self, q, st, e):
        self.end(q, st, 'the task ends')


def cemi_of(auto, st, v, n, plain):
    """is v the cEMI message in tunnelling request n?"""
    eng = auto.eng
    if not isinstance(v, Agg):
        return None, 'value %s' % show(v)
    f = {x['name']: y for x, y in zip(eng.T[v.ty]['variants'][v.var]['fields'], v.fs)}
    code, info = f.get('msg_code'), f.get('service_info')
    r = samebits(code, db(n, 10), 8, st.F) if isinstance(code, T) else None
    if r is not True:
        return r, 'message code is %s' % show(code)
    if not plain:
        return True, ''
    cnt = S((n, 'n'), 0, interp.LENMAX)
    u8 = eng.tyid('u8')
    want = mkseq(u8, [('c', n, u8, K(12), sub(cnt, K(12)))])
    r = seq_eq(info, want, st.F, eng) if isinstance(info, Seq) else None
    return r, 'service information is %s' % show(info)


def c11(a):
    rs = both(a, Deliver)
    witnessed(a, Deliver, rs, ['delivered message is the one of the tunnelling request', 'session goes on after a ' + LABEL['treqbad']])


# ---------------------------------------------------------------- C12
class Whole(Task):
    """ob: what is still owed for the datagram in hand"""

    def on_recv(self, q, st, e):
        up, ob = q
        if ob and ob[0] == 'susp':
            self.check(st, False, '%s: a %s taken from the socket is abandoned' % (self.root, LABEL[ob[1]]),
                       'suspended at %s with %s outstanding, then the receive path starts over' % (ob[3], ' and '.join(ob[2])))
        if not up:
            return (up, ())
        k = e[5]
        if k in ('treq', 'treqinfo'):
            return (up, ('open', k, ('acknowledgement', 'delivery')))
        if k in ('treqbad', 'fresp'):
            return (up, ('open', k, ('acknowledgement',)))
        if k == 'dreq':
            return (up, ('open', k, ('response',)))
        return (up, ())

    def on_recverr(self, q, st, e):
        return self.on_recv(q, st, ('recverr', None, None, None, None, None))

    def did(self, q, what):
        up, ob = q
        if ob and ob[0] == 'open' and what in ob[2]:
            left = tuple(x for x in ob[2] if x != what)
            return (up, ('open', ob[1], left) if left else ())

    def on_send(self, q, st, e):
        c = service(self, st, e[1])
        if c == 0x0421:
            return self.did(q, 'acknowledgement')
        if c == 0x020a:
            return self.did(q, 'response')

    def on_tx(self, q, st, e):
        return self.did(q, 'delivery')

    def on_suspend(self, q, st, e):
        up, ob = q
        if ob and ob[0] == 'open':
            self.check(st, True, '%s: suspension with a %s in hand' % (self.root, LABEL[ob[1]]))
            return (up, ('susp', ob[1], ob[2], e[1] if isinstance(e[1], str) else 'a wait'))


def c12(a):
    rs = both(a, Whole)
    witnessed(a, Whole, rs, ['suspension with a tunnelling request in hand'])


# ---------------------------------------------------------------- C13
class Bye(Task):
    def on_recv(self, q, st, e):
        up, ob = q
        self.owed(q, st, 'the next datagram is read')
        n, klass = e[1], e[5]
        if klass == 'dreq' and up:
            return (up, ('resp', n))
        if klass == 'dresp' and up:
            return (up, ('end',))
        return (up, ())

    def owed(self, q, st, how):
        up, ob = q
        k = self.root + ': '
        if not ob:
            return
        if ob[0] == 'resp':
            self.check(st, False, k + 'disconnect request not answered', how)
        if ob[0] == 'clear':
            self.check(st, False, k + 'session not dropped after a disconnect request', how)
        if ob[0] == 'end':
            self.check(st, False, k + 'session not dropped after a disconnect response', how)
        if ob[0] == 'ending' and how != 'the task ends':
            self.check(st, False, k + 'task goes on after a disconnect response', how)
        if ob[0] == 'again' and how == 'the task ends':
            self.check(st, False, k + 'session not re-established after a disconnect request', how)

    def on_recverr(self, q, st, e):
        self.owed(q, st, 'the next datagram is read')
        return (q[0], ())

    def on_send(self, q, st, e):
        up, ob = q
        c = service(self, st, e[1])
        k = self.root + ': '
        if ob and ob[0] == 'resp' and c in (0x020a, None):
            r = is_frame(self, st, e[1], [6, 0x10, 2, 0x0a, 0, 8, db(ob[1], 6), 0])
            self.check(st, r, k + 'disconnect response carries the channel of the request and status 0', 'frame is %s' % show(e[1]))
            return (up, ('clear', None))
        if ob and ob[0] == 'clear' and c == 0x020a:
            self.check(st, False, k + 'disconnect request answered once', 'a second response is sent')
        if c == 0x0205:
            if ob and ob[0] == 'again':
                self.check(st, True, k + 'connects again after a disconnect request')
                return (up, ())
            self.owed(q, st, 'a new connection is requested')
            return (up, ())

    def on_senderr(self, q, st, e):
        up, ob = q
        c = service(self, st, e[1])
        if ob and ob[0] == 'resp' and c in (0x020a, None):
            return (up, ('clear', None))
        if c == 0x0205 and ob and ob[0] == 'again':
            return (up, ())

    def cleared(self, q, st):
        up, ob = q
        k = self.root + ': '
        if ob and ob[0] == 'resp':
            self.check(st, False, k + 'disconnect request not answered', 'the session is dropped without a response')
        if ob and ob[0] == 'clear':
            self.check(st, True, k + 'session dropped after a disconnect request')
            return ('again',)
        if ob and ob[0] == 'end':
            self.check(st, True, k + 'session dropped after a disconnect response')
            return ('ending',)
        if ob and ob[0] in ('again', 'ending'):
            return ob
        return ()

    def on_suspend(self, q, st, e):
        if q[1] and q[1][0] in ('again', 'ending'):
            return
        return (q[0], ())

    def on_ret(self, q, st, e):
        up, ob = q
        self.owed(q, st, 'the task ends')
        if ob and ob[0] == 'ending':
            self.check(st, True, self.root + ': task ends after a disconnect response')


def c13(a):
    rs = both(a, Bye)
    witnessed(a, Bye, rs, ['disconnect response carries', 'session dropped after a disconnect request', 'session dropped after a disconnect response',
                           'connects again after a disconnect request', 'task ends after a disconnect response'])
    connected(a)


def connected(a):
    """the monitor claims to be connected exactly when a session is stored"""
    f = a.fn('UdpMonitor::is_connected')

    class Seen(Auto):
        def on_lock(self, q, st, e):
            if session_lock(self.eng, e[1]) is not None:
                return (e[1], e[2])

        def on_result(self, q, st, v):
            k = 'UdpMonitor::is_connected tells whether a session is stored'
            if not q:
                self.check(st, False, k, 'it does not look at the session')
                return
            o = original(self.eng, q[0], q[1])
            d = self.eng.discr(st, o, option_ty(self.eng, q[0]))
            there = TT.eq(d, K(1), st.F)
            v = simp(v, st.F) if isinstance(v, T) else v
            if there is None:
                self.check(st, samebits(v, d, 8, st.F) if isinstance(v, T) else None, k, 'result is %s' % show(v))
            else:
                self.check(st, eqk(v, 1 if there else 0, st.F), k, 'result is %s when a session is%s stored' % (show(v), '' if there else ' not'))
    operation(a, lambda root: Seen(a, root), f)


# ---------------------------------------------------------------- C16
class Shake(Task):
    """ob: state of the connect attempt: () idle, ('sent',), ('ok',n), ('maybe',n), ('failed',why), ('paused',); or ('drop',why) while up"""

    def on_send(self, q, st, e):
        up, ob = q
        if service(self, st, e[1]) == 0x0205:
            return self.attempt(q, st, ('sent',))

    def attempt(self, q, st, to):
        up, ob = q
        k = self.root + ': '
        self.check(st, not up, k + 'the old session is dropped before a new one is requested', 'a session is still stored')
        if ob and ob[0] in ('failed', 'sent'):
            self.check(st, False, k + 'pause before the next connect attempt', 'after: %s' % (ob[1] if len(ob) > 1 else 'no answer awaited'))
        else:
            self.check(st, True, k + 'pause before the next connect attempt')
        return (False, to)

    def on_senderr(self, q, st, e):
        up, ob = q
        c = service(self, st, e[1])
        if c == 0x0205:
            return self.attempt(q, st, ('failed', 'a failed attempt'))
        if c == 0x0207 and up:
            return (up, ('drop', 'heartbeat could not be sent'))

    def on_recv(self, q, st, e):
        up, ob = q
        n, klass = e[1], e[5]
        if up:
            self.dropped(q, st, 'the next datagram is read')
            return (up, ())
        if ob and ob[0] in ('sent', 'failed', 'maybe'):
            if klass == 'cr0':
                return (up, ('ok', n))
            if klass == 'other':
                return (up, ('maybe', n))
            return (up, ('failed', 'a failed attempt'))

    def dropped(self, q, st, how):
        up, ob = q
        if up and ob and ob[0] == 'drop':
            self.check(st, False, '%s: session dropped when %s' % (self.root, ob[1]), how)

    def on_tick(self, q, st, e):
        self.dropped(q, st, 'the next heartbeat comes')

    def on_recverr(self, q, st, e):
        up, ob = q
        if up:
            self.dropped(q, st, 'the next datagram is read')
            return (up, ('drop', 'receiving failed'))
        if ob and ob[0] in ('sent', 'maybe', 'failed'):
            return (up, ('failed', 'a failed attempt'))

    def on_elapsed(self, q, st, e):
        up, ob = q
        if not up and ob and ob[0] in ('sent', 'maybe'):
            return (up, ('failed', 'a failed attempt'))

    def on_slept(self, q, st, e):
        up, ob = q
        if not up and ob and ob[0] in ('failed', 'maybe', 'sent'):
            d = e[2]
            if isinstance(d, T):
                self.check(st, TT.truth(TT.cmp('Ge', d, K(100000000)), st.F), self.root + ': pause between attempts is at least 0.1 s', 'pause is %r ns' % (d,))
            return (up, ('paused',))

    def cleared(self, q, st):
        up, ob = q
        if up and ob and ob[0] == 'drop':
            self.check(st, True, '%s: session dropped when %s' % (self.root, ob[1]))
        return ob if ob and not up else ()

    def stored(self, q, st, lid, d):
        up, ob = q
        k = self.root + ': '
        if not ob or ob[0] not in ('ok', 'maybe'):
            self.check(st, False, k + 'a session is stored only after a positive connect response',
                       'last: %s' % (ob[1] if ob and ob[0] == 'failed' else ob[0] if ob else 'no connect attempt'))
            return ()
        n = ob[1]
        F = st.F
        r = all3([eqk(db(n, 2), 2, F), eqk(db(n, 3), 6, F), eqk(db(n, 7), 0, F)])
        self.check(st, r, k + 'a session is stored only after a positive connect response', 'the response is not known to be positive' + (' (the stored value is <?.>)' if tainted(d) else ''))
        ch, sq, ep = parts(self.eng, lid, d)
        self.check(st, samebits(ch, db(n, 6), 8, F) if isinstance(ch, T) else None, k + 'stored channel is the one of the response', 'channel is %s' % show(ch))
        want = {db(n, i) for i in range(10, 16)}
        got = leaf_syms(ep)
        self.check(st, (want <= got and got <= want | {db(n, 8), db(n, 9)}), k + 'stored endpoint is the one of the response', 'endpoint is %s' % show(ep))
        return ()

    def on_suspend(self, q, st, e):
        return

    def on_ret(self, q, st, e):
        up, ob = q
        k = self.root + ': '
        self.check(st, not up, k + 'no session is left stored when the task ends', 'it is')
        if ob and ob[0] in ('failed', 'sent', 'paused'):
            self.check(st, False, k + 'a failed attempt is retried', 'the task ends')


def all3(l):
    l = list(l)
    if any(x is False for x in l):
        return False
    return None if any(x is None for x in l) else True


def c16(a):
    rs = both(a, Shake)
    witnessed(a, Shake, rs, ['a session is stored only after a positive', 'stored channel', 'stored endpoint', 'pause before the next', 'session dropped when heartbeat',
                             'session dropped when receiving failed'])


# ---------------------------------------------------------------- C32
class Persist(Task):
    """the task tries on until told to stop; ob = (last input, ns waited without a session since the last attempt)"""
    LIMIT = 120 * 10 ** 9

    def init(self):
        return (False, ('', 0))

    def on_recv(self, q, st, e):
        up, (why, ns) = q
        return (up, (e[5] if up else '', ns))

    def kept(self, why):
        return why if why in ('dresp', 'gone') else ''

    def rxclasses(self, q, classes):
        return [c for c in classes if (c[0] == 'any') != q[0]]

    def sharp(self, q):
        return False

    def on_recverr(self, q, st, e):
        return (q[0], ('', q[1][1]))

    def on_txerr(self, q, st, e):
        if not (len(e) > 4 and 'full' in str(e[4])):
            return (q[0], ('gone', q[1][1]))

    def spend(self, q, st, d, what):
        up, (why, ns) = q
        if up:
            return
        k = self.root + ': without a session the next connect request follows within two minutes'
        if not isinstance(d, T):
            self.check(st, None, k, 'length of the %s is not known' % what)
            return
        lo, hi = TT.rng(simp(d, st.F), st.F)
        hi = self.LIMIT + 1 if hi is None else hi
        n = min(ns + hi, self.LIMIT + 1)
        if n > self.LIMIT:
            self.check(st, False, k, '%s of up to %s ns' % (what, hi))
            n = 0
        return (up, (why, n))

    def on_slept(self, q, st, e):
        return self.spend(q, st, e[2], 'pause')

    def on_elapsed(self, q, st, e):
        return self.spend(q, st, e[2], 'time limit')

    def on_wait(self, q, st, e):
        up, ob = q
        kind, bound = e[1], e[2]
        if not up and kind != 'lock' and not bound and not (isinstance(kind, tuple) and kind[0] in ('sleep', 'tick')):
            self.check(st, kind == 'send', self.root + ': without a session every wait is bounded', 'waits for %s alone' % (kind if isinstance(kind, str) else kind[0]))
        if kind != 'lock':
            return (up, (self.kept(ob[0]), ob[1]))

    def on_select(self, q, st, e):
        up, ob = q
        if not up and not e[2]:
            self.check(st, any(isinstance(x, tuple) and x[0] in ('sleep', 'tick') for x in e[1]), self.root + ': without a session every wait is bounded', 'waits for %s' % (e[1],))
        return (up, (self.kept(ob[0]), ob[1]))

    def on_send(self, q, st, e):
        up, (why, ns) = q
        if service(self, st, e[1]) == 0x0205:
            if not up:
                self.check(st, True, self.root + ': without a session the next connect request follows within two minutes')
            return (up, (why, 0))

    def on_senderr(self, q, st, e):
        up, (why, ns) = q
        if service(self, st, e[1]) == 0x0205:
            return (up, ('', 0))
        return (up, ('', ns))

    def cleared(self, q, st):
        return (self.kept(q[1][0]), 0 if q[0] else q[1][1])

    def stored(self, q, st, lid, d):
        return ('', 0)

    def on_suspend(self, q, st, e):
        return

    def on_ret(self, q, st, e):
        up, (why, ns) = q
        self.check(st, why in ('dresp', 'gone'), self.root + ': the task ends only after a disconnect response', 'it ends without one')


def unlike(i, v, pins):
    return hyp(4, None, pins, lambda F, n, cnt: TT.assume(F, TT.cmp('Eq', db(n, i), K(v)), False))


# disconnect responses, whatever else they hold, and the rest
ENDING = [('dresp', hyp(4, None, {2: 2, 3: 0x0a})), ('other service', unlike(3, 0x0a, {2: 2})), ('other family', unlike(2, 2, {})), ('short', hyp(0, 3, {})), ('any', None)]


def c32(a):
    rs = both(a, Persist, ENDING)
    witnessed(a, Persist, rs, ['the next connect request follows', 'the task ends only after'])


# ---------------------------------------------------------------- C17
class Alive(Task):
    """ob = (duty, kind of last input, last session lock)"""

    def __init__(self, a, root):
        Auto.__init__(self, a, root)
        self.iv, self.tm = {}, {}

    def init(self):
        return (False, ('', '', None))

    def on_interval(self, q, st, e):
        self.iv[e[1]] = e[2]
        # intervals may be named after renaming at a loop head
        return

    def on_timer(self, q, st, e):
        self.tm[e[1]] = e[2]

    def dur(self, table, name):
        if name in table:
            return table[name]
        for k, v in table.items():
            if k in names(name):
                return v
        return None

    def on_lock(self, q, st, e):
        if session_lock(self.eng, e[1]) is not None:
            return (q[0], (q[1][0], q[1][1], (e[1], e[2])))

    def on_select(self, q, st, e):
        up, (duty, last, lk) = q
        kinds = e[1]
        if not up:
            return
        k = self.root + ': '
        if any(x == 'recv' or x == 'tx' for x in kinds) or any(isinstance(x, tuple) and x[0] in ('tick', 'sleep') for x in kinds):
            ticks = [x for x in kinds if isinstance(x, tuple) and x[0] == 'tick']
            sleeps = [x for x in kinds if isinstance(x, tuple) and x[0] == 'sleep']
            if ticks:
                d = self.dur(self.iv, ticks[0][1])
                r = TT.truth(TT.cmp('Le', d, K(60 * 10 ** 9)), st.F) if isinstance(d, T) else None
                self.check(st, r, k + 'heartbeat interval is at most 60 s', 'interval is %r ns' % (d,))
            elif not sleeps:
                self.check(st, False, k + 'every wait of an open session can be ended by the heartbeat', 'waits for %s only' % (kinds,))
            else:
                d = self.dur(self.tm, sleeps[0][1])
                r = TT.truth(TT.cmp('Le', d, K(60 * 10 ** 9)), st.F) if isinstance(d, T) else None
                self.check(st, r, k + 'heartbeat interval is at most 60 s', 'interval is %r ns' % (d,))
        if duty == 'due':
            return (up, ('owed', last, lk))
        if duty == 'owed':
            self.check(st, False, k + 'each heartbeat sends a state request', 'the task waits again without sending one')
            return (up, ('', last, lk))

    def on_wait(self, q, st, e):
        up, (duty, last, lk) = q
        kind, bound = e[1], e[2]
        if up and kind != 'lock' and not bound:
            self.check(st, False, self.root + ': every wait of an open session can be ended by the heartbeat', 'waits for %s alone' % (kind if isinstance(kind, str) else kind[0]))

    def on_tick(self, q, st, e):
        up, (duty, last, lk) = q
        if up:
            if duty in ('due', 'owed'):
                self.check(st, False, self.root + ': each heartbeat sends a state request', 'the next heartbeat comes without one sent')
            self.kept(q, st, None)
            return (up, ('due', 'tick', None))

    def on_slept(self, q, st, e):
        up, (duty, last, lk) = q
        if up and self.eng.sel:
            return (up, ('due', 'tick', None))

    def on_tickreset(self, q, st, e):
        up, (duty, last, lk) = q
        if up and last not in ('', 'tick'):
            self.check(st, False, self.root + ': received traffic does not put off the heartbeat', 'the interval is restarted after a datagram')

    def kept(self, q, st, how):
        pass

    def on_recv(self, q, st, e):
        up, (duty, last, lk) = q
        k = self.root + ': '
        if not up:
            return (up, ('', '', None))
        if duty == 'owed':
            self.check(st, False, k + 'each heartbeat sends a state request', 'the next datagram is read without one sent')
        if duty == 'lost':
            self.check(st, False, k + 'session lost on a negative state response', 'the next datagram is read')
        if duty == 'keep':
            self.check(st, True, k + 'session kept on a positive state response')
        kl = e[5]
        return (up, ('lost' if kl == 'csE' else 'keep' if kl == 'cs0' else '', 'recv', None))

    def on_recverr(self, q, st, e):
        up, (duty, last, lk) = q
        if up and duty == 'owed':
            self.check(st, False, self.root + ': each heartbeat sends a state request', 'the next datagram is read without one sent')
        return (up, ('', 'recv', None))

    def on_send(self, q, st, e):
        up, (duty, last, lk) = q
        k = self.root + ': '
        if service(self, st, e[1]) == 0x0207 and up:
            if duty in ('due', 'owed'):
                self.check(st, True, k + 'each heartbeat sends a state request')
            if lk:
                o = original(self.eng, lk[0], lk[1])
                there, d = some_of(self.eng, st, lk[0], o)
                ch, sq, ep = parts(self.eng, lk[0], d)
                b = octet(self, st, e[1], 6)
                r = samebits(b, ch, 8, st.F) if isinstance(b, T) and isinstance(ch, T) else None
                self.check(st, r, k + 'state request carries the channel of the session', 'channel octet is %s' % show(b))
            return (up, ('', last, None))
        if service(self, st, e[1]) == 0x0205:
            if duty == 'keep':
                self.check(st, False, k + 'session kept on a positive state response', 'a new connection is requested')
            return (up, ('', '', None))

    def on_senderr(self, q, st, e):
        up, (duty, last, lk) = q
        return (up, ('', last, None))

    def cleared(self, q, st):
        up, (duty, last, lk) = q
        k = self.root + ': '
        if duty == 'lost':
            self.check(st, True, k + 'session lost on a negative state response')
        if duty == 'keep':
            self.check(st, False, k + 'session kept on a positive state response', 'it is dropped')
        return ('', '', None)

    def stored(self, q, st, lid, d):
        return ('', '', None)

    def on_suspend(self, q, st, e):
        up, (duty, last, lk) = q
        return (up, (duty if duty in ('due', 'owed') else '', last, lk))

    def on_ret(self, q, st, e):
        up, (duty, last, lk) = q
        if duty in ('lost', 'keep'):
            self.check(st, False, self.root + ': the task ends on a state response', '')


def c17(a):
    rs = both(a, Alive)
    witnessed(a, Alive, rs, ['heartbeat interval is at most 60 s', 'each heartbeat sends a state request', 'state request carries the channel', 'session lost on a negative',
                             'session kept on a positive'])
