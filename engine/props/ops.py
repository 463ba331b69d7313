"""C03, C08, C14, C15, C18-C24: request operations, discovery, locks; typestate automata over their event histories"""
import re
from ..core import *
from .. import terms as TT
from .. import interp
from .codec import samebits, eqk, at, seq_eq, veq, factbits, word_is, u8
from .data import isok, octs, tail
from .panics import judge
from .world import *
from .session import (octet, service, is_frame, session_lock, stored, option_ty, original, some_of, parts, leaf_syms, show, Task, all3, LABEL)

CLIENT = ['UdpClient::read_group_address_value', 'UdpClient::write_group_address_value', 'UdpClient::get_connection_status', 'UdpClient::disconnect']
MONITOR = ['UdpMonitor::disconnect', 'UdpMonitor::solecitate_group_read', 'UdpMonitor::write_group_address_value']
LOWER = ['UdpTransport::tunnel_req', 'UdpTransport::set_feature', 'UdpTransport::disconnect', 'UdpTransport::get_connectionstate',
         'UdpMonitorTransport::tunnel_req', 'UdpMonitorTransport::set_feature', 'UdpMonitorTransport::disconnect']


def requests(a):
    """the operations that talk to the device on an open session; the public types' ones must exist"""
    out = [a.fn(n) for n in CLIENT + MONITOR]
    for n in LOWER:
        f = a.have(n)
        if f and f['pub']:
            out.append(f)
    return out


def others(a, must=True):
    """every other public operation of the client and of the monitor"""
    known = set(CLIENT + MONITOR)
    plain = ['UdpMonitor::next_msg', 'UdpMonitor::is_connected', 'UdpMonitor::add_on_connect', 'UdpClient::search']
    out = [a.fn(n) for n in plain] if must else []
    for f in a.eng.fns:
        s = '::'.join(f['path'].split('::')[-2:])
        if f['key'] is None or not f['pub'] or f.get('derived') or '::transport::' not in f['path'] or s.split('::')[0] not in ('UdpClient', 'UdpMonitor'):
            continue
        if s not in known and s not in plain and s.split('::')[1] != 'connect':
            out.append(f)
    return out


def aside(eng, st, f, args):
    """evaluate f outside the history being followed"""
    keep = interp.AUTO, eng.memo, eng.sel, eng.steps, eng.root, eng.msgclasses, eng.rxclasses
    interp.AUTO, eng.memo, eng.sel, eng.msgclasses, eng.rxclasses = None, None, 0, None, None
    al, un, um, sp = eng.alarms, eng.undecided, eng.unmodelled, eng.spawned
    try:
        s = st.copy()
        s.trace = None
        vals = []
        for i, x in enumerate(args):
            if eng.T[f['inputs'][i]]['k'] == 'ref' and not isinstance(x, Ref):
                b = ('H', ('aside', f['path'], i))
                s.mem[b] = x
                x = mkref(b)
            vals.append(x)
        r = R.run_fn(eng, f, args=vals, st=s)
        return r.outs if not r.budget else []
    finally:
        interp.AUTO, eng.memo, eng.sel, eng.steps, eng.root, eng.msgclasses, eng.rxclasses = keep
        eng.alarms, eng.undecided, eng.unmodelled, eng.spawned = al, un, um, sp


# ---------------------------------------------------------------- C03
def c03(a):
    eng = a.eng
    n = 0
    for f in eng.fns:
        if f['key'] is None or not f.get('async') or not f['pub'] or f.get('derived') or '::transport::' not in f['path']:
            continue
        n += 1
        r = a.run(f)
        judge(a, f, r)
        for key, l in r.spawned.items():
            seen = set()
            for st, co in l:
                if co in seen:
                    continue
                seen.add(co)
                t = R.tracking(eng, Auto(a, ''), lambda: R.run_spawned(eng, f, key, st, co))
                a.count('background tasks')
                judge(a, dict(f, path=f['path'] + ' (session task)'), t)
    for m in CLIENT + MONITOR + ['UdpClient::connect', 'UdpClient::search', 'UdpMonitor::connect', 'UdpMonitor::next_msg', 'UdpMonitor::is_connected',
                                 'UdpMonitor::add_on_connect']:
        a.fn(m)
    if not a.cov.get('background tasks'):
        a.violation('no session task', 'connect leaves no background task')


# ---------------------------------------------------------------- C08
class Fresh(Auto):
    """nothing sent, queued or returned may hold octets the buffer had besides the datagram"""

    def on_recv(self, q, st, e):
        self.check(st, True, '%s: datagram received' % self.root)

    def on_send(self, q, st, e):
        self.clean(st, e[1], 'sent frame')

    def on_tx(self, q, st, e):
        self.clean(st, e[2], 'queued message')

    def clean(self, st, v, what):
        if isinstance(v, (T, V)):
            bad = isstale(v)
            self.check(st, not bad, '%s: %s depends only on the datagram' % (self.root, what), 'it holds octets of the buffer beyond the received ones')

    def on_unlock(self, q, st, e):
        self.clean(st, e[3], 'stored session')

    def on_result(self, q, st, v):
        self.clean(st, v, 'result')


def c08(a):
    got = 0
    runs = []
    for client in (True, False):
        runs += session(a, lambda root: Fresh(a, root), client)
    for n in ('UdpClient::get_connection_status', 'UdpMonitor::disconnect', 'UdpClient::search', 'UdpClient::disconnect'):
        runs.append(operation(a, lambda root: Fresh(a, root), a.fn(n)))
    for r in runs:
        for (fn, ctx), why in sorted(r.stale.items(), key=repr):
            a.violation('%s decides on octets the datagram does not have' % short(fn), 'in %s: %s' % (r.auto.root, str(why)[:160]))
        got += sum(v for k, v in r.auto.seen.items() if k.endswith('datagram received'))
    a.ob(True, 'no branch on octets beyond the datagram')
    if got < 4:
        a.violation('no datagram is received', 'the receive points of the transports are gone')


# ---------------------------------------------------------------- C35
class Room(Auto):
    """the buffer of every receive holds the largest frame devices send"""

    def on_recv(self, q, st, e):
        lo, hi = rng(e[6], st.F)
        self.check(st, lo >= 512, '%s: datagrams are received whole' % self.root, 'the buffer given to the socket has room for %s octets only' % (lo if lo == hi else '%d or more' % lo))


def c35(a):
    runs = []
    for client in (True, False):
        runs += session(a, lambda root: Room(a, root), client)
    for f in [a.fn('UdpClient::search')] + requests(a) + others(a, False):
        runs.append(operation(a, lambda root: Room(a, root), f))
    got = sum(v for r in runs for k, v in r.auto.seen.items() if k.endswith('datagrams are received whole'))
    if got < 4:
        a.violation('no datagram is received', 'the receive points of the transports are gone')


# ---------------------------------------------------------------- C14, C15
class Use(Auto):
    """q: acquisitions of the session lock ((lid, name, advance 0/1/None while held/'?', uses, old))"""

    def __init__(self, a, root, want):
        Auto.__init__(self, a, root)
        self.want = want                      # C14 or C15

    def c14(self, st, ok, key, text=''):
        if self.want == 'C14':
            self.check(st, ok, '%s: %s' % (self.root, key), text)

    def c15(self, st, ok, key, text=''):
        if self.want == 'C15':
            self.check(st, ok, '%s: %s' % (self.root, key), text)

    def on_lock(self, q, st, e):
        if session_lock(self.eng, e[1]) is not None:
            return (q + ((e[1], e[2], None, 0, False),))[-3:]

    def own(self, st, x):
        """(there, channel, sequence, endpoint) of the session when it was taken"""
        there, d = some_of(self.eng, st, x[0], original(self.eng, x[0], x[1]))
        return (there,) + parts(self.eng, x[0], d)

    def on_unlock(self, q, st, e):
        _, lid, name, content = e
        if session_lock(self.eng, lid) is None:
            return
        out = []
        for x in q:
            if x[0] == lid and x[1] == name and x[2] is None:
                v = stored(self.eng, lid, content)
                o = original(self.eng, lid, name)
                adv = 0
                if v is not o:
                    there0, ch0, sq0, ep0 = self.own(st, x)
                    there, d = some_of(self.eng, st, lid, v)
                    if there is False or there is None:
                        adv = 0 if there0 is False or v is o else 'gone'
                    elif there0 is False:
                        self.c15(st, False, 'no operation makes up a session', 'one is stored where none was')
                    else:
                        ch, sq, ep = parts(self.eng, lid, d)
                        self.c15(st, all3([samebits(ch, ch0, 8, st.F), veq(ep, ep0, st.F, self.eng)]), 'no operation changes channel or endpoint of the session',
                                 'channel %s, endpoint %s' % (show(ch), show(ep)))
                        if samebits(sq, sq0, 8, st.F) is True:
                            adv = 0
                        else:
                            r = samebits(sq, TT.wrap(add(sq0, K(1)), 8, False, st.F), 8, st.F)
                            self.c14(st, r, 'the counter advances by one modulo 256', 'from %s to %s' % (show(sq0), show(sq)))
                            adv = 1
                if x[3] and adv == 0:
                    self.c14(st, False, 'every tunnelled request advances the counter', 'the lock is released without it')
                x = x[:2] + (adv,) + x[3:]
            out.append(x)
        return tuple(out)

    def on_send(self, q, st, e):
        p = e[1]
        code = service(self, st, p)
        if code in (0x0420, 0x0422, 0x0424):
            return self.tunnelled(q, st, p)
        if code in (0x0207, 0x0209):
            return self.control(q, st, p, code)
        if code is None and self.want == 'C15':
            self.c15(st, False if isinstance(p, Seq) else None, 'what is sent is a known request', show(p))

    def on_senderr(self, q, st, e):
        return self.on_send(q, st, e)

    def pick(self, q, st, match):
        """the acquisition a frame was made from"""
        best, why = None, 'the session is not looked at'
        for x in reversed(q):
            there, ch, sq, ep = self.own(st, x)
            r = match(there, ch, sq, ep)
            if r is True:
                return x, there, True
            why = r
        return None, None, why

    def tunnelled(self, q, st, p):
        b7, b8 = octet(self, st, p, 7), octet(self, st, p, 8)
        x, there, why = self.pick(q, st, lambda t, ch, sq, ep: all3([samebits(b7, ch, 8, st.F), samebits(b8, sq, 8, st.F)]))
        k = 'request carries channel and sequence number of one stored session'
        if x is None:
            self.c15(st, False, k, 'channel octet %s, sequence octet %s' % (show(b7), show(b8)))
            y, _, _ = self.pick(q, st, lambda t, ch, sq, ep: samebits(b8, sq, 8, st.F))
            self.c14(st, y is not None, 'request carries the stored counter', 'sequence octet is %s' % show(b8))
            if y is None:
                return q
            x = y
        else:
            self.c15(st, True, k)
            self.c15(st, there, 'nothing is sent without a session', 'the session may be absent')
            self.c15(st, not x[4], 'request uses the session as it is now', 'it was read before an earlier wait')
            self.c14(st, True, 'request carries the stored counter')
        self.c14(st, x[3] == 0, 'each number is used once', 'a second request carries it')
        if x[2] == 0:
            self.c14(st, False, 'every tunnelled request advances the counter', 'the number was taken without it')
        elif x[2] == 1:
            self.c14(st, True, 'every tunnelled request advances the counter')
        return tuple(y[:3] + (y[3] + 1,) + y[4:] if y is x else y for y in q)

    def control(self, q, st, p, code):
        b6 = octet(self, st, p, 6)
        x, there, why = self.pick(q, st, lambda t, ch, sq, ep: samebits(b6, ch, 8, st.F))
        k = 'request carries the channel of the stored session'
        self.c15(st, x is not None, k, 'channel octet is %s' % show(b6))
        if x is None:
            return q
        self.c15(st, there, 'nothing is sent without a session', 'the session may be absent')
        self.c15(st, not x[4], 'request uses the session as it is now', 'it was read before an earlier wait')
        ep = self.own(st, x)[3]
        r = endpoint_at(self, st, p, 8, ep)
        self.c15(st, r, 'request carries the endpoint of the same session', 'endpoint octets are %s' % ', '.join(show(octet(self, st, p, i)) for i in range(10, 16)))
        return tuple(y[:3] + (y[3] + 1,) + y[4:] if y is x and x[2] != 1 else y for y in q)

    def old(self, q):
        return tuple(x[:4] + (True,) for x in q)

    def on_recv(self, q, st, e):
        return self.old(q)

    on_recverr = on_rx = on_rxclosed = on_slept = on_elapsed = on_tick = on_recv

    def on_result(self, q, st, v):
        for x in q:
            if x[2] == 1 and x[3] == 0:
                self.c14(st, False, 'the counter advances only for a request', 'a number is skipped')
        good = isok(v)
        if good and self.root.split('::', 2)[-1] in CLIENT + MONITOR + LOWER:
            self.c15(st, any(self.own(st, x)[0] is True for x in q), 'succeeds only with a session', 'it reports success without one')


def endpoint_at(auto, st, p, i, ep):
    """do the octets of p from i on encode the endpoint ep?"""
    eng = auto.eng
    f = auto.a.meth('HPAI', 'packet')
    outs = aside(eng, st, f, [ep])
    res = None
    for s, v in outs:
        if not isinstance(v, Seq):
            return None
        r = TT.eq(seqlen(v), K(8), s.F)
        for j in range(8):
            x, y = at(auto.a, s, v, j), octet(auto, s, p, i + j)
            r = all3([r, samebits(x, y, 8, s.F) if isinstance(x, T) and isinstance(y, T) else None])
        if r is not True:
            return r
        res = True
    return res


class Count(Task):
    """the session task: numbers of the tunnelled frames it sends itself and the counter it stores. ob = (sent so far, response)"""

    def init(self):
        return (False, (0, None))

    def on_recv(self, q, st, e):
        up, (n, r) = q
        if not up:
            return (up, (n, e[1]))

    def on_send(self, q, st, e):
        up, (n, r) = q
        c = service(self, st, e[1])
        k = self.root + ': '
        if c == 0x0205:
            return (up, (0, None))
        if c in (0x0420, 0x0422, 0x0424) and not up:
            b = octet(self, st, e[1], 8)
            self.check(st, eqk(b, n % 256, st.F) if isinstance(b, T) else None, k + 'requests before the session is stored count from 0',
                       'request %d carries %s' % (n, show(b)))
            return (up, (min(n + 1, 3), r))

    def on_senderr(self, q, st, e):
        return self.on_send(q, st, e)

    def stored(self, q, st, lid, d):
        up, (n, r) = q
        ch, sq, ep = parts(self.eng, lid, d)
        self.check(st, eqk(sq, n, st.F) if isinstance(sq, T) else None, self.root + ': a new session starts with the next unused number',
                   '%d requests sent, counter is %s' % (n, show(sq)))
        return (0, None)

    def cleared(self, q, st):
        return (0, None)

    def on_suspend(self, q, st, e):
        return


def chan_of_task(a):
    """C15 for the frames the session task sends before the session is stored"""
    class Chan(Count):
        def on_send(self, q, st, e):
            up, (n, r) = q
            c = service(self, st, e[1])
            if c in (0x0420, 0x0422, 0x0424) and not up:
                b = octet(self, st, e[1], 7)
                k = self.root + ': requests before the session is stored carry the channel of the connect response'
                self.check(st, samebits(b, db(r, 6), 8, st.F) if r and isinstance(b, T) else False, k, 'channel octet is %s' % show(b))
            if c == 0x0205:
                return (up, (0, None))

        def stored(self, q, st, lid, d):
            return (0, None)
    for client in (True, False):
        session(a, lambda root: Chan(a, root), client, CONNECT)


# while connecting only the kind of the answer matters
CONNECT = [x for x in SESSION if x[0] in ('cr0', 'crE', 'other')]


def c14(a):
    eng = a.eng
    for f in requests(a) + others(a, False):
        operation(a, lambda root: Use(a, root, 'C14'), f)
    seen = 0
    for client in (True, False):
        for t in session(a, lambda root: Count(a, root), client, CONNECT):
            seen += sum(1 for k in t.auto.seen if 'starts with the next' in k)
    if seen < 2:
        a.violation('no session is stored', 'the session task stores no session')


def c15(a):
    for f in requests(a) + others(a, False):
        operation(a, lambda root: Use(a, root, 'C15'), f)
    chan_of_task(a)


# ---------------------------------------------------------------- C18
LIMIT = 3600 * 10 ** 9


class Bounded(Auto):
    """q: True after a time limit ran out"""

    def init(self):
        return False

    def on_wait(self, q, st, e):
        kind, bound = e[1], e[2]
        k = kind if isinstance(kind, str) else kind[0]
        if k in ('recv', 'rx'):
            self.check(st, bound > 0, '%s: every wait for an answer has a time limit' % self.root, 'waits for the %s alone' % ('socket' if k == 'recv' else 'telegram queue'))

    def on_select(self, q, st, e):
        kinds, bound = e[1], e[2]
        ks = [x if isinstance(x, str) else x[0] for x in kinds]
        if 'recv' in ks or 'rx' in ks:
            self.check(st, bound > 0 or 'sleep' in ks, '%s: every wait for an answer has a time limit' % self.root, 'waits for %s' % ', '.join(map(str, ks)))

    def on_elapsed(self, q, st, e):
        self.check(st, True, '%s: every wait for an answer has a time limit' % self.root)
        d = e[2]
        if isinstance(d, int):
            d = K(d)
        if isinstance(d, T):
            self.check(st, TT.truth(TT.cmp('Le', d, K(LIMIT)), st.F), '%s: time limit is at most an hour' % self.root, 'limit is %r ns' % (d,))
        return True

    def on_send(self, q, st, e):
        return False

    on_recv = on_rx = on_recverr = on_send

    def on_result(self, q, st, v):
        if q:
            self.check(st, not isok(v), '%s: a missing answer is reported as an error' % self.root, 'it reports success')


class BoundedConnect(Task):
    def on_wait(self, q, st, e):
        up, ob = q
        kind, bound = e[1], e[2]
        k = kind if isinstance(kind, str) else kind[0]
        if not up and k in ('recv', 'rx'):
            self.check(st, bound > 0, '%s: the wait for the connect response has a time limit' % self.root, 'waits for the socket alone')

    def on_select(self, q, st, e):
        up, ob = q
        ks = [x if isinstance(x, str) else x[0] for x in e[1]]
        if not up and ('recv' in ks or 'rx' in ks):
            self.check(st, e[2] > 0 or 'sleep' in ks or 'tick' in ks, '%s: the wait for the connect response has a time limit' % self.root, 'waits for %s' % ', '.join(map(str, ks)))

    def on_elapsed(self, q, st, e):
        up, ob = q
        if not up:
            self.check(st, True, '%s: the wait for the connect response has a time limit' % self.root)
            d = e[2]
            if isinstance(d, int):
                d = K(d)
            if isinstance(d, T):
                self.check(st, TT.truth(TT.cmp('Le', d, K(LIMIT)), st.F), '%s: time limit is at most an hour' % self.root, 'limit is %r ns' % (d,))


def c18(a):
    eng = a.eng
    for n in CLIENT:
        operation(a, lambda root: Bounded(a, root), a.fn(n))
    seen = 0
    for client in (True, False):
        for t in session(a, lambda root: BoundedConnect(a, root), client, CONNECT):
            seen += len(t.auto.seen)
    if not seen:
        a.violation('no connect handshake', 'the session task waits for no connect response')
    # the time limits a new client is given
    r = a.run(a.fn('UdpClient::connect'))
    for s, v in r.outs:
        if isok(v):
            for d in durations(eng, v):
                ok = TT.truth(TT.cmp('Le', d, K(LIMIT // 10 ** 9)), s.F) if isinstance(d, T) else None
                a.ob(ok if ok is True or s.taint else False, 'UdpClient::connect: time limit of a new client is at most an hour', 'it is %s s' % show(d))


def durations(eng, v, depth=0):
    """seconds of the durations in v"""
    if isinstance(v, Opq) and v.kind in ('dur', 'duration'):
        x = v.args[0]
        if isinstance(x, int):
            x = K(x)
        yield TT.div(x, 10 ** 9, {}) if isinstance(x, T) else x
    elif isinstance(v, Agg) and depth < 6:
        for x in v.fs:
            yield from durations(eng, x, depth + 1)


# ---------------------------------------------------------------- C19
class Reader(Auto):
    """q: sockets bound by the operation itself"""

    def on_bind(self, q, st, e):
        return q + (e[1],)

    def on_recv(self, q, st, e):
        own = any(n in names(e[3]) for n in q) if isinstance(e[3], (T, V, tuple)) else False
        who = [short(x[0]).split('::{closure')[0] for x in e[4]]
        self.check(st, own, '%s receives from the session socket' % self.root, 'via ' + ' > '.join(dict.fromkeys(who)))

    def on_wait(self, q, st, e):
        self.check(st, True, '%s: waits' % self.root)


def c19(a):
    for f in requests(a) + others(a):
        operation(a, lambda root: Reader(a, root), f)
    for client in (True, False):
        f, r, tasks = spawned(a, client)
        a.ob(len(tasks) > 0, 'session task of ' + ('the client' if client else 'the monitor'), 'connect leaves no task that reads the socket')
        # connect itself must leave the reading to the task
        operation(a, lambda root: Reader(a, root), f)


# ---------------------------------------------------------------- C20
class Locks(Auto):
    """q: locks held by suspended parts of this task"""

    def __init__(self, a, root, edges, shared):
        Auto.__init__(self, a, root)
        self.edges, self.shared = edges, shared

    def on_lock(self, q, st, e):
        lid, held = e[1], [x[0] for x in e[3]]
        k = '%s: ' % self.root
        self.check(st, lid not in held, k + 'never waits for a lock it holds', 'takes %s twice' % lid)
        self.check(st, lid not in q, k + 'never waits for a lock held by a suspended part of itself', 'takes %s' % lid)
        for h in held:
            if h != lid:
                self.edges.setdefault((h, lid), self.root)

    def on_parked(self, q, st, e):
        return tuple(sorted(set(q) | set(e[1])))

    def on_unparked(self, q, st, e):
        return tuple(sorted(set(q) - set(e[1])))

    def waits(self, st, held, what):
        for x in held:
            if session_lock(self.eng, x[0]) is not None and self.state_only(x[0]):
                self.check(st, False, '%s: the session lock is free while waiting' % self.root, 'held while waiting for %s' % what)

    def state_only(self, lid):
        # a lock whose whole content is the session state (the operation lock around a transport is another one)
        return session_lock(self.eng, lid)[1] == ()

    def on_wait(self, q, st, e):
        k = e[1] if isinstance(e[1], str) else e[1][0]
        if k != 'lock':
            self.waits(st, e[3], k)
        self.check(st, True, '%s: the session lock is free while waiting' % self.root)

    def on_select(self, q, st, e):
        self.waits(st, e[3], 'several events')

    def on_elapsed(self, q, st, e):
        self.waits(st, st.held, e[1])

    def on_recv(self, q, st, e):
        self.waits(st, st.held, 'a datagram')

    on_recverr = on_recv

    def on_rx(self, q, st, e):
        self.waits(st, st.held, 'a telegram')

    on_rxclosed = on_rx

    def on_tx(self, q, st, e):
        if not str(e[-1]).endswith('now'):
            self.waits(st, st.held, 'room in an application queue')

    on_txerr = on_tx


def c20(a):
    eng = a.eng
    edges = {}
    for f in requests(a) + others(a) + [a.fn('UdpClient::connect'), a.fn('UdpMonitor::connect')]:
        operation(a, lambda root: Locks(a, root, edges, None), f)
    for client in (True, False):
        session(a, lambda root: Locks(a, root, edges, None), client, CONNECT)
    # one global order
    g = {}
    for (x, y) in edges:
        g.setdefault(x, set()).add(y)
    for x, y in sorted(edges):
        p = path_to(g, y, x)
        a.ob(p is None, 'lock order %s before %s' % (x, y), 'taken in this order in %s, but the other way round via %s' % (
            edges[(x, y)], ', '.join('%s -> %s in %s' % (u, v, edges[(u, v)]) for u, v in (p or []))))
    a.count('lock order edges', len(edges))
    if not edges:
        a.ob(True, 'no nested locks')


def path_to(g, x, y):
    todo, seen = [(x, [])], {x}
    while todo:
        u, p = todo.pop()
        if u == y:
            return p
        for v in g.get(u, ()):
            if v not in seen:
                seen.add(v)
                todo.append((v, p + [(u, v)]))
    return None


# ---------------------------------------------------------------- C21-C23: telegrams
CODES = {'con': 0x2e, 'ind': 0x29, 'busmon': 0x2b}


def msg_fields(eng, n):
    """(message code, octets of the service information) of the queued message n"""
    ty = [i for i, t in enumerate(eng.T) if t['k'] == 'adt' and t.get('path', '').endswith('::CEMI') and t.get('kind') == 'struct']
    if not ty:
        raise Missing('CEMI')
    v = eng.sym(ty[0], n)
    if isinstance(v, Sym):
        v = eng.expand(v)
    f = {x['name']: y for x, y in zip(eng.T[ty[0]]['variants'][0]['fields'], v.fs)}
    if 'msg_code' not in f or 'service_info' not in f:
        raise Missing('CEMI::msg_code / service_info')
    return f['msg_code'], f['service_info'], v


def code_of(eng, m):
    if isinstance(m, Sym):
        m = eng.expand(m)
    for x, y in zip(eng.T[m.ty]['variants'][0]['fields'], m.fs):
        if x['name'] == 'msg_code':
            return y
    raise Missing('CEMI::msg_code')


def classes(eng):
    out = []
    for k, c in CODES.items():
        def hyp(s, m, c=c):
            return TT.assume(s.F, TT.cmp('Eq', code_of(eng, m), K(c)), True)
        out.append((k, hyp))

    def other(s, m):
        t = code_of(eng, m)
        return all(TT.assume(s.F, TT.cmp('Eq', t, K(c)), False) for c in CODES.values())
    return out + [('other', other)]


MSGLABEL = {'con': 'confirmation', 'ind': 'indication', 'busmon': 'bus monitor indication', 'other': 'unknown message'}


class Telegram(Auto):
    """q = (requests sent, last input); last input: () / ('msg', name, class, ctx) / ('closed',) / ('late',) / ('failed',)"""

    def init(self):
        return (0, ())

    def k(self, s):
        return '%s: %s' % (self.root, s)

    def sharp(self, q):
        return bool(q[1]) and q[1][0] == 'msg'

    asks = False        # messages before the request are none of its business

    def on_rx(self, q, st, e):
        if self.asks and not q[0]:
            return
        self.skipped(q, st, e)
        return (q[0], ('msg', e[2], e[4], e[3]))

    def on_rxclosed(self, q, st, e):
        if not self.asks or q[0]:
            return (q[0], ('closed',))

    def on_elapsed(self, q, st, e):
        if not self.asks or q[0]:
            return (q[0], ('late',))

    def on_back(self, q, st, e):
        n, last = q
        if last and last[0] == 'msg' and tuple(last[3][:len(e[1])]) == tuple(e[1]):
            self.skip(q, st)
            return (n, ())
        if last and last[0] in ('closed', 'late', 'failed'):
            self.check(st, False, self.k('ends when %s' % WHY[last[0]]), 'it goes on waiting')
            return (n, ())

    def skipped(self, q, st, e):
        if q[1] and q[1][0] == 'msg':
            self.skip(q, st)

    def skip(self, q, st):
        pass

    def on_result(self, q, st, v):
        n, last = q
        good = isok(v)
        if last and last[0] != 'msg':
            self.check(st, not good, self.k('fails when %s' % WHY[last[0]]), 'it reports success')
            return
        self.result(q, st, v, good)

    # ---- the one request
    def on_send(self, q, st, e):
        n, last = q
        self.check(st, n == 0, self.k('sends one request'), 'a second frame is sent')
        self.request(st, e[1])
        return (min(n + 1, 2), last)

    def on_senderr(self, q, st, e):
        n, last = q
        self.check(st, n == 0, self.k('sends one request'), 'a second frame is sent')
        return (min(n + 1, 2), ('failed',))

    def apdus(self, st):
        raise NotImplementedError

    def request(self, st, p):
        if not isinstance(p, Seq):
            self.check(st, None, self.k('sends an L_Data request'), show(p))
            return
        b = [octet(self, st, p, i) for i in range(21)]
        F = st.F
        fix = [(0, 6), (1, 0x10), (2, 4), (3, 0x20), (6, 4), (9, 0), (10, 0x11), (11, 0)]
        self.check(st, all3(eqk(b[i], n, F) if isinstance(b[i], T) else None for i, n in fix), self.k('sends a tunnelled L_Data request'),
                   'octets are %s' % ', '.join(show(b[i]) for i, _ in fix))
        to16 = self.a.meth('KnxAddress', 'to_u16')
        addr = self.args[1]
        for s, d in aside(self.eng, st, to16, [addr]):
            r = word_is(b[16], b[17], d, s.F) if isinstance(d, T) else None
            self.check(s, r, self.k('request goes to the given address'), 'destination octets are %s %s' % (show(b[16]), show(b[17])))
        for s, want in self.apdus(st):
            r = seq_eq(octs(self.a, tail(p, 19)), want, s.F, self.eng)
            self.check(s, r, self.k('request carries ' + self.what), 'APDU octets are %s' % show(octs(self.a, tail(p, 19))))
            n = seqlen(want)
            self.check(s, TT.eq(b[18], sub(n, K(1)), s.F) if isinstance(b[18], T) else None, self.k('length octet of the request'), 'is %s' % show(b[18]))


WHY = {'closed': 'the telegram queue is closed', 'late': 'the time limit runs out', 'failed': 'the request cannot be sent'}


class Read(Telegram):
    asks = True
    what = 'the group value read service'

    def apdus(self, st):
        return [(st, octs(self.a, [('e', K(0)), ('e', K(0))]))]

    def octets(self, n):
        code, info, v = msg_fields(self.eng, n)
        return info

    def parts(self, st, n):
        info = self.octets(n)
        b = [at(self.a, st, info, i) for i in range(9)]
        return info, b, TT.frombits([tobits(b[8], 8)[6], tobits(b[8], 8)[7], tobits(b[7], 8)[0], tobits(b[7], 8)[1]])

    def decodable(self, st, n):
        """list of facts under which the indication is complete"""
        info, b, apci = self.parts(st, n)
        L = seqlen(info)
        out = []
        F = dict(st.F)
        if TT.assume(F, TT.cmp('Ge', L, K(9)), True):
            F1 = dict(F)
            if TT.assume(F1, TT.cmp('Le', b[6], K(1)), True):
                out.append(F1)
            F2 = dict(F)
            if TT.assume(F2, TT.cmp('Ge', b[6], K(2)), True) and TT.assume(F2, TT.cmp('Ge', L, add(b[6], K(8))), True):
                out.append(F2)
        return out

    def matching(self, st, n):
        """may the indication be a value sent to the address?"""
        info, b, apci = self.parts(st, n)
        to16 = self.a.meth('KnxAddress', 'to_u16')
        for s, d in aside(self.eng, st, to16, [self.args[1]]):
            for F in self.decodable(s, n):
                w = TT.frombits(tobits(b[5], 8) + tobits(b[4], 8))
                if not TT.assume(F, TT.cmp('Eq', d, w), True) or word_is(b[4], b[5], d, F) is False:
                    continue
                for x in (1, 2):
                    F3 = dict(F)
                    if TT.assume(F3, TT.cmp('Eq', apci, K(x)), True) and TT.eq(apci, K(x), F3) is not False:
                        return True
        return False

    def skip(self, q, st):
        n, last = q
        if last[2] == 'ind':
            self.check(st, not self.matching(st, last[1]), self.k('a value sent to the address is returned'), 'it may be skipped')
        else:
            self.check(st, True, self.k('%s is skipped' % MSGLABEL[last[2]]))

    def result(self, q, st, v, good):
        n, last = q
        if not last:
            self.check(st, not good, self.k('succeeds only with a telegram received'), 'it reports success before one is read')
            return
        if last[2] != 'ind':
            self.check(st, False, self.k('%s is skipped' % MSGLABEL[last[2]]), 'it ends the read')
            return
        m = last[1]
        info, b, apci = self.parts(st, m)
        F = st.F
        if not good:
            self.check(st, not self.decodable(st, m), self.k('an indication that does not match is skipped'), 'it ends the read with an error')
            return
        self.check(st, n == 1, self.k('sends one request'), 'none is sent')
        to16 = self.a.meth('KnxAddress', 'to_u16')
        for s, d in aside(self.eng, st, to16, [self.args[1]]):
            self.check(s, word_is(b[4], b[5], d, s.F), self.k('value returned was sent to the address'), 'destination is not known to be the address')
        lo, hi = TT.rng(simp(apci, F), F)
        self.check(st, lo >= 1 and hi <= 2, self.k('value returned is of a value telegram'), 'service may be %s to %s' % (lo, hi))
        val = v.fs[0]
        c = [g for g in info.segs if g[0] == 'c'][0]
        for lo, hi, want in ((0, 1, [('e', TT.bitop('BitAnd', b[8], K(0x3f), 8, False, {}))]), (2, 255, [('c', c[1], c[2], add(c[3], K(9)), sub(b[6], K(1)))])):
            F1 = dict(F)
            if not TT.assume(F1, TT.cmp('Ge', b[6], K(lo)), True) or not TT.assume(F1, TT.cmp('Le', b[6], K(hi)), True):
                continue
            if TT.eq(b[6], K(0), F1) is False and hi == 1:
                TT.assume(F1, TT.cmp('Eq', b[6], K(1)), True)
            s1 = st.copy()
            s1.F = F1
            r = seq_eq(val, octs(self.a, want), F1, self.eng) if isinstance(val, Seq) else None
            self.check(s1, r, self.k('value returned is the payload of the telegram'), 'returns %s' % show(val))


class Write(Telegram):
    asks = True
    what = 'the group value write service and the payload'

    def apdus(self, st):
        data, small = self.args[2], self.args[3]
        n = seqlen(data)
        E = lambda x: ('e', K(x) if isinstance(x, int) else x)
        d0 = self.eng.sym(u8(self.a), (data.segs[0][1], ZERO))
        lo6 = TT.bitop('BitAnd', d0, K(0x3f), 8, False, {})
        for sm in (0, 1):
            s = st.copy()
            if not TT.assume(s.F, TT.cmp('Eq', small, K(sm)), True):
                continue
            if not sm:
                yield s, octs(self.a, [E(0), E(0x80)] + list(data.segs))
                continue
            for empty in (True, False):
                s1 = s.copy()
                if TT.assume(s1.F, TT.cmp('Eq', n, K(0)), empty):
                    yield s1, octs(self.a, [E(0), E(0x80) if empty else E(add(K(0x80), lo6))])

    def skip(self, q, st):
        n, last = q
        self.check(st, last[2] != 'con', self.k('confirmation ends the write' if last[2] == 'con' else '%s is skipped' % MSGLABEL[last[2]]), 'it is skipped')

    def result(self, q, st, v, good):
        n, last = q
        if not last:
            self.check(st, not good, self.k('succeeds only with a confirmation'), 'it reports success before one is read')
            return
        if last[2] != 'con':
            self.check(st, False, self.k('%s is skipped' % MSGLABEL[last[2]]), 'it ends the write')
            return
        code, info, _ = msg_fields(self.eng, last[1])
        b0 = at(self.a, st, info, 0)
        F = st.F
        bit = simp(TT.frombits([tobits(b0, 8)[0]]), F)
        if good:
            self.check(st, n == 1, self.k('sends one request'), 'none is sent')
            self.check(st, TT.eq(bit, K(0), F), self.k('succeeds only with a positive confirmation'), 'the confirmation may be negative')
            self.check(st, TT.truth(TT.cmp('Ge', seqlen(info), K(6)), F), self.k('succeeds only with a complete confirmation'), 'it may be cut off')
        else:
            F1 = dict(F)
            bad = TT.assume(F1, TT.cmp('Ge', seqlen(info), K(6)), True) and TT.assume(F1, TT.cmp('Eq', bit, K(0)), True)
            self.check(st, not bad, self.k('a positive confirmation is success'), 'it is reported as an error')


class Later(Auto):
    """answers are taken from what arrives after the request; q = (queue seen empty, requests sent, message in hand)"""

    def init(self):
        return (False, 0, None)

    def k(self, s):
        return '%s: %s' % (self.root, s)

    def on_lock(self, q, st, e):
        if not e[3]:                # the operation waits for its turn: others may run and leave something
            return (False,) + q[1:]

    def on_rxempty(self, q, st, e):
        return (True,) + q[1:]

    on_rxclosed = on_rxempty

    def on_rxlen(self, q, st, e):
        return ('len',) + q[1:]

    def on_rx(self, q, st, e):
        return ('some' if q[0] == 'len' else q[0],) + (q[1], e[2])

    def on_send(self, q, st, e):
        self.check(st, {True: True, 'some': None}.get(q[0], False), self.k('what waits in the queue is dropped before the request is sent'), 'telegrams received earlier may still wait there and be taken as the answer')
        return (q[0], min(q[1] + 1, 2), None)

    def on_result(self, q, st, v):
        if isok(v):
            self.check(st, q[1] > 0 and q[2] is not None, self.k('succeeds only with a telegram taken after the request'), 'none was taken since')


def c33(a):
    for n in ('UdpClient::read_group_address_value', 'UdpClient::write_group_address_value'):
        t = operation(a, lambda root: Later(a, root), a.fn(n))
        need(a, t, ['dropped before the request', 'taken after the request'])


class Push(Telegram):
    """monitor requests: only sent, not answered"""

    def result(self, q, st, v, good):
        self.check(st, not good or q[0] == 1, self.k('succeeds only when the request was sent'), 'it was not')


class PushRead(Push):
    what, apdus = Read.what, Read.apdus


class PushWrite(Push):
    what, apdus = Write.what, Write.apdus


def telegram(a, cls, name):
    """the operation for every kind of address"""
    eng = a.eng
    f = a.fn(name)
    kinds = [None]
    for i, ty in enumerate(f['inputs']):
        t = eng.T[ty]
        if t['k'] == 'adt' and t.get('path', '').endswith('::KnxAddress'):
            kinds = [(i, mkagg(ty, j, [eng.sym(x['ty'], ('addr', j)) for x in var['fields']])) for j, var in enumerate(t['variants'])]
    last = None
    for kd in kinds:
        args = [eng.sym(ty, ('a%d' % i,)) for i, ty in enumerate(f['inputs'])]
        if kd:
            args[kd[0]] = kd[1]

        def mk(root):
            x = cls(a, root)
            x.args = args
            return x

        def pre(s, args):
            for x in args[2:]:
                if isinstance(x, Seq):
                    TT.assume(s.F, TT.cmp('Le', seqlen(x), K(253)), True)
        last = operation(a, mk, f, msgs=classes(eng), pre=pre, args=args)
    return last


def c21(a):
    t = telegram(a, Read, 'UdpClient::read_group_address_value')
    need(a, t, ['value returned is the payload', 'value returned was sent to', 'confirmation is skipped', 'fails when the telegram queue', 'fails when the time limit'])
    telegram(a, PushRead, 'UdpMonitor::solecitate_group_read')


def c22(a):
    t = telegram(a, Write, 'UdpClient::write_group_address_value')
    need(a, t, ['succeeds only with a positive', 'indication is skipped', 'fails when the telegram queue', 'fails when the time limit'])
    telegram(a, PushWrite, 'UdpMonitor::write_group_address_value')


def need(a, t, keys):
    """the situation a rule is about must occur at all"""
    for k in keys:
        if t.budget:
            continue
        if not any(k in x for x in t.auto.seen):
            a.violation('%s: %s' % (t.auto.root, k), 'no history of the operation gets there')


# ---------------------------------------------------------------- C23
class Next(Telegram):
    def on_send(self, q, st, e):
        pass

    on_senderr = on_send

    def on_wait(self, q, st, e):
        n, last = q
        if last and last[0] == 'msg' and last[2] in ('ind', 'busmon'):
            self.check(st, False, self.k('an indication in hand is returned at once'), 'it waits again first, where a caller may give up')

    def skip(self, q, st):
        n, last = q
        self.check(st, last[2] in ('con', 'other'), self.k('%s is %s' % (MSGLABEL[last[2]], 'skipped' if last[2] in ('con', 'other') else 'returned')), 'it is skipped')

    def result(self, q, st, v, good):
        n, last = q
        if not last:
            self.check(st, not good, self.k('returns only what was queued'), 'it returns before a message is read')
            return
        if last[2] in ('con', 'other'):
            self.check(st, False, self.k('%s is skipped' % MSGLABEL[last[2]]), 'it ends the wait')
            return
        f = self.a.meth('LDataInd', 'from_cemi')
        k = self.k('%s is returned decoded' % MSGLABEL[last[2]])
        for s, w in aside(self.eng, st, f, [msg_fields(self.eng, last[1])[2]]):
            if isok(w) != good:
                self.check(s, False, k if good else self.k('%s that decodes is no error' % MSGLABEL[last[2]]), 'it is reported as an error' if not good else 'it does not decode')
            elif good:
                self.check(s, veq(v.fs[0], w.fs[0], s.F, self.eng), k, 'returns %s' % show(v.fs[0]))


def c23(a):
    t = telegram(a, Next, 'UdpMonitor::next_msg')
    need(a, t, ['indication is returned decoded', 'bus monitor indication is returned decoded', 'confirmation is skipped', 'unknown message is skipped', 'fails when the telegram queue'])


# ---------------------------------------------------------------- C24
class Find(Auto):
    """q = (sent, timers (name, made after a datagram), datagram in hand, responses before it, over, socket)"""

    def init(self):
        return (0, (), None, None, False, None)

    def k(self, s):
        return '%s: %s' % (self.root, s)

    def sharp(self, q):
        return q[2] is not None

    def on_bind(self, q, st, e):
        return q[:5] + (e[1],)

    def on_send(self, q, st, e):
        p, dst = e[1], e[2]
        F = st.F
        self.check(st, q[0] == 0, self.k('sends one search request'), 'a second frame is sent')
        if not isinstance(p, Seq):
            self.check(st, None, self.k('sends a search request'), show(p))
            return
        b = [octet(self, st, p, i) for i in range(14)]
        fix = [(0, 6), (1, 0x10), (2, 2), (3, 1), (4, 0), (5, 14), (6, 8), (7, 1)]
        self.check(st, all3([TT.eq(seqlen(p), K(14), F)] + [eqk(b[i], n, F) if isinstance(b[i], T) else None for i, n in fix]), self.k('sends a search request'),
                   'octets are %s' % ', '.join(show(b[i]) for i, _ in fix))
        d = flat(dst)
        r = [kv(simp(x, F)) if isinstance(x, T) and isk(simp(x, F)) else None for x in d]
        self.check(st, r == [224, 0, 23, 12, 3671], self.k('request goes to 224.0.23.12:3671'), 'it goes to %s' % show(dst))
        own = [isinstance(x, T) and any(q[5] is not None and q[5] in names(y) for y in TT.syms(x)) for x in b[8:14]]
        okp = isinstance(b[12], T) and isinstance(b[13], T) and self.local(b, F)
        self.check(st, all(own) and okp, self.k("request names the socket's own endpoint"), 'endpoint octets are %s' % ', '.join(show(x) for x in b[8:14]))
        return (min(q[0] + 1, 2),) + q[1:]

    def local(self, b, F):
        """address octets in order, then the port, high octet first"""
        p = factbits(b[12], F, 8), factbits(b[13], F, 8)
        if None in p:
            return False
        sy = {x[0] for x in p[0] + p[1] if isinstance(x, tuple)}
        if len(sy) != 1:
            return False
        y = sy.pop()
        if list(p[1]) + list(p[0]) != [(y, i) for i in range(16)]:
            return False
        ix = []
        for x in b[8:12]:
            s = list(TT.syms(x))
            if len(s) != 1 or s[0] is not x:
                return False
            i = s[0].a[0][1] if isinstance(s[0].a[0], tuple) and len(s[0].a[0]) == 2 else None
            ix.append(kv(i) if isinstance(i, T) and isk(i) else i)
        return ix == [0, 1, 2, 3]

    def on_senderr(self, q, st, e):
        return ('failed',) + q[1:]

    def lists(self, st):
        out = []

        def walk(v, d):
            if isinstance(v, Seq) and v.ety is not None and self.eng.T[v.ety].get('path', '').endswith('::SearchResponse'):
                out.append(v)
            elif isinstance(v, Agg) and d < 6:
                for x in v.fs:
                    walk(x, d + 1)
        for v in st.mem.values():
            walk(v, 0)
        return out

    def timer(self, q, st, d):
        later = q[2] is not None or q[0] == 'late'
        arg = self.args[0]
        if isinstance(arg, Opq) and arg.kind == 'dur':
            arg = arg.args[0]
        same = d is arg or isinstance(d, T) and isinstance(arg, T) and d is arg
        if q[3] == 'again' or q[2] is not None:
            self.check(st, not (same or isinstance(d, T) and isk(d) or isinstance(d, int)), self.k('answers do not extend the search'), 'the time limit starts anew after an answer')
        else:
            const = isinstance(d, int) or isinstance(d, T) and (isk(d) or isinstance(arg, T) and set(TT.syms(d)) <= set(TT.syms(arg)))
            self.check(st, same or not const, self.k('search lasts the given time'), 'the limit is %s' % show(d))
        return q

    def on_timer(self, q, st, e):
        return self.timer(q, st, e[2])

    def on_limit(self, q, st, e):
        return self.timer(q, st, e[1])

    def on_recv(self, q, st, e):
        sent, tm, hand, before, over, sock = q
        if hand is not None:
            self.judge(q, st)
        self.check(st, not over, self.k('ends when the time is over'), 'it goes on receiving')
        self.check(st, sent == 1, self.k('request is sent before answers are read'), 'it is not')
        l = self.lists(st)
        return (sent, tm, (e[1], e[4], e[5]), l[0] if len(l) == 1 else None, over, sock)

    def on_back(self, q, st, e):
        sent, tm, hand, before, over, sock = q
        if hand is not None and tuple(hand[1][:len(e[1])]) == tuple(e[1]):
            self.judge(q, st)
            return (sent, tm, None, 'again', over, sock)
        if over:
            self.check(st, False, self.k('ends when the time is over'), 'it goes on')

    def decoded(self, st, n):
        f = self.a.meth('SearchResponse', 'from_packet')
        eng = self.eng
        u = u8(self.a)
        seq = mkseq(u, [('c', n, u, ZERO, S((n, 'n'), 0, interp.LENMAX))])
        s = st.copy()
        cty = eng.T[f['inputs'][0]]['to']
        s.mem[('H', ('search',))] = mkagg(cty, 0, [mkref(('C', seq)), ZERO])
        return aside(eng, s, f, [mkref(('H', ('search',)))])

    def judge(self, q, st):
        """was the datagram in hand put at the end of the list exactly when it decodes?"""
        sent, tm, hand, before, over, sock = q
        l = self.lists(st)
        if before is None or len(l) != 1:
            self.check(st, None, self.k('every answer that decodes is kept'), 'the list of answers is not found')
            return
        now = l[0]
        n = len(before.segs)
        if now.segs[:n] != before.segs:
            self.check(st, False, self.k('earlier answers are kept in order'), 'the list changes otherwise')
            return
        self.check(st, True, self.k('earlier answers are kept in order'))
        new = now.segs[n:]
        self.check(st, len(new) <= 1 and all(g[0] == 'e' for g in new), self.k('an answer is kept once'), 'the list gains %d entries' % len(new))
        outs = self.decoded(st, hand[0])
        good = [(s, w) for s, w in outs if isok(w)]
        if len(good) == len(outs) and outs:
            self.check(st, len(new) == 1, self.k('every answer that decodes is kept'), 'the list gains nothing for a %s' % hand[2])
        elif not good and outs:
            self.check(st, not new, self.k('answers that do not decode are ignored'), 'the list gains %s' % (show(new[0]) if new else ''))
        if new and good:
            r = any(bysite(new[0][1], hand[0]) == bysite(w.fs[0], hand[0]) or veq(new[0][1], w.fs[0], s.F, self.eng) is True for s, w in good)
            self.check(st, r, self.k('answer kept is the one of the datagram'), 'the list gains %s' % show(new[0]))

    def on_slept(self, q, st, e):
        sent, tm, hand, before, over, sock = q
        l = self.lists(st)
        return (sent, tm, None, l[0] if len(l) == 1 else None, True, sock)

    on_elapsed = on_slept

    def on_select(self, q, st, e):
        kinds = [x if isinstance(x, str) else x[0] for x in e[1]]
        if 'recv' in kinds:
            self.check(st, bool(e[2]) or 'sleep' in kinds, self.k('never waits for an answer without the time limit'), 'it waits for %s only' % ', '.join(kinds))

    def on_wait(self, q, st, e):
        if e[1] == 'recv':
            self.check(st, bool(e[2]), self.k('never waits for an answer without the time limit'), 'it waits without limit')

    def on_recverr(self, q, st, e):
        return ('failed',) + q[1:]

    def on_result(self, q, st, v):
        sent, tm, hand, before, over, sock = q
        if sent == 'failed':
            if isok(v):
                self.check(st, over, self.k('ends when the time is over'), 'a receive error ends it as if the time was over')
            return
        if not isok(v):
            if hand is not None:
                self.check(st, False, self.k('no answer ends the search'), 'it fails after one')
            elif over:
                self.check(st, False, self.k('running out of time is no error'), 'it fails')
            return
        self.check(st, over, self.k('ends when the time is over'), 'it ends before')
        r = v.fs[0]
        self.check(st, isinstance(r, Seq) and isinstance(before, Seq) and veq(r, before, st.F, self.eng), self.k('returns the answers it kept'), 'returns %s' % show(r))


def bysite(v, keep):
    """v with everything born inside a callee named after its place only, whoever called"""
    if isinstance(v, T):
        return (v.op,) + tuple(bysite(x, keep) for x in v.a)
    if isinstance(v, Agg):
        return ('agg', v.ty, v.var) + tuple(bysite(x, keep) for x in v.fs)
    if isinstance(v, Seq):
        return ('seq',) + tuple(bysite(x, keep) for x in v.segs)
    if isinstance(v, Sym):
        return ('sym', bysite(v.name, keep))
    if isinstance(v, Opq):
        return ('opq', v.kind) + tuple(bysite(x, keep) for x in v.args)
    if isinstance(v, Str):
        return ('str', bysite(v.d, keep))
    if isinstance(v, Ref):
        return ('ref',)
    if isinstance(v, tuple):
        if v == keep:
            return ('datagram',)
        if v and isinstance(v[0], str) and v[0][:1] in '@?':
            ctx = v[1] if len(v) > 1 else None
            while isinstance(ctx, tuple) and ctx and isinstance(ctx[0], tuple) and ctx[0] and isinstance(ctx[0][0], tuple):
                ctx = ctx[0]
            last = ctx[-1][0] if isinstance(ctx, tuple) and ctx and isinstance(ctx[-1], tuple) else ctx
            return (v[0], last, v[3] if len(v) > 3 else None)
        return tuple(bysite(x, keep) for x in v)
    return v


def flat(v):
    if isinstance(v, Agg):
        return [y for x in v.fs for y in flat(x)]
    if isinstance(v, Seq):
        return [s[1] if s[0] == 'e' else None for s in v.segs]
    return [v]


def answer(k, medium):
    n = 70 + 2 * k
    p = {7: 1, 6: 8, 14: 54, 15: 1, 16: medium, 68: 2 + 2 * k, 69: 2}
    for i in range(k):
        p[70 + 2 * i] = 2 + i
    return fixed(0x0202, n, p)


# complete answers of several shapes, and datagrams that are none
ANSWERS = [('complete answer with %d service families' % k, answer(k, m)) for k, m in ((0, 2), (1, 4), (2, 16), (5, 32))] + [
    ('search request', fixed(0x0201, 14, {6: 8, 7: 1})),
    ('short datagram', hyp(0, 13, {})),
    ('answer with its device block cut off', hyp(14, 67, {0: 6, 1: 0x10, 2: 2, 3: 2})),
    ('datagram', None),
]


def c24(a):
    f = a.fn('UdpClient::search')

    args = [a.eng.sym(ty, ('a%d' % i,)) for i, ty in enumerate(f['inputs'])]
    if a.eng.T[f['inputs'][0]].get('path') == 'std::time::Duration':
        args[0] = opq('dur', S(('time',), 0, TT.INF))

    def mk(root):
        x = Find(a, root)
        x.args = args
        return x
    a.eng.rxclasses = ANSWERS
    try:
        t = operation(a, mk, f, args=args)
    finally:
        a.eng.rxclasses = None
    need(a, t, ['answer kept is the one', 'sends a search request', 'every answer that decodes is kept', 'answers that do not decode', 'returns the answers it kept', 'search lasts the given time'])
