"""the environment of the asynchronous parts: classes of datagrams and messages, and the walk over event histories"""
from ..core import *
from .. import terms as TT
from ..interp import tlist
from .codec import samebits, veq, seq_eq, expand, _Stub


# ---------------------------------------------------------------- datagram classes
def db(n, i):
    """octet i of the datagram named n"""
    return S((n, K(i) if isinstance(i, int) else i), 0, 255)


def hyp(cnt_lo, cnt_hi, pins, extra=None):
    """the datagram has at least cnt_lo octets (at most cnt_hi) and the given ones have the given values / ranges"""
    def f(F, n, cnt):
        if not TT.assume(F, TT.cmp('Ge', cnt, K(cnt_lo)), True):
            return False
        if cnt_hi is not None and not TT.assume(F, TT.cmp('Le', cnt, K(cnt_hi)), True):
            return False
        for i, v in pins.items():
            b = db(n, i)
            lo, hi = v if isinstance(v, tuple) else (v, v)
            if not TT.assume(F, TT.cmp('Ge', b, K(lo)), True) or not TT.assume(F, TT.cmp('Le', b, K(hi)), True):
                return False
        return extra(F, n, cnt) if extra else True
    return f


def fixed(code, size, pins):
    p = {0: 6, 1: 0x10, 2: code >> 8, 3: code & 255, 4: 0, 5: size}
    p.update(pins)
    return hyp(size, size, p)


def frame(code, lo, pins, hi=None):
    """whole frame whose total length field is its octet count"""
    p = {0: 6, 1: 0x10, 2: code >> 8, 3: code & 255, 4: 0}
    p.update(pins)

    def extra(F, n, cnt):
        return TT.assume(F, TT.cmp('Eq', db(n, 5), cnt), True)
    return hyp(lo, hi, p, extra)


# every datagram of these classes is a complete, valid frame of the KNXnet/IP core or tunnelling service
SESSION = [
    ('treq', frame(0x0420, 12, {6: 4, 11: 0})),                  # telegram without additional information
    ('treqbad', frame(0x0420, 10, {6: 4}, 11)),                  # cEMI content cut off
    ('treqinfo', frame(0x0420, 12, {6: 4, 11: (1, 255)})),       # additional information announced
    ('fresp', fixed(0x0423, 13, {6: 4, 10: 8})),
    ('ack', fixed(0x0421, 10, {6: 4})),
    ('cs0', fixed(0x0208, 8, {7: 0})),
    ('csE', fixed(0x0208, 8, {7: (1, 255)})),
    ('dresp', fixed(0x020a, 8, {})),
    ('dreq', fixed(0x0209, 16, {8: 8, 9: 1})),
    ('cr0', fixed(0x0206, 20, {7: 0, 8: 8, 9: 1, 16: 4, 17: 4})),
    ('crE', fixed(0x0206, 8, {7: (1, 255)})),
    ('other', None),
]


# ---------------------------------------------------------------- typestate automata
class Auto:
    """follows every event of a history; its state is part of the abstract state.
    Subclasses define init() and on_<event>(q, st, e) -> new state"""

    def __init__(self, a, root=''):
        self.a, self.root, self.hit, self.seen = a, root, {}, {}

    def init(self):
        return ()

    def sharp(self, q):
        """must paths with different facts be kept apart in this state?"""
        return False

    def step(self, st, e):
        h = getattr(self, 'on_' + e[0], None)
        q = st.auto
        if h is None or q == 'broken':
            return q
        self.now = False
        r = h(q, st, e)
        if self.now and self.prune:
            return 'broken'
        return q if r is None else r

    prune = False    # do not follow a path beyond its first violation

    def rxclasses(self, q, classes):
        """the classes of datagrams told apart in state q"""
        return classes

    def check(self, st, ok, key, text=''):
        """one obligation at one event; ok True / False / None"""
        self.seen[key] = self.seen.get(key, 0) + 1
        if ok is True:
            return True
        if (st.taint or '<?.' in text) and ok is not True:
            self.hit.setdefault(key, (None, text))
        else:
            self.hit[key] = (False, text)
            self.now = True
        return ok

    def done(self, r):
        """hand the result to the frame"""
        for k, n in sorted(self.seen.items()):
            if k in self.hit:
                ok, text = self.hit[k]
                self.a.ob(ok, k, text + (' [%s]' % self.root if self.root else ''))
            else:
                self.a.ob(True, k)
            self.a.count('events judged', n)
        self.a.count('block_executions', r.steps)
        self.a.count('histories', len(r.outs))


# ---------------------------------------------------------------- the session task
def spawned(a, client=True):
    """(root, the tasks the connect operation leaves running)"""
    k = ('spawned', client)
    if k not in a.cache:
        f = a.fn('UdpClient::connect' if client else 'UdpMonitor::connect')
        r = a.run(f)
        out = []
        for key, l in r.spawned.items():
            seen = set()
            for st, co in l:
                if co not in seen:
                    seen.add(co)
                    out.append((key, st, co))
        a.cache[k] = (f, r, out)
    return a.cache[k]


def session(a, mk, client=True, classes=SESSION):
    """follow the background task with the automaton mk(root)"""
    eng = a.eng
    f, r, tasks = spawned(a, client)
    res = []
    for key, st, co in tasks:
        auto = mk('session task of ' + ('the client' if client else 'the monitor'))
        eng.stale, eng.heldwaits, eng.cuts = {}, {}, 0
        eng.rxclasses = classes
        try:
            t = R.tracking(eng, auto, lambda: R.run_spawned(eng, f, key, st, co))
        finally:
            eng.rxclasses = None
        t.stale, t.heldwaits, t.cuts = eng.stale, eng.heldwaits, eng.cuts
        t.auto = auto
        for s, v in t.outs:
            auto.eng = eng
            interp_end(auto, s)
        a.note_run(t)
        auto.done(t)
        res.append(t)
    return res


def interp_end(auto, s):
    h = getattr(auto, 'on_ret', None)
    if h:
        h(s.auto, s, ('ret',))


def operation(a, mk, f, msgs=None, **kw):
    """follow a request operation"""
    eng = a.eng
    auto = mk(short(f['path']))
    eng.stale, eng.heldwaits, eng.cuts = {}, {}, 0
    eng.msgclasses = msgs
    try:
        t = R.tracking(eng, auto, lambda: R.run_fn(eng, f, **kw))
    finally:
        eng.msgclasses = None
    t.stale, t.heldwaits, t.cuts = eng.stale, eng.heldwaits, eng.cuts
    t.auto = auto
    for s, v in t.outs:
        h = getattr(auto, 'on_result', None)
        if h:
            h(s.auto, s, v)
    a.note_run(t)
    auto.done(t)
    return t
