"""C36: listeners for established sessions of the monitor"""
from .world import *
from .session import Task, session_lock, ASSUME, witnessed
from .session import *

N = 2     # listeners in the list; the thorough check takes one more


def listtype(eng, cty):
    """element type when the lock guards a list of listeners"""
    t = eng.T[cty]
    if t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'std::collections::VecDeque') and t['args']:
        e = eng.T[t['args'][0]]
        if e['k'] == 'adt' and e['path'].endswith('mpsc::Sender') and eng.T[e['args'][0]]['s'] == '()':
            return t['args'][0]
    return None


def listlock(eng, lid):
    for i, t in enumerate(eng.T):
        if t.get('s') == lid and t['k'] == 'adt':
            e = listtype(eng, i)
            if e is not None:
                return e
    return None


def who(v):
    return v.args[1] if isinstance(v, Opq) and v.kind == 'tx' and len(v.args) > 1 else None


def ids(v, F):
    """the listeners in a list, None: not known"""
    if not isinstance(v, Seq):
        return None
    out = []
    for g in v.segs:
        if g[0] == 'e':
            out.append(who(g[1]))
        elif g[0] == 'r' and isk(simp(g[2], F)):
            out += [who(g[1])] * kv(simp(g[2], F))
        else:
            return None
    return None if None in out else tuple(out)


class Listen(Task):
    """ob = (told: outcome per listener since the session was stored, registered now, dropped as closed, number of times taken)"""
    ALL = tuple(range(N))

    def init(self):
        return (False, self.fresh())

    def fresh(self):
        return ((None,) * (N + 1), self.ALL, 0, False)

    def rxclasses(self, q, classes):
        return [c for c in classes if c[0] == 'any']

    def content(self, st, lid, cty):
        e = listtype(self.eng, cty)
        if e is None:
            return None
        told, reg, n, due = st.auto[1]
        if n and N not in reg:
            reg += (N,)         # somebody registered since the list was last looked at
        return mkseq(e, [('e', opq('tx', '()', i)) for i in reg])

    def on_lock(self, q, st, e):
        if listlock(self.eng, e[1]) is None:
            return
        up, (told, reg, n, due) = q
        return (up, (told, reg + (N,) if n and N not in reg else reg, 1, due))

    def k(self, s):
        return '%s: %s' % (self.root, s)

    def on_told(self, q, st, e):
        up, (told, reg, n, due) = q
        i, how = e[1], e[2]
        if how.startswith('is '):
            if how == 'is closed':
                told = told[:i] + ('closed',) + told[i + 1:]
            return (up, (told, reg, n, due))
        self.check(st, up, self.k('listeners are told only when the session is stored'), 'a listener is told without one')
        if told[i] in ('ok', 'full'):
            self.check(st, False, self.k('a listener is told once per session'), 'it is told again')
        return (up, (told[:i] + (how,) + told[i + 1:], reg, n, due))

    def on_tx(self, q, st, e):
        if e[1] == '()' and len(e) < 6:
            self.check(st, False, self.k('the session never waits for a listener'), 'it waits until there is room in the channel')

    def on_unlock(self, q, st, e):
        if listlock(self.eng, e[1]) is None:
            return Task.on_unlock(self, q, st, e)
        up, (told, reg, n, due) = q
        got = ids(e[3], st.F)
        if got is None:
            self.check(st, None, self.k('open listeners stay registered'), 'list is %s' % show(e[3])[:80])
            return
        closed = {i for i in reg if told[i] == 'closed'}
        lost = [i for i in reg if i not in got and i not in closed]
        self.check(st, not lost, self.k('open listeners stay registered'), 'the %s is dropped from the list' % ('listener added meanwhile' if lost == [N] else 'listener whose channel was full' if lost and told[lost[0]] == 'full' else 'listener'))
        self.check(st, len(set(got)) == len(got), self.k('a listener is registered once'), 'it is in the list twice')
        return (up, (told, tuple(sorted(set(got))), n, due))

    def settle(self, q, st):
        up, (told, reg, n, due) = q
        if up and due:
            miss = [i for i in self.ALL if told[i] is None]
            self.check(st, not miss, self.k('every listener is told of the new session'), 'one is not told before the session goes on')
            dead = [i for i in reg if told[i] == 'closed']
            self.check(st, not dead, self.k('closed listeners are dropped'), 'one stays in the list')
            return (up, self.fresh())

    def on_wait(self, q, st, e):
        if e[1] == 'recv':
            return self.settle(q, st)

    def on_select(self, q, st, e):
        if 'recv' in e[1]:
            return self.settle(q, st)

    def cleared(self, q, st):
        return self.fresh()

    def stored(self, q, st, lid, d):
        return q[1][:3] + (True,)

    def on_suspend(self, q, st, e):
        return


def c36(a):
    global N
    if a.tier == 'thorough':
        N, a.eng.nh = 3, 60
    Listen.ALL = tuple(range(N))
    a.eng.maxheads = 64
    rs = session(a, lambda root: Listen(a, root), False, [('any', None)])
    if not rs:
        raise Missing('session task spawned by UdpMonitor::connect')
    a.assume += ASSUME + ['a list of %d listeners, every combination of outcomes, and one more that registers while the list is not locked' % N]
    witnessed(a, Listen, rs, ['every listener is told', 'open listeners stay registered', 'listeners are told only'])
    f = a.fn('UdpMonitor::add_on_connect')

    class Add(Auto):
        def content(self, st, lid, cty):
            e = listtype(self.eng, cty)
            return None if e is None else mkseq(e, [('e', opq('tx', '()', i)) for i in range(2)])

        def init(self):
            return (False, ())

        def on_told(self, q, st, e):
            k = '%s: nobody is told of a session' % self.root
            self.check(st, e[2].startswith('is '), k, 'a listener is told')
            if e[2] == 'is closed':
                return (q[0], tuple(sorted(set(q[1] + (e[1],)))))

        def on_unlock(self, q, st, e):
            if listlock(self.eng, e[1]) is not None:
                k = '%s: the listener joins those registered' % self.root
                got = ids(e[3], st.F)
                open_ = [i for i in range(3) if i not in q[1]]
                ok = None if got is None else len(set(got)) == len(got) and set(open_) <= set(got)
                self.check(st, ok, k, 'the list is then %s' % (got,))
                return (True, q[1])

        def on_ret(self, q, st, e):
            pass

        def on_result(self, q, st, v):
            self.check(st, q[0], '%s: registers the listener' % self.root, 'no list of listeners is changed')
    args = [a.eng.sym(ty, ('a%d' % i,)) for i, ty in enumerate(f['inputs'])]
    for i, ty in enumerate(f['inputs']):
        if a.eng.T[ty]['k'] == 'adt' and a.eng.T[ty]['path'].endswith('mpsc::Sender'):
            args[i] = opq('tx', '()', 2)
    operation(a, lambda root: Add(a, root), f, args=args)
