"""running one analysis root (a function of /repo) over fully symbolic arguments"""
from . import interp, terms as TT
from .interp import St, Frame, PENDING, Budget, tlist
from .values import *
from .terms import *


class Run:
    """everything the analysis established about one root"""

    def __init__(self, f):
        self.f, self.outs, self.alarms, self.undecided, self.budget = f, [], {}, {}, None
        self.unmodelled, self.steps, self.spawned, self.args = {}, 0, {}, []


def isolated(eng, f, go):
    r = Run(f)
    keep = eng.alarms, eng.undecided, eng.unmodelled, eng.spawned
    eng.alarms, eng.undecided, eng.unmodelled, eng.spawned = {}, {}, {}, {}
    eng.steps = 0
    try:
        r.outs = go(r)
    except Budget as e:
        r.budget = str(e)
    finally:
        r.alarms, r.undecided, r.unmodelled, r.spawned = eng.alarms, eng.undecided, eng.unmodelled, eng.spawned
        r.steps = eng.steps
        eng.alarms, eng.undecided, eng.unmodelled, eng.spawned = keep
        eng.sel = 0
    return r


def finish(eng, st, v, ctx, depth=1):
    """drive a coroutine value to completion"""
    if isinstance(v, Agg) and v.ty is not None and eng.T[v.ty]['k'] == 'coroutine':
        body = eng.B[eng.T[v.ty]['body']]
        return eng.exec_body(st, body, [v, mkref(('C', opq('ctx')))], ctx + ((body['path'], 0),), depth + 1)
    return [(st, v)]


def run_fn(eng, f, args=None, pre=None, st=None):
    b = eng.B[f['key']]
    eng.root = f['path']

    def go(r):
        s = st or St()
        if interp.AUTO is not None:
            s.auto = interp.AUTO.init()
        r.args = list(args) if args is not None else [eng.sym(ty, ('a%d' % i,)) for i, ty in enumerate(f['inputs'])]
        if pre:
            pre(s, r.args)
        ctx = ((b['path'], 0),)
        out = []
        for s2, v in eng.exec_body(s, b, r.args, ctx, 1):
            out += finish(eng, s2, v, ctx)
        if interp.AUTO is None:
            for s2, v in out:
                if isinstance(v, (T, V)) and tainted(v):
                    s2.taint = True     # the result depends on a call the analysis does not know
        return out
    return isolated(eng, f, go)


def run_spawned(eng, f, key, st, co):
    """a background task, started in the state its spawner left"""
    eng.root = f['path'] + ' (spawned task)'
    st = st.copy()
    st.trace = None
    st.held = ()
    st.auto = interp.AUTO.init() if interp.AUTO is not None else None
    return isolated(eng, f, lambda r: finish(eng, st, co, (('task', key[0]),)))


def tracking(eng, auto, go):
    """run go() with the automaton following every event"""
    auto.eng = eng
    interp.AUTO = auto
    eng.memo = {}
    try:
        return go()
    finally:
        interp.AUTO = None
        eng.memo = None
