"""shared frame of the property checks"""
import json
import os
import time
from . import interp, run as R, build
from .interp import tlist
from .values import *
from .terms import *


class Missing(Exception):
    """an anchor of the property is gone"""


class A:
    """one analysis of the current tree for one property"""

    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = {}        # key -> text
        self.undec = {}       # key -> text
        self.obl = 0
        self.done = 0
        self.cov = {}
        self.samples = []
        self.eng = interp.load(build.dump())
        self.cache = {}
        self.notes = []
        self.assume = []

    # ------------------------------------------------------------ anchors
    def find(self, sfx, trait=None):
        out = []
        for f in self.eng.fns:
            if f['key'] is None or f.get('derived'):
                continue
            p = f['path']
            if p == sfx or p.endswith('::' + sfx) or p.endswith(sfx) and sfx.startswith('<'):
                out.append(f)
        return out

    def fn(self, sfx):
        l = self.find(sfx)
        if not l:
            raise Missing(sfx)
        return l[0]

    def have(self, sfx):
        l = self.find(sfx)
        return l[0] if l else None

    def meth(self, ty, name, trait=None):
        """method `name` of the type with path suffix ty (inherent first)"""
        inh, tr = [], []
        for f in self.eng.fns:
            if f['key'] is None or f.get('name') != name and not f['path'].endswith('::' + name):
                continue
            if f['path'].endswith('::' + ty + '::' + name):
                inh.append(f)
            elif f['path'].startswith('<') and ('::' + ty + ' as ') in f['path'] and f['path'].endswith('>::' + name):
                if trait is None or trait in f['path']:
                    tr.append(f)
        l = inh + tr if trait is None else tr
        if not l:
            raise Missing('%s::%s' % (ty, name))
        return l[0]

    # ------------------------------------------------------------ verdicts
    def ob(self, ok, key, text=''):
        """one proof obligation; ok: True / False / None (undecided)"""
        self.obl += 1
        if ok is True:
            self.done += 1
        elif ok is None:
            self.undec.setdefault(key, text)
        else:
            self.viol.setdefault(key, text)
        return ok

    def violation(self, key, text=''):
        self.viol.setdefault(key, text)

    def undecided(self, key, text=''):
        self.undec.setdefault(key, text)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 40:
            self.samples.append(x)

    # ------------------------------------------------------------ runs
    def run(self, f, tag=None, **kw):
        k = (f['path'], tag)
        if k not in self.cache or tag is None and kw:
            r = R.run_fn(self.eng, f, **kw)
            self.note_run(r)
            self.cache[k] = r
        return self.cache[k]

    def note_run(self, r):
        if r.budget:
            self.undecided('budget ' + r.f['path'], r.budget)
        for k in r.unmodelled:
            self.notes.append('%s: %s' % (r.f['path'], k))


def short(p):
    return p.replace('knx_ip_client::', '')
