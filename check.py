#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property of /repo's current source by static analysis.

exit 0: holds on everything analysed; exit 1 + VIOLATION line: broken."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from engine import core, build  # noqa: E402
from engine.core import short  # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.json')
    for e in json.load(open(p)).get('findings', []):
        if e['property'] == pid:
            out[e['key']] = e['what']
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    from engine.props import REGISTRY
    modname, fname, explanation = REGISTRY[pid]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other'}
    EVD = os.environ.get('KNXV_EVIDENCE') or os.path.join(HERE, 'evidence')
    rep = os.path.join(EVD, pid + '.violations.txt')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    try:
        a = core.A(pid, tier)
    except build.BuildError as e:
        print('ERROR: ' + str(e))
        return 2
    try:
        mod = importlib.import_module('engine.props.' + modname)
        getattr(mod, fname)(a)
    except core.Missing as e:
        a.violation('missing anchor: %s' % e, 'the part of the API this property is about is gone')
    except Exception as e:
        # a construct the analysis cannot digest: no verdict on what was left, never an alarm
        tb = traceback.extract_tb(e.__traceback__)[-1]
        a.undecided('analysis stopped', '%s: %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        if os.environ.get('KNXV_DEBUG'):
            traceback.print_exc()
    if os.environ.get('KNXV_FNS'):      # for the coverage overview: which functions this check walked through
        open(os.path.join(os.environ['KNXV_FNS'], pid), 'w').write('\n'.join(sorted(a.eng.nfns)))
    kf = known(pid)
    news = {k: v for k, v in a.viol.items() if k not in kf}
    for k in sorted(a.viol):
        if k in kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kf[k]))
    cov = dict(a.cov)
    cov.update({'explanation': explanation, 'obligations': a.obl, 'discharged': a.done,
                'undecided': len(a.undec), 'undecided_items': ['%s: %s' % kv for kv in sorted(a.undec.items())][:40],
                'functions_analysed': len(a.eng.nfns), 'panic_sites_reached': len(a.eng.asserts),
                'samples': a.samples, 'imprecision_notes': sorted(set(a.notes))[:30]})
    ev['coverage'] = cov
    ev['assumptions'] = a.assume + [
        'the models of the standard library, tokio, snafu and bitflags calls in engine/models.py are right',
        'debug semantics (overflow checks on) as in the dumped MIR; allocation never fails']
    ev['violations'] = len(news)
    ev['wall_s'] = round(time.time() - t0, 3)
    with open(os.path.join(EVD, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations (%d known) in %.1fs; %d functions analysed' % (
        pid, a.obl, a.done, len(a.undec), len(a.viol), len(a.viol) - len(news), ev['wall_s'], len(a.eng.nfns)))
    for k, v in sorted(a.undec.items())[:20]:
        print('  undecided: %s  %s' % (short(k), short(str(v))[:300]))
    if news:
        with open(rep, 'w') as f:
            for k, v in sorted(news.items()):
                f.write('%s\n    %s\n' % (k, v))
        for k, v in sorted(news.items())[:30]:
            print('  broken: %s\n      %s' % (short(k), short(str(v))[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    return 0


if __name__ == '__main__':
    sys.exit(main())
