#!/usr/bin/env python3
"""mut.py <spec.py> [ids]: runs the checks against edited scratch copies of /repo.
A spec entry is (id, checks, [(file, old, new), ...]); checks = 'C10 C11' must each alarm, '' = all checks must stay quiet.
With -a every check is run on every entry."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
W = '/tmp/mutwork-%d' % os.getpid()
CHECKS = None
N = int(os.environ.get('JOBS', '7'))
sys.path.insert(0, '/verif')
from engine.props import REGISTRY  # noqa


def sh(cmd, env=None, cwd='/verif'):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def prep():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('cp -a check.py engine driver known-findings.json MANIFEST.json properties.jsonl %s/' % W)
    q = Queue()
    for i in range(N):
        os.makedirs('%s/%d' % (W, i))
        sh('cp -a /verif/build %s/%d/build; mkdir %s/%d/repo; cp -a /repo/src /repo/Cargo.toml /repo/Cargo.lock %s/%d/repo/; cp -a /repo/examples %s/%d/repo/ 2>/dev/null' % (W, i, W, i, W, i, W, i))
        q.put(i)
    return q


def one(q, m, every):
    i = q.get()
    try:
        d = '%s/%d' % (W, i)
        shutil.rmtree(d + '/repo/src')
        shutil.copytree(os.environ.get('SRC', '/repo') + '/src', d + '/repo/src')
        for f, old, new in m[2]:
            p = d + '/repo/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return m[0], 'EDIT %d matches of %r in %s' % (t.count(old), old[:60], f)
            open(p, 'w').write(t.replace(old, new))
        env = dict(os.environ, KNXV_REPO=d + '/repo', KNXV_BUILD=d + '/build', KNXV_EVIDENCE=d + '/evidence')
        b = sh('python3 -m engine.build', env)
        if b.returncode:
            import re
            return m[0], 'BUILD ' + '\n'.join(re.findall(r'error[^\n]*\n[^\n]*', b.stdout + b.stderr)[:4])
        ids = sorted(REGISTRY) if every else m[1].split() or CHECKS or sorted(REGISTRY)
        out = []
        miss = []
        for c in ids:
            r = sh('timeout 900 python3 check.py ' + c, env, W)
            lines = [l.strip() for l in r.stdout.split('\n')]
            al = [l for l in lines if l.startswith('broken:')]
            un = [l for l in lines if l.startswith('undecided:')]
            if r.returncode == 1 and 'VIOLATION' not in r.stdout:
                out.append(c + ' CRASH ' + r.stderr[-200:])
            elif r.returncode == 1:
                out.append('%s! %s' % (c, al[0][8:150] if al else ''))
            elif r.returncode:
                out.append('%s rc=%d' % (c, r.returncode))
            if un and (not m[1] or c in m[1].split()):
                out.append('%s? %s' % (c, un[0][11:170]))
            if m[1] and c in m[1].split() and r.returncode != 1:
                miss.append(c)
        s = ('MISSED ' + ' '.join(miss) + ' ') if miss else ''
        if not m[1] and any('!' in x[:5] or 'rc=' in x for x in out):
            s = 'FALSE ALARM '
        return m[0], s + ('; '.join(out) or 'quiet')
    finally:
        q.put(i)


def main():
    args = sys.argv[1:]
    every = '-a' in args
    args = [x for x in args if x != '-a']
    ns = {}
    exec(open(args[0]).read(), ns)
    global CHECKS
    CHECKS = (os.environ.get('CHECKS') or ns.get('CHECKS') or '').split()
    ms = [m for m in ns['MUTS'] if len(args) == 1 or m[0] in args[1:]]
    sh('python3 -m engine.build')
    q = prep()
    with ThreadPoolExecutor(N) as ex:
        for f in [ex.submit(one, q, m, every) for m in ms]:
            n, t = f.result()
            print('%-28s %s' % (n, t), flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
