#!/usr/bin/env python3
"""seed.py <spec.py> [ids]: makes /verif/seeded/<id>/ from specs and confirms each in a scratch copy of /repo"""
import json, os, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
knx-ip-client = { path = "$repo" }
tokio = { version = "1", features = ["full"] }
[workspace]
EOF
cd "$t" && RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q
'''
BASE = '/tmp/seedbase'


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def stable(cwd):
    # run the tests of a copy with its own paths
    r = sh("cargo test --workspace --offline -- --test-threads 1 2>&1 | grep -E '^test ' | grep ' ok$' | wc -l", cwd, dict(os.environ, RUSTFLAGS='-Awarnings'))
    return int(r.stdout.strip() or 0)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns['SEEDS']:
        if want and s['id'] not in want:
            continue
        w = '/tmp/seedwork'
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True)
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != s.get('count', 1) and not s.get('all'):
                print(s['id'], 'EDIT: %d matches in %s' % (t.count(old), f)); bad = True
            open(p, 'w').write(t.replace(old, new))
        if bad:
            continue
        d = sh('git diff', w).stdout
        o = '/verif/seeded/' + s['id']
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(d)
        open(o + '/demo.sh', 'w').write(s.get('sh', DEMO)); os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo.rs', 'w').write(s['demo'].lstrip())
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        n = stable(w)
        b = sh('bash %s/demo.sh' % o, '/repo')
        p = sh('bash %s/demo.sh' % o, w)
        sh('rm -rf /tmp/seedvb')
        c = sh('python3 check.py %s' % s['property'], '/verif', dict(os.environ, KNXV_REPO=w))
        caught = c.returncode == 1 and 'VIOLATION property=' + s['property'] in c.stdout
        print('%s tests ok %d (want 8) base %d patched %d caught %s%s' % (s['id'], n, b.returncode, p.returncode, caught,
              '' if b.returncode == 0 else '\n' + b.stderr[-600:]), flush=True)
        if 'error' in p.stderr and 'panicked' not in p.stderr:
            print(p.stderr[-500:])
        if not caught:
            print(c.stdout[:700])
        shutil.rmtree(w, ignore_errors=True)


main()
