"""Builds the MIR dump of /repo's current working tree (type-checked by rustc, nothing is run)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KNXV_REPO', '/repo')
BUILD = os.environ.get('KNXV_BUILD', os.path.join(VERIF, 'build'))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(VERIF, 'driver', 'main.rs')]
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        files.append(os.path.join(REPO, n))
    for root, dirs, names in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def dump():
    """path of the dump of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hv = tree_hash()
        out = os.path.join(BUILD, 'dump-%s.json' % hv)
        if os.path.exists(out):
            return out
        for f in glob.glob(os.path.join(BUILD, 'dump-*.json')):
            if os.path.exists(f):
                os.remove(f)
        env = dict(os.environ)
        r = sh(['rustc', '+nightly', '--print', 'sysroot'])
        if r.returncode:
            raise BuildError(r.stdout)
        sysroot = r.stdout.strip().splitlines()[-1]
        env['LD_LIBRARY_PATH'] = sysroot + '/lib'
        env['CARGO_INCREMENTAL'] = '0'
        for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        src = os.path.join(VERIF, 'driver', 'main.rs')
        dh = hashlib.sha256(open(src, 'rb').read() + sysroot.encode()).hexdigest()[:16]
        drv = os.path.join(BUILD, 'knxv-driver-' + dh)
        if not os.path.exists(drv):
            r = sh(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', drv + '.tmp'], env=env)
            if r.returncode:
                raise BuildError('driver: ' + r.stdout[-3000:])
            os.rename(drv + '.tmp', drv)
        target = os.path.join(BUILD, 'target')
        for f in glob.glob(target + '/debug/.fingerprint/knx-ip-client-*') + glob.glob(target + '/debug/build/knx-ip-client*'):
            shutil.rmtree(f, ignore_errors=True)
        tmp = out + '.tmp'
        if os.path.exists(tmp):
            os.remove(tmp)
        env['KNXV_OUT'] = tmp
        env['RUSTC_WORKSPACE_WRAPPER'] = drv
        r = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
                '--target-dir', target], env=env)
        if r.returncode or not os.path.exists(tmp):
            raise BuildError('the crate does not type-check or was not dumped:\n' + r.stdout[-3000:])
        os.rename(tmp, out)
        return out


if __name__ == '__main__':
    print(dump())
