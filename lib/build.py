"""Builds the fact extractor and runs it over /repo's current working tree (cargo +nightly check)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')


def env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER',
              'CARGO_PROFILE_DEV_DEBUG'):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit('build failed: ' + ' '.join(cmd))
    return p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(BUILD, 'driver-' + digest([src]))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        run(['rustc', '+nightly', '--edition', '2021', '-O', '-C', 'debuginfo=0', src, '-o', tmp], env=env(), cwd=BUILD)
        os.rename(tmp, out)
    return out


def inputs(repo):
    fs = []
    for base, dirs, files in os.walk(repo):
        dirs[:] = [d for d in dirs if d not in ('target', '.git', 'benches', 'examples', 'tests')]
        for f in files:
            if f.endswith('.rs') or f.endswith('.toml') or f == 'Cargo.lock':
                fs.append(os.path.join(base, f))
    return fs


def forget(tgt):
    """lets cargo forget that it has checked this crate (its dependencies are kept), in either layout of its build folder"""
    for sub, pre in (('.fingerprint', 'sc-'), ('build', 'sc-')):
        d = os.path.join(tgt, 'debug', sub)
        for x in os.listdir(d) if os.path.isdir(d) else []:
            if x.startswith(pre) or x == 'sc':
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)


def facts(repo=REPO):
    """directory holding sc-lib.json and sc-bin.json of the current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        key = digest(inputs(repo)) + '-' + os.path.basename(drv)[7:]
        out = os.path.join(BUILD, 'facts-' + key)
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        for d in os.listdir(BUILD):
            if d.startswith('facts-'):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(out)
        e = env()
        root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, env=e,
                              check=True).stdout.strip()
        tgt = os.path.join(BUILD, 'target')
        e['LD_LIBRARY_PATH'] = root + '/lib'
        e['CARGO_TARGET_DIR'] = tgt
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['VERIF_FACTS_DIR'] = out
        cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--bins']
        forget(tgt)
        run(cmd, env=e, cwd=repo)
        missing = lambda: [n for n in ('sc-lib.json', 'sc-bin.json') if not os.path.exists(os.path.join(out, n))]
        if missing():
            # cargo considered a target up to date which it must not: start over
            shutil.rmtree(tgt, ignore_errors=True)
            run(cmd, env=e, cwd=repo)
        if missing():
            raise SystemExit('fact extraction produced no ' + missing()[0])
        open(os.path.join(out, 'ok'), 'w').close()
        return out


if __name__ == '__main__':
    print(facts())
