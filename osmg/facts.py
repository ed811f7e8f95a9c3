"""Front end: compiles the driver, runs it over /repo's current working tree, returns the facts.

Build products live in /verif/.build (git-ignored).  The facts are re-extracted whenever the content of
the analysed sources differs from the content the stored facts were extracted from.
"""
import fcntl, hashlib, json, os, pickle, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OSMG_REPO', '/repo')
BUILD = os.environ.get('OSMG_BUILD') or os.path.join(VERIF, '.build')
DRV = os.path.join(VERIF, 'driver')
NIGHTLY = 'nightly'


class BuildFailed(Exception):
    pass


def _sh(cmd, env=None, cwd=None):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def _hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for r, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(r, f)
                    h.update(q.encode() + b'\0')
                    h.update(open(q, 'rb').read())
        elif os.path.exists(p):
            h.update(p.encode() + b'\0')
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def _env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['RUSTUP_TOOLCHAIN'] = NIGHTLY
    for k in list(e):
        if k.startswith('CARGO_') or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
            if k != 'CARGO_HOME':
                del e[k]
    return e


def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'driver')
    want = _hash_tree([os.path.join(DRV, 'driver.rs')])
    stamp = out + '.sha'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
        return out
    r = _sh(['rustc', '+' + NIGHTLY, '--edition', '2021', '-O', os.path.join(DRV, 'driver.rs'), '-o', out], env=_env())
    if r.returncode != 0:
        raise BuildFailed('driver does not compile:\n' + r.stdout[-4000:])
    open(stamp, 'w').write(want)
    return out


def ensure_vendor():
    d = os.path.join(BUILD, 'vendor')
    if not os.path.exists(d + '.toml'):
        r = _sh([sys.executable, os.path.join(DRV, 'ov.py'), d])
        if r.returncode != 0:
            raise BuildFailed('vendor overlay: ' + r.stdout)
    return d + '.toml'


def source_hash():
    return _hash_tree([os.path.join(REPO, x) for x in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs', '.cargo')])


NAMES = ('osmgraphing-lib', 'osmgraphing-bin', 'multi_ch_constructor-bin')


def extract():
    """Returns the directory with up-to-date facts (building whatever is missing)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = ensure_driver()
        vend = ensure_vendor()
        want = source_hash() + ' ' + open(drv + '.sha').read()
        fd = os.path.join(BUILD, 'facts')
        stamp = os.path.join(fd, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == want:
            return fd
        shutil.rmtree(fd, ignore_errors=True)
        os.makedirs(fd)
        tgt = os.path.join(BUILD, 'target')
        # cargo's freshness cache must never skip the driver on the analysed crates (old and new build-directory layouts)
        for d in (os.path.join(tgt, 'debug', '.fingerprint'), os.path.join(tgt, 'debug', 'build')):
            for n in os.listdir(d) if os.path.isdir(d) else ():
                if n == 'osmgraphing' or n.startswith('osmgraphing-'):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        e = _env()
        sysroot = _sh(['rustc', '+' + NIGHTLY, '--print', 'sysroot'], env=_env()).stdout.strip()
        e.update({
            'CARGO_TARGET_DIR': tgt, 'RUSTC_WRAPPER': os.path.join(DRV, 'wrap.sh'),
            'RUSTC_WORKSPACE_WRAPPER': drv, 'OSMG_FACTS_DIR': fd, 'CARGO_INCREMENTAL': '0',
            'LD_LIBRARY_PATH': sysroot + '/lib', 'RUSTFLAGS': '-Zmir-opt-level=0',
        })
        r = _sh(['cargo', '--config', vend, 'check', '--lib', '--bins', '--features',
                 'gpl,nd-triangulation/docs-rs', '--offline', '--locked'], env=e, cwd=REPO)
        if r.returncode != 0:
            raise BuildFailed('cargo check failed:\n' + r.stdout[-6000:])
        for n in NAMES:
            if not os.path.exists(os.path.join(fd, n + '.json')):
                raise BuildFailed('no facts for ' + n + '\n' + r.stdout[-3000:])
        open(stamp, 'w').write(want)
        return fd


def load(dirname=None):
    fd = dirname or extract()
    out = {}
    for n in NAMES:
        out[n] = json.load(open(os.path.join(fd, n + '.json')))
    return out


if __name__ == '__main__':
    t = time.time()
    print(extract(), '%.1fs' % (time.time() - t))
