"""Builds the MIR dump driver and dumps /repo's current source in both configurations.

c: the crypto provider (`--features crypto-ring`, spdm-config-crypto.toml)
n: the default configuration without a crypto provider
"""
import fcntl, hashlib, os, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPDM_REPO', '/repo')
BUILD = os.environ.get('SPDM_BUILD', os.path.join(HERE, 'build'))
CFG = {'c': ('spdm-config-crypto.toml', ['--features', 'crypto-ring']), 'n': (None, [])}


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.pop('RUSTC_WORKSPACE_WRAPPER', None)
    e.pop('RUSTFLAGS', None)
    e.pop('SPDM_CONFIG', None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout.decode(errors='replace')


def sources():
    """every file of /repo the library build can read"""
    out = []
    for f in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and not f.startswith('.git'):
            out.append(f)
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == '.':
            ds[:] = [x for x in ds if x not in ('target', '.git')]
            continue
        ds.sort()
        out += [os.path.join(rel, f) for f in sorted(fs)]
    return out


def digest():
    h = hashlib.sha256()
    for base, files in ((REPO, sources()), (HERE, ['driver/src/main.rs', 'driver/Cargo.toml'])):
        for f in files:
            h.update(f.encode() + b'\0')
            with open(os.path.join(base, f), 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def driver():
    t = os.path.join(BUILD, 'driver')
    sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], os.path.join(HERE, 'driver'), {'CARGO_TARGET_DIR': t})
    return os.path.join(t, 'debug', 'mirdump')


def dump(cfg, drv, out):
    toml, feats = CFG[cfg]
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], REPO).strip().split('\n')[-1]
    tgt = os.path.join(BUILD, 't-' + cfg)
    # the driver has to run even when cargo believes the crate is up to date
    for sub in ('.fingerprint', 'build', 'incremental'):
        fp = os.path.join(tgt, 'debug', sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d == 'spdm' or d.startswith('spdm-'):
                    shutil.rmtree(os.path.join(fp, d))
    tmp = out + '.%d.tmp' % os.getpid()
    if os.path.exists(tmp):
        os.unlink(tmp)
    env = {'LD_LIBRARY_PATH': sysroot + '/lib', 'MIRDUMP_CRATE': 'spdm', 'MIRDUMP_OUT': tmp,
           'RUSTC_WORKSPACE_WRAPPER': drv, 'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0'}
    if toml:
        env['SPDM_CONFIG'] = toml
    cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--quiet'] + feats
    sh(cmd, REPO, env)
    if not os.path.exists(tmp):
        shutil.rmtree(tgt)
        sh(cmd, REPO, env)
    if not os.path.exists(tmp):
        raise BuildError('the driver produced no dump')
    os.rename(tmp, out)


def ensure(cfgs=('c', 'n')):
    """paths of the dumps of the current source; cfg -> path or BuildError"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = digest()
        res = {c: os.path.join(BUILD, 'dump-%s-%s.json' % (h, c)) for c in cfgs}
        todo = [c for c in cfgs if not os.path.exists(res[c])]
        if todo:
            for f in os.listdir(BUILD):
                if f.startswith('dump-') and h not in f:
                    os.unlink(os.path.join(BUILD, f))
            try:
                drv = driver()
            except BuildError as e:
                return {c: e for c in cfgs}

            def one(c):
                try:
                    dump(c, drv, res[c])
                except (BuildError, subprocess.TimeoutExpired, OSError) as e:
                    res[c] = e if isinstance(e, BuildError) else BuildError(repr(e))
            ts = [threading.Thread(target=one, args=(c,)) for c in todo]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        return res


if __name__ == '__main__':
    t = time.time()
    r = ensure()
    bad = 0
    for c, p in r.items():
        print(c, p if isinstance(p, str) else 'FAILED: %s' % p)
        bad |= not isinstance(p, str)
    print('%.1fs' % (time.time() - t))
    sys.exit(2 if bad else 0)
