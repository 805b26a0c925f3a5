#!/usr/bin/env python3
"""mkseed.py [IDS]: builds /verif/seeded/<id>/ from tools/demo/seeds*.py, after confirming each change in a scratch copy:
it applies, builds, passes the stable tests, its demo passes without it and fails with it.
mkseed.py --check [IDS]: runs this project's checks on a scratch copy with each change (the property's own, or all with --all)."""
import os, sys, subprocess, shutil, json, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#![cfg(feature = "crypto-ring")]
#![allow(unused_imports)]
#[path = "../../harness.rs"]
mod h;
use h::*;
use spdm::{requester::{self, RequesterInit, RequesterError}, responder::{self, Responder, ResponderError}};
use spdm::config::*;
use spdm::crypto::{Digests as _, ProvidedDigests, Signer};
use spdm::msgs::{self, algorithms::*, capabilities::*, Msg};
'''
W = '/tmp/mkseed'
import queue
SLOTS = queue.Queue()
for k in range(6):
    SLOTS.put('%s/k%d' % (W, k))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')


def seeds():
    out = {}
    for f in sorted(glob.glob(V + '/tools/demo/seeds*.py')):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def copy(dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    sh('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (dst, dst))


def edit(d, s):
    for f, old, new in s['edits']:
        p = d + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            return 'edit of %s matches %d times: %r' % (f, t.count(old), old[:60])
        open(p, 'w').write(t.replace(old, new))


TEST = '''export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0
SPDM_CONFIG=spdm-config-crypto.toml cargo test --workspace --features crypto-ring --offline --target-dir %s/tc 2>&1 && env -u SPDM_CONFIG cargo test --workspace --offline --lib --bins --tests --target-dir %s/tn 2>&1'''


def make(s):
    d = W + '/r'
    out = V + '/seeded/' + s['id']
    copy(d)
    e = edit(d, s)
    if e:
        return e
    diff = sh('git diff', d).stdout
    r = sh(TEST % (W, W), d)
    if r.returncode:
        return 'build or tests fail: ' + ' | '.join([l for l in r.stdout.splitlines() if 'error' in l or 'FAILED' in l or 'panicked' in l][:6])
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    shutil.copy(V + '/tools/demo/demo.sh', out)
    if not s.get('raw'):
        shutil.copy(V + '/tools/demo/harness.rs', out)
    open(out + '/demo.rs', 'w').write(s['demo'] if s.get('raw') else HEAD + s['demo'])
    res = []
    for k in ('patched', 'clean'):
        if k == 'clean':
            sh('git checkout -q -- .', d)
        r = sh('mkdir -p target && ln -sfn %s/tc target/crypto && ln -sfn %s/tn target/nocrypto && bash %s/demo.sh' % (W, W, out), d)
        res.append((r.returncode, [l for l in r.stdout.splitlines() if 'error' in l or 'panicked' in l or 'assert' in l or 'left' in l][:8]))
    if res[0][0] == 0 or res[1][0] != 0:
        shutil.rmtree(out)
        return 'demo: patched %s, clean %s' % (res[0], res[1])
    if s['expect'] not in ' '.join(res[0][1]) if s.get('expect') else False:
        return 'unexpected failure %s' % (res[0],)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    print('   fails with:', res[0][1][:2])


def check(s, ids):
    d = SLOTS.get()
    try:
        return check_in(d, s, ids)
    finally:
        SLOTS.put(d)


def check_in(d, s, ids):
    bd = d + '-build'
    copy(d)
    r = sh('git apply %s/seeded/%s/patch.diff' % (V, s['id']), d)
    if r.returncode:
        return 'does not apply'
    ev = d + '/ev'
    os.makedirs(ev, exist_ok=True)
    r = sh('python3 %s/check.py %s' % (V, ' '.join(['--all'] + ids) if len(ids) != 1 else ids[0]), None, {'SPDM_REPO': d, 'SPDM_BUILD': bd, 'SPDM_EVIDENCE': ev})
    vs = [l for l in r.stdout.splitlines() if l.startswith('violated') or l.startswith('VIOLATION') or l.startswith('UNDECIDED') or 'obligations' in l]
    caught = sorted({l.split('property=')[1].split()[0] for l in vs if l.startswith('VIOLATION')})
    return caught, [l[:300] for l in vs if not l.startswith('VIOLATION') and 'obligations' not in l], [l[:200] for l in r.stdout.splitlines()[-3:]] if r.returncode not in (0, 1) else []


if __name__ == '__main__':
    a = sys.argv[1:]
    S = seeds()
    ids = [x for x in a if not x.startswith('--')]
    os.makedirs(W, exist_ok=True)
    ids = [i for i in ids or sorted(S) if '--check' not in a or os.path.exists(V + '/seeded/' + i)]
    if '--check' in a:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            rs = list(ex.map(lambda i: check(S[i], [] if '--all' in a else [S[i]['prop']]), ids))
        for i, r in zip(ids, rs):
            if isinstance(r, str):
                print(i, r)
            else:
                print('%s (%s): caught by %s %s' % (i, S[i]['prop'], r[0] or 'NOTHING', r[2]))
                for l in r[1][:2 if r[0] else 4]:
                    print('      ', l[:170])
    else:
        for i in ids:
            print(i, make(S[i]) or 'ok', flush=True)
