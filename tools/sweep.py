#!/usr/bin/env python3
"""Runs the checks over edits of /repo: sweep.py FILE [-c C01,C02] [-n NAME,..] [-b]
FILE holds blocks "name\\n@@ file\\nold\\n===\\nnew" separated by lines of "----".
Each edit is applied to a scratch copy of /repo under /tmp, and every check whose
outcome is not a clean pass is printed.  -b: also builds and runs the test suite's library tests."""
import sys, os, re, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
def opt(k, d=None):
    if k in a:
        i = a.index(k); v = a[i + 1]; del a[i:i + 2]; return v
    return d
cs, names, J = opt('-c'), opt('-n'), int(opt('-j', '8'))
tests = '-b' in a
if tests: a.remove('-b')
man = json.load(open(os.path.join(H, 'MANIFEST.json')))
checks = cs.split(',') if cs else [c['property'] for c in man['checks']]
blocks = [b for b in re.split(r'\n----\n', open(a[0]).read().strip('\n'))]
W = '/tmp/sweep-%d' % os.getpid()
try:
    for blk in blocks:
        name, *subs = re.split(r'\n@@ ', '\n' + blk)
        name = name.strip()
        if names and name not in names.split(','): continue
        R = W + '/repo'
        shutil.rmtree(W, ignore_errors=True); os.makedirs(R)
        subprocess.run('cd /repo && git archive HEAD | tar x -C %s' % R, shell=True, check=True)
        bad = None
        for s in subs:
            f, rest = s.split('\n', 1)
            old, new = (rest.split('\n===\n') if '\n===\n' in rest else (rest[:-4] if rest.endswith('\n===') else rest, ''))
            t = open(R + '/' + f).read()
            if t.count(old) != 1: bad = '%s: pattern occurs %d times' % (f, t.count(old)); break
            open(R + '/' + f, 'w').write(t.replace(old, new))
        if bad: print('##', name, 'NOT APPLIED', bad, flush=True); continue
        env = dict(os.environ, SPDM_REPO=R, SPDM_BUILD=W + '/build', SPDM_EVIDENCE=W + '/ev')
        o = subprocess.run(['python3', 'analyzer/build.py'], cwd=H, env=env, capture_output=True, text=True)
        if o.returncode: print('##', name, 'DOES NOT BUILD', o.stderr[-1500:], flush=True); continue
        if tests:
            t = subprocess.run('cp -a /repo/target . 2>/dev/null; cargo test --offline --lib 2>&1 | tail -5; SPDM_CONFIG=spdm-config-crypto.toml cargo test --offline --features crypto-ring 2>&1 | grep -E "^test result|FAILED|failed|error" | head', cwd=R, shell=True, capture_output=True, text=True)
            print('   tests', name, t.stdout[-600:], flush=True)
        def one(c):
            try:
                o = subprocess.run(['python3', 'check.py', c], cwd=H, env=env, capture_output=True, text=True, timeout=900)
                return c, o.returncode, o.stdout + o.stderr
            except subprocess.TimeoutExpired: return c, 'timeout', ''
        with ThreadPoolExecutor(J) as ex:
            for c, rc, out in ex.map(one, checks):
                ls = [x for x in out.splitlines() if not x.startswith(('VIOLATION', 'KNOWN'))]
                head = next((x for x in ls if re.match(r'C\d\d: ', x)), '')
                m = re.search(r'(\d+) undecided', head)
                if rc != 0 or (m and m.group(1) != '0'):
                    print('##', name, '|', c, 'rc', rc, '|', head.replace(' obligations', '').replace(' discharged', ' ok'), '|', ' || '.join(x.strip()[:170] for x in ls if x is not head)[:520], flush=True)
        print('##', name, 'done', flush=True)
finally:
    shutil.rmtree(W, ignore_errors=True)
