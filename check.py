#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]: decides one property from /repo's current source."""
import fnmatch, json, os, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
sys.setrecursionlimit(20000)
import build
from report import Report

BUDGET = {'quick': 540, 'thorough': 3000}
AGAIN = 220


class Budget(BaseException):
    pass


class Ctx:
    """lazily built programs and endpoint explorations, shared by the queries of one run"""

    def __init__(self, tier):
        self.tier = tier
        self._p = {}
        self._e = {}
        self.dumps = build.ensure()

    def prog(self, cfg):
        from prog import Prog
        if cfg not in self._p:
            d = self.dumps[cfg]
            if not isinstance(d, str):
                raise d
            self._p[cfg] = Prog(d)
        return self._p[cfg]

    def endpoint(self, cfg, role):
        import endp
        k = (cfg, role)
        if k not in self._e:
            try:
                e = endp.Endpoint(self.prog(cfg), role)
                e.explore()
                self._e[k] = e
            except Exception as x:
                self._e[k] = x
        if isinstance(self._e[k], Exception):
            raise self._e[k]
        return self._e[k]


def findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def second_look(C, R, Q, ctx):
    import confirm

    def alarm(*a):
        raise Budget()
    if ctx is None:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(AGAIN)
    try:
        confirm.run(C, R, Q)
    except (Budget, MemoryError) as e:
        R.note('second look stopped: %s' % type(e).__name__)
    finally:
        if ctx is None:
            signal.alarm(0)


def run(prop, tier, ctx=None):
    import queries
    t0 = time.time()
    R = Report(prop)
    Q = queries.ALL[prop]

    def alarm(*a):
        raise Budget()
    if ctx is None:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(BUDGET[tier])
    try:
        try:
            C = ctx or Ctx(tier)
            for cfg, d in C.dumps.items():
                if not isinstance(d, str):
                    R.und('build-%s' % cfg, 'the %s configuration does not build' % cfg, str(d)[-1500:])
            if not all(not isinstance(d, str) for d in C.dumps.values()):
                Q['fn'](C, R)
            elif any('error' in str(d) for d in C.dumps.values()):
                print('cannot build /repo: %s' % str(list(C.dumps.values())[0])[-2000:])
                return 3
        except Budget:
            R.und('budget', 'time budget used up')
        except MemoryError:
            R.und('memory', 'memory budget used up')
        except Exception as e:
            R.und('analysis', 'analysis stopped: %s: %s' % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-1500:])
    finally:
        if ctx is None:
            signal.alarm(0)
    if R.by('violated') and C._e:
        second_look(C, R, Q, ctx)
    known = findings(prop)
    viol, shown = [], []
    for k, v in R.by('violated'):
        if k in known:
            shown.append((k, v))
        else:
            viol.append((k, v))
    und = R.by('undecided')
    oks = R.by('ok')
    cov = {
        'obligations': len(R.obl), 'discharged': len(oks),
        'checker_cmd': 'python3 check.py %s' % prop,
        'trusted_base': Q['trust'],
        'rule': Q['rule'],
        'undecided': [{'obligation': k, 'what': v[1], 'detail': v[2]} for k, v in und][:40],
        'measured': R.counts,
        'samples': [{'obligation': k, 'rule': v[1]} for k, v in oks[:12]],
        'explanation': Q['rule'],
    }
    if R.notes:
        cov['notes'] = R.notes[:60]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': Q['level'],
          'coverage': cov, 'assumptions': Q['assume'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    ed = os.environ.get('SPDM_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(ed, exist_ok=True)
    rp = os.path.join(ed, prop + '.violations.json')
    if viol:
        cov['violated'] = [{'obligation': k, 'what': v[1], 'detail': v[2]} for k, v in viol]
        with open(rp, 'w') as f:
            json.dump(cov['violated'], f, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(ed, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1fs' % (prop, len(R.obl), len(oks), len(und), len(viol), time.time() - t0))
    for k, v in und[:20]:
        print('UNDECIDED %s: %s %s' % (k, v[1], ('-- ' + str(v[2])[:300]) if v[2] else ''))
    for k, v in shown:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for k, v in viol[:20]:
        print('violated %s: %s %s' % (k, v[1], ('-- ' + str(v[2])[:600]) if v[2] else ''))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    lim = 24 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    if '--all' in sys.argv:
        import queries
        ids = [p for p in sorted(queries.ALL) if not a or p in a]
        C = Ctx(tier)
        rc = 0
        for p in ids:
            rc |= run(p, tier, C)
        sys.exit(1 if rc else 0)
    sys.exit(run(a[0], tier))


if __name__ == '__main__':
    main()
