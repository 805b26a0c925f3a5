"""Second look at violations found on endpoint explorations.

The exploration merges states where paths meet, which forgets relations between values:
an obligation can then fail on a combination no real execution produces.  Every merge is
a sound over-approximation, so an obligation that holds in any one exploration holds.
A violation is therefore reported only if it also shows when the entry points are analysed
again, from the same phases, with paths kept apart for longer.
"""
import re, time
import dom, endp
from report import Report

LEVELS = (64, 400)
RUNS = 60                       # analyses on narrowed inputs, per obligation


class Again:
    """context whose endpoints are explored again at a finer level"""

    def __init__(self, C, late, sel, facts=None):
        self.C, self.late, self.sel, self.facts = C, late, sel, facts
        self.tier = C.tier
        self.dumps = C.dumps
        self._e = {}

    def prog(self, cfg):
        return self.C.prog(cfg)

    def endpoint(self, cfg, role):
        k = (cfg, role)
        if k not in self._e:
            self._e[k] = self.again(self.C.endpoint(cfg, role), cfg, role)
        return self._e[k]

    def again(self, E, cfg, role):
        E2 = endp.Endpoint(self.prog(cfg), role)
        E2.I.LATE = self.late
        E2.I.MAXSTATES = 5000
        if self.late >= 400:
            E2.I.ACC = 40
        E2.order = list(E.order)
        E2.init = E.init
        E2.lost = E.lost
        E2.phases = {}
        for key in E.order:
            p = E.phases[key]
            if self.sel is not None and (cfg, role, key) not in self.sel:
                E2.phases[key] = p if self.facts is None else {'D': p['D'], 'outs': {}}
                continue
            if self.facts is not None:
                E2.given = self.facts
            outs = E2.step(key, p['D'])
            for name in outs:
                outs[name] = [x for o in outs[name] for x in E2.cases(o, 4000)]
                for o in outs[name]:
                    o.pre = key
                    if o.st is not None:
                        o.phase, o.payload = E2.phase_of(o.st, o.st.o[E2.key])
                        o.phase = E2.subkey(o.st, o.payload) if isinstance(o.phase, str) else None
                        if o.phase is None:
                            E2.lost = True
            E2.phases[key] = {'D': p['D'], 'outs': outs}
        return E2


def run(C, R, Q, levels=LEVELS, want=('violated',)):
    """analyse again; obligations that hold there are discharged"""
    last = None
    for late in levels:
        keys = [k for k, v in R.obl.items() if v[0] in want]
        if not keys:
            return
        sel = set()
        for k in keys:
            w = R.where.get(k)
            if not w or None in w:
                sel = None
                break
            sel |= w
        R2 = Report(R.prop)
        try:
            Q['fn'](Again(C, late, sel), R2)
        except Exception as e:
            R.note('second look at level %d stopped: %s: %s' % (late, type(e).__name__, str(e)[:200]))
            continue
        new = [k for k, v in R2.obl.items() if v[0] != 'ok' and (k not in R.obl or R.obl[k][0] == 'ok')]
        if any(k.startswith(('explore-', 'undecided-', 'invariants-')) for k in new):
            R.note('second look at level %d gave up some paths' % late)
            continue
        for k in keys:
            s = R2.obl.get(k)
            if (s is not None and s[0] == 'ok') or (s is None and not new):
                R.note('%s: not confirmed with paths kept apart (up to %d states), discharged' % (k, late))
                R.obl[k] = ['ok', R.obl[k][1], None]
        R.count('obligations analysed again', len(keys))
        last = R2
    if last is not None:
        for k in [k for k, v in R.obl.items() if v[0] in want]:
            if k in last.fails and k in last.obl and last.obl[k][0] == 'violated':
                z = narrow(C, R, Q, k, last.fails[k])
                if z is True:
                    R.note('%s: confirmed on single inputs analysed without merging' % k)
                    return
                if z is False:
                    R.note('%s: not confirmed on the inputs that seemed to violate it, discharged' % k)
                    R.obl[k] = ['ok', R.obl[k][1], None]


def inputs(st, role, phase):
    """what the state says about single components of the input"""
    out = {}
    for a, d in st.f.dom.items():
        if a.k == 'v':
            n = str(a.a[1])
        elif a.k == 'o' and a.a[0] == 'sel':
            n = dom.show(a)
            if not re.fullmatch(r'\w+\[\d+\]', n):
                continue
        else:
            continue
        if not (n.startswith((role + '.', phase + '.', role + '[', 'req', 'rsp', 'buf')) or re.match(r'msg\d+\(|msg', n)):
            continue
        lo, hi, vals = d[0], d[1], d[2]
        if lo > a.lo or hi < a.hi or vals is not None:
            out[a] = (lo, hi, vals)
    return out


def narrow(C, R, Q, key, fails):
    """True: confirmed, False: not reproducible, None: not determined"""
    work = []
    for w, st in fails:
        if w is None or st is None:
            return None
        work.append((w, inputs(st, w[1], w[2][0])))
    n = 0
    while work:
        w, facts = work.pop()
        n += 1
        if n > RUNS or len(work) > 200:
            return None
        R2 = Report(R.prop)
        A = Again(C, 400, {w}, facts)
        try:
            Q['fn'](A, R2)
        except Exception as e:
            R.note('narrowed run for %s stopped: %s: %s' % (key, type(e).__name__, str(e)[:200]))
            return None
        R.count('analyses on narrowed inputs')
        s = R2.obl.get(key)
        if s is not None and s[0] == 'violated':
            if not sum(e.I.merged for e in A._e.values()):
                return True
            for w2, st in R2.fails[key]:
                if w2 != w or st is None:
                    return None
                f2 = inputs(st, w[1], w[2][0])
                if all(a in facts and facts[a] == v for a, v in f2.items()):
                    # nothing learnt: split one component
                    c = [(len(v[2]) if v[2] is not None else v[1] - v[0] + 1, dom.show(a), a, v) for a, v in f2.items()]
                    c = sorted(x[:2] + (i,) for i, x in enumerate(c) if 2 <= x[0] <= 8)
                    if not c:
                        return None
                    a, v = list(f2.items())[c[0][2]]
                    for z in (sorted(v[2]) if v[2] is not None else range(v[0], v[1] + 1)):
                        g = dict(f2)
                        g[a] = (z, z, None)
                        work.append((w, g))
                else:
                    work.append((w, f2))
        elif s is not None and s[0] == 'undecided':
            return None
        elif s is None and any(v[0] == 'violated' and (k not in R.obl or R.obl[k][0] != 'violated') for k, v in R2.obl.items()):
            return None
        if any(e.I.undecided for e in A._e.values()):
            return None
    return False
