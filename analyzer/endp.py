"""Whole-endpoint analysis: responder and requester as automata.

Each public entry point (`Responder::handle_msg`, `Responder::reset`,
`RequesterInit::next_request`, `RequesterInit::handle_msg`) is analysed by abstract
interpretation from every reachable phase.  The set of reachable phases and the value
sets of their fields are computed as a fixpoint, starting with `new`.
"""
from interp import *
from models import *
import proto
from view import settle

LIM = 16


# ---------------------------------------------------------------- value sets
def describe(I, v, st):
    if isinstance(v, T):
        try:
            vs = st.f.values(st.f.simp(v), LIM)
        except Split:
            vs = None
        if vs is not None and len(vs) <= LIM:
            return frozenset(vs)
        lo, hi = st.f.rng(st.f.simp(v))
        return ('rng', lo, hi)
    if isinstance(v, Agg):
        return ('agg', tuple(describe(I, x, st) for x in v.f))
    if isinstance(v, Enum):
        d = describe(I, v.d, st)
        n = len(I.P.types[v.ty]['variants'])
        ds = frozenset(range(n)) if d is None else d
        return ('enum', ds, {i: tuple(describe(I, x, st) for x in v.pl[i]) for i in ds if i in v.pl})
    return None


def join(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if isinstance(a, frozenset) or a[0] == 'rng':
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            u = a | b
            return u if len(u) <= LIM else ('rng', min(u), max(u))
        if not (isinstance(b, frozenset) or b[0] == 'rng'):
            return None
        la, ha = (min(a), max(a)) if isinstance(a, frozenset) else a[1:]
        lb, hb = (min(b), max(b)) if isinstance(b, frozenset) else b[1:]
        return ('rng', min(la, lb), max(ha, hb))
    if isinstance(b, frozenset) or a[0] != b[0]:
        return None
    if a[0] == 'agg':
        if len(a[1]) != len(b[1]):
            return None
        return ('agg', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    pl = {}
    for i in a[1] | b[1]:
        x, y = a[2].get(i), b[2].get(i)
        pl[i] = y if x is None else x if y is None else tuple(join(p, q) for p, q in zip(x, y))
    return ('enum', a[1] | b[1], pl)


def refine(I, v, d, st, name):
    """restrict a symbolic value to the value sets"""
    if d is None:
        return v
    if isinstance(v, T) and isinstance(d, frozenset):
        if len(d) == 1:
            return C(next(iter(d)))
        if v.k == 'c':
            return v
        lo, hi = min(d), max(d)
        a = v if v.k == 'n' else nvar(name + '!', lo, hi)
        st.f.restrict(a, vals=sorted(d))
        return a
    if isinstance(v, T) and not isinstance(d, frozenset) and d[0] == 'rng':
        if v.k != 'c':
            if d[1] > v.lo:
                st.f.ok(ge(v, C(int(d[1]))))
            if d[2] < v.hi:
                st.f.ok(le(v, C(int(d[2]))))
        return v
    if isinstance(v, Agg) and d[0] == 'agg':
        return Agg(tuple(refine(I, x, y, st, '%s.%d' % (name, i)) for i, (x, y) in enumerate(zip(v.f, d[1]))))
    if isinstance(v, Enum) and d[0] == 'enum':
        dd = refine(I, v.d, d[1], st, name + '#')
        pl = {i: tuple(refine(I, x, y, st, '%s.%d.%d' % (name, i, j)) for j, (x, y) in enumerate(zip(v.pl[i], d[2].get(i) or (None,) * len(v.pl[i]))))
              for i in d[1] if i in v.pl}
        return Enum(dd, pl, v.ty)
    return v


class Outcome:
    """one way an entry point can end"""
    __slots__ = ('st', 'ret', 'ev', 'phase', 'payload', 'taint', 'pre', 'ev0', 'reqrope', 'prest')

    def __init__(self, st, ret):
        self.st, self.ret = st, ret
        self.ev = st.ev
        self.taint = st.taint
        self.pre = None
        self.prest = None


class Missing(Exception):
    pass


class Endpoint:
    def __init__(self, prog, role, inline=()):
        self.P = prog
        self.role = role
        self.given = {}        # input atoms -> (lo, hi, values): inputs looked at
        self.I = I = Interp(prog, Models())
        self.K = proto.Contracts(I, inline=set(inline))
        adt = 'responder::Responder' if role == 'responder' else 'requester::RequesterInit'
        self.ty = None
        for i, t in enumerate(prog.types):
            if t.get('adt') == adt and t['k'] == 'adt':
                self.ty = i
        if self.ty is None:
            raise Missing(adt)
        self.fn = {}
        for i, x in enumerate(prog.insts):
            if x['local'] and x['blocks'] and x['path'].startswith(adt + '::<'):
                self.fn[x['path'].split('::')[-1]] = i
        sm = 'responder::AllStates' if role == 'responder' else 'requester::AllStates'
        self.sty = None
        for i, t in enumerate(prog.types):
            if t.get('adt') == sm:
                self.sty = i
        if self.sty is None:
            raise Missing(sm)
        self.variants = [v['name'] for v in prog.types[self.sty]['variants']]
        self.p_state = self.locate(lambda t: t.get('adt') == 'core::option::Option' and self.sty in self.targs(t))
        self.p_tr = self.locate(lambda t: (t.get('adt') or '').endswith('transcript::Transcript'))
        self.p_slots = self.locate(lambda t: t['k'] == 'array' and prog.types[t['elem']].get('adt') == 'core::option::Option')
        self.key = ('h', role)
        self.K.slots = prog.types[self.p_slots[1]]['len']

    def targs(self, t):
        return [f[1] for v in t['variants'] for f in v['fields']]

    def locate(self, pred):
        """path of struct fields to the (unique) datum of a type"""
        found = []

        def walk(ty, path):
            t = self.P.types[ty]
            if pred(t):
                found.append((path, ty))
                return
            if t['k'] == 'adt' and t['kind'] == 'struct' and t['local'] and len(path) < 4:
                for i, (n, f) in enumerate(t['variants'][0]['fields']):
                    walk(f, path + (('f', i),))
        walk(self.ty, ())
        if len(found) != 1:
            raise Missing('datum of %s' % self.role)
        return found[0]

    # -------------------------------------------------------------- running
    def initial(self):
        """phase of a new endpoint"""
        I = self.I
        st = State()
        i = self.fn.get('new')
        if i is None:
            raise Missing('new')
        x = self.P.insts[i]
        args = [I.sym(ty, 'new%d' % k, st) for k, ty in enumerate(x['locals'][1:1 + x['argc']])]
        return [(s, v) for s, v in I.run(i, args, st, 0)]

    def phase_of(self, st, obj):
        v = obj
        for p in self.p_state[0]:
            v = I_step(self.I, st, v, p)
        if not isinstance(v, Enum):
            return None, None
        d = st.f.simp(v.d)
        if d is not ONE:
            return None, None
        s = v.pl[1][0]
        if not isinstance(s, Enum):
            return None, None
        d = st.f.simp(s.d)
        if d.k != 'c':
            return ('?', st.f.values(d, 32)), s
        return self.variants[d.a], s

    def subkey(self, st, s):
        """options set in the phase payload, when certain"""
        d = st.f.simp(s.d)
        if d.k != 'c':
            return None
        pl = s.pl.get(d.a, ())
        t = self.P.types[self.sty]
        out = []
        for (n, ft), v in zip(t['variants'][d.a]['fields'], pl):
            tt = self.P.types[ft]
            if tt['k'] == 'adt' and tt['kind'] == 'struct' and isinstance(v, Agg):
                for (fn, f2), w in zip(tt['variants'][0]['fields'], v.f):
                    if self.P.types[f2].get('adt') == 'core::option::Option' and isinstance(w, Enum):
                        dd = st.f.simp(w.d)
                        out.append(dd.a if dd.k == 'c' else '*')
        return (self.variants[d.a],) + tuple(out)

    def build(self, key, D):
        """symbolic endpoint in a phase"""
        I = self.I
        st = State()
        obj = I.sym(self.ty, self.role, st)
        vi = self.variants.index(key[0])
        fs = self.P.types[self.sty]['variants'][vi]['fields']
        pl = tuple(I.sym(f[1], '%s.%s' % (key[0], f[0]), st) for f in fs)
        if D is not None:
            pl = tuple(refine(I, v, d, st, '%s.%d' % (key[0], i)) for i, (v, d) in enumerate(zip(pl, D)))
        s = Enum(C(vi), {vi: pl}, self.sty)
        st.o[self.key] = obj
        I.write(st, self.key, self.p_state[0], None, Enum(ONE, {1: (s,)}, self.p_state[1]))
        for a, (lo, hi, vals) in self.given.items():
            if vals is not None:
                st.f.restrict(a, vals=frozenset(vals))
            elif lo == hi:
                st.f.setv(a, lo)
            else:
                st.f.ok(ge(a, C(lo)))
                st.f.ok(le(a, C(hi)))
        return st

    def call(self, name, st, argn):
        """[(state, value)] of an entry point; arguments beyond self are arbitrary"""
        i = self.fn.get(name)
        if i is None:
            raise Missing(name)
        x = self.P.insts[i]
        I = self.I
        args = [Ref(self.key)]
        for k, ty in enumerate(x['locals'][2:1 + x['argc']]):
            nm = argn[k] if k < len(argn) else 'arg%d' % k
            args.append(nm if not isinstance(nm, str) else I.sym(ty, nm, st))
        return I.run(i, args, st, 0)

    def transcript(self, st):
        """bytes the transcript reports"""
        v = I_path(self.I, st, st.o[self.key], self.p_tr[0])
        i = self.P.find('transcript::Transcript::get')
        if not i:
            raise Missing('Transcript::get')
        s = st.clone()
        r = self.I.run(i[0], [Ref(self.key, self.p_tr[0])], s, 40)
        if len(r) != 1:
            raise Missing('Transcript::get forks')
        s, ref = r[0]
        return rnorm(self.I.deref(s, ref).r, st.f)

    # -------------------------------------------------------------- fixpoint
    def explore(self, rounds=60):
        """phases: key -> {'D': value sets, 'outs': {entry: [Outcome]}}"""
        self.phases = {}
        self.order = []
        work = []

        def arrive(st, obj):
            name, s = self.phase_of(st, obj)
            if name is None or isinstance(name, tuple):
                self.I.taint(st, 'phase not determined: %r' % (name,))
                self.lost = True
                return None
            key = self.subkey(st, s)
            vi = self.variants.index(key[0])
            D = tuple(describe(self.I, v, st) for v in s.pl.get(vi, ()))
            if key not in self.phases:
                self.phases[key] = {'D': D, 'outs': None}
                self.order.append(key)
                work.append(key)
            else:
                p = self.phases[key]
                J = tuple(join(a, b) for a, b in zip(p['D'], D))
                if J != p['D']:
                    p['D'] = J
                    if key not in work:
                        work.append(key)
            return key
        self.lost = False
        self.init = []
        for st, v in self.initial():
            st.o[self.key] = v
            self.init.append((st, v))
            arrive(st, v)
        n = 0
        while work:
            n += 1
            if n > rounds:
                raise Abort('phases do not converge')
            key = work.pop(0)
            self.phases[key]['outs'] = outs = self.step(key, self.phases[key]['D'])
            for name in outs:
                outs[name] = [x for o in outs[name] for x in self.cases(o)]
            for name, os in outs.items():
                for o in os:
                    o.pre = key
                    if o.st is None:
                        continue
                    o.phase = arrive(o.st, o.st.o[self.key])
                    o.payload = self.phase_of(o.st, o.st.o[self.key])[1]
        return self.phases

    def cases(self, o, limit=400):
        """an outcome whose phase or result is a case distinction, one outcome per case"""
        I = self.I

        def discs(o):
            v = o.st.o[self.key]
            for p in self.p_state[0]:
                v = I.step(o.st, v, p)
            if isinstance(v, Enum):
                yield v.d
                if o.st.f.simp(v.d) is ONE and isinstance(v.pl[1][0], Enum):
                    yield v.pl[1][0].d

            def rv(v, n):
                if isinstance(v, Agg):
                    for x in v.f:
                        yield from rv(x, n)
                elif isinstance(v, Enum) and n:
                    yield v.d
                    d = o.st.f.simp(v.d)
                    if d.k == 'c':
                        for x in v.pl.get(d.a, ()):
                            if isinstance(x, Enum):
                                yield from rv(x, n - 1)
                            elif isinstance(x, T):
                                y = o.st.f.simp(x)
                                if y.k != 'c' and set(o.st.f.values(y, 3) or (2,)) <= {0, 1}:
                                    yield y
            yield from rv(o.ret, 2)
        work, out = [o], []
        while work:
            o = work.pop()
            for d in discs(o):
                d = o.st.f.simp(d)
                if d.k == 'c':
                    continue
                vs = o.st.f.values(d, 32)
                if vs is None:
                    continue
                for v in sorted(vs):
                    s = o.st.clone()
                    if s.f.ok(eq(d, C(v))) and settle(s):
                        m = s.f.simp
                        if s.f.simp(d).k != 'c':
                            # not expressible as a fact on its parts: put the value in place
                            d2 = s.f.simp(d)

                            def m(t, d2=d2, v=v, s=s):
                                t = s.f.simp(t)
                                return C(v) if t is d or t is d2 else t
                            s.o[self.key] = t_map(s.o[self.key], m)
                        n = Outcome(s, t_map(o.ret, m))
                        for k in ('ev0', 'reqrope'):
                            if hasattr(o, k):
                                setattr(n, k, getattr(o, k))
                        n.prest = o.prest
                        work.append(n)
                break
            else:
                out.append(o)
            if len(out) + len(work) > limit:
                raise Abort('too many cases of an outcome')
        return out

    def step(self, key, D):
        def mkout(s, v, pre):
            o = Outcome(s, v)
            o.prest = pre
            return o
        st = self.build(key, D)
        pre = st.clone()
        if self.role == 'responder':
            out = {'handle_msg': [mkout(s, v, pre) for s, v in self.call('handle_msg', st, ['req', 'rsp'])]}
            st = self.build(key, D)
            out['reset'] = [mkout(s, v, pre) for s, v in self.call('reset', st, [])]
            return out
        out = {'next_request': [], 'handle_msg': []}
        for s, v in self.call('next_request', st, ['buf']):
            out['next_request'].append(mkout(s, v, pre))
        for o in list(out['next_request']):
            d = o.st.f.decide(eq(o.ret.d, ZERO))
            if d is not True:
                continue
            s = o.st.clone()
            s.ev = ()
            for s2, v2 in self.call('handle_msg', s, ['msg']):
                h = mkout(s2, v2, o.st)
                h.ev0 = o.ev
                h.reqrope = rnorm(self.I.deref(o.st, o.ret.pl[0][0]).r, o.st.f)
                out['handle_msg'].append(h)
        # a response in a phase that sends nothing (failed, complete)
        if not any(o.st.f.decide(eq(o.ret.d, ZERO)) is not False for o in out['next_request']):
            st = self.build(key, D)
            for s2, v2 in self.call('handle_msg', st, ['msg']):
                h = mkout(s2, v2, pre)
                h.ev0 = ()
                h.reqrope = None
                out['handle_msg'].append(h)
        return out

    def unsolicited(self, key, D):
        """handle_msg of a requester that has not sent anything in this phase.  The caller broke
        the alternation, so a panic on such a path is only a path that ends."""
        I = self.I
        keep = dict(I.panics)
        out = []
        try:
            st = self.build(key, D)
            pre = st.clone()
            for s, v in self.call('handle_msg', st, ['msg']):
                o = Outcome(s, v)
                o.prest, o.ev0, o.reqrope = pre, (), None
                out += self.cases(o)
        finally:
            I.panics.clear()
            I.panics.update(keep)
        for o in out:
            o.pre = key
            o.phase, o.payload = self.phase_of(o.st, o.st.o[self.key])
            if isinstance(o.phase, str):
                o.phase = self.subkey(o.st, o.payload)
            else:
                o.phase = None
        return out

    def base_rope(self, name):
        for b in bases():
            if b.name == name:
                return b
        return None


def bases():
    import dom
    return dom._bases.values()


def I_step(I, st, v, p):
    return I.step(st, v, p)


def I_path(I, st, v, path):
    for p in path:
        v = I.step(st, v, p)
    return v
