"""Abstract interpreter over the MIR dump: values, stores, joins, functions."""
import heapq
from dom import *
import dom as D
from inv import Invariants


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.f))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.f == o.f

    __hash__ = None


class Enum:
    __slots__ = ('d', 'pl', 'ty')

    def __init__(self, d, pl, ty):
        self.d, self.pl, self.ty = d, pl, ty

    def __repr__(self):
        if self.d.k == 'c' and self.d.a in self.pl:
            return 'V%d%r' % (self.d.a, self.pl[self.d.a])
        return 'E<%r %r>' % (self.d, self.pl)

    def __eq__(self, o):
        return isinstance(o, Enum) and self.d is o.d and self.pl == o.pl

    __hash__ = None


class Bytes:
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return '<' + showrope(self.r) + '>'

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.r == o.r

    __hash__ = None


class Arr:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.e))

    def __eq__(self, o):
        return isinstance(o, Arr) and self.e == o.e

    __hash__ = None


class Ref:
    __slots__ = ('o', 'p', 'rg')

    def __init__(self, o, p=(), rg=None):
        self.o, self.p, self.rg = o, p, rg

    def __repr__(self):
        return '&%s%s%s' % (self.o, ''.join('.%s' % (s,) if False else '.' + '/'.join(map(str, s)) for s in self.p),
                            '' if self.rg is None else '[%s..+%s]' % self.rg)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.o == o.o and self.p == o.p and self.rg == o.rg

    __hash__ = None


class Opq:
    """a value of an opaque (external) type, or a function pointer"""
    __slots__ = ('k', 'v')

    def __init__(self, k, v=()):
        self.k, self.v = k, v

    def __repr__(self):
        return 'opq:%s%r' % (self.k, self.v)

    def __eq__(self, o):
        return isinstance(o, Opq) and self.k == o.k and self.v == o.v

    __hash__ = None


class It:
    """an iterator over a slice (kind: iter, itermut, chunks, exact, windows)"""
    __slots__ = ('kind', 'ref', 'n')

    def __init__(self, kind, ref, n=None):
        self.kind, self.ref, self.n = kind, ref, n

    def __repr__(self):
        return 'it:%s(%r)' % (self.kind, self.ref)

    def __eq__(self, o):
        return isinstance(o, It) and self.kind == o.kind and self.ref == o.ref and self.n == o.n

    __hash__ = None


class NoMerge(Exception):
    pass


class Abort(Exception):
    """the analysis cannot go on (resource limit, unsupported construct)"""


class State:
    __slots__ = ('o', 'f', 'ev', 'taint', 'own', 'lp', 'sp')

    def __init__(self):
        self.lp = {}
        self.o = {}
        self.f = Facts()
        self.ev = ()
        self.taint = ()
        self.own = 0
        self.sp = None         # the case distinction this state comes from

    def clone(self):
        s = State.__new__(State)
        s.o = dict(self.o)
        s.f = self.f.clone()
        s.ev = self.ev
        s.taint = self.taint
        s.own = 0
        s.lp = self.lp
        s.sp = None
        return s


def t_map(v, f):
    """map a term function over a value"""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Agg):
        return Agg(tuple(t_map(x, f) for x in v.f))
    if isinstance(v, Enum):
        return Enum(f(v.d), {k: tuple(t_map(x, f) for x in p) for k, p in v.pl.items()}, v.ty)
    if isinstance(v, Bytes):
        return Bytes(rnorm(rope_map(v.r, f)))
    if isinstance(v, Arr):
        return Arr(tuple(t_map(x, f) for x in v.e))
    if isinstance(v, Ref):
        rg = None if v.rg is None else (f(v.rg[0]), f(v.rg[1]))
        p = tuple(('i', f(s[1])) if s[0] == 'i' else s for s in v.p)
        return Ref(v.o, p, rg)
    if isinstance(v, It):
        return It(v.kind, t_map(v.ref, f), v.n)
    if isinstance(v, Opq):
        return Opq(v.k, tuple(t_map(x, f) if isinstance(x, (T, Agg, Enum, Bytes, Arr, Ref, It, Opq)) else
                              (rope_map(x, f) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0][0] in ('b', 's', 'f') else x)
                              for x in v.v))
    return v


def refs_in(v, acc):
    if isinstance(v, Ref):
        acc.append(v.o)
    elif isinstance(v, Agg):
        for x in v.f:
            refs_in(x, acc)
    elif isinstance(v, Enum):
        for p in v.pl.values():
            for x in p:
                refs_in(x, acc)
    elif isinstance(v, Arr):
        for x in v.e:
            refs_in(x, acc)
    elif isinstance(v, It):
        refs_in(v.ref, acc)
    elif isinstance(v, Opq):
        for x in v.v:
            refs_in(x, acc)


# --------------------------------------------------------------------- guards

def dom_diff(A, B):
    """atoms on whose value the two fact sets disagree: [(cost, kind, atom, SA, SB)]"""
    out = []
    seen = set()
    for src in (A.truth, B.truth):
        for a in src:
            if a in seen:
                continue
            seen.add(a)
            ta, tb = A.truth.get(a), B.truth.get(a)
            if ta is None:
                r = A.decide(a)
                ta = None if r is None else int(r)
            if tb is None:
                r = B.decide(a)
                tb = None if r is None else int(r)
            if ta is not None and tb is not None and ta != tb:
                out.append((2, a.id, 'in', a, frozenset((ta,)), frozenset((tb,))))
    for src in (A.dom, B.dom):
        for a in src:
            if a in seen:
                continue
            seen.add(a)
            da, db = A.d(a), B.d(a)
            if da == db:
                continue
            va, vb = da[2], db[2]
            if va is None and da[0] == da[1]:
                va = frozenset((da[0],))
            if vb is None and db[0] == db[1]:
                vb = frozenset((db[0],))
            if va is not None and vb is not None:
                if va & vb:
                    continue
                if len(va) + len(vb) <= 12:
                    out.append((len(va) + len(vb), a.id, 'in', a, va, vb))
                    continue
                if len(va) <= 6 and (vb is None or not va & vb):
                    out.append((len(va) + 3, a.id, 'in', a, va, None))
                    continue
                if len(vb) <= 6:
                    out.append((len(vb) + 3, a.id, 'in', a, None, vb))
                    continue
            elif va is not None and len(va) <= 12 and all(v in db[3] or v < db[0] or v > db[1] for v in va):
                out.append((len(va) + 3, a.id, 'in', a, va, None))
                continue
            elif vb is not None and len(vb) <= 12 and all(v in da[3] or v < da[0] or v > da[1] for v in vb):
                out.append((len(vb) + 3, a.id, 'in', a, None, vb))
                continue
            if da[1] < db[0]:
                out.append((6, a.id, 'ge', ge(a, C(int(db[0]))), frozenset((0,)), frozenset((1,))))
            elif db[1] < da[0]:
                out.append((6, a.id, 'ge', ge(a, C(int(da[0]))), frozenset((1,)), frozenset((0,))))
            elif da[4] & db[5] or da[5] & db[4]:
                m = (da[4] & db[5]) or (da[5] & db[4])
                m = m & -m
                bit = and_(a, m)
                if da[4] & m:
                    out.append((5, a.id, 'in', bit, frozenset((0,)), frozenset((m,))))
                else:
                    out.append((5, a.id, 'in', bit, frozenset((m,)), frozenset((0,))))
    # one side has an equality, the other its negation
    for X, Y, flip in ((A, B, False), (B, A, True)):
        for a, rhs in X.sub.items():
            if a in Y.sub:
                continue
            b = eq(a, rhs)
            if b.k == 'o' and b not in seen and Y.decide(b) is False:
                seen.add(b)
                out.append((4, b.id, 'in', b, frozenset((0 if flip else 1,)), frozenset((1 if flip else 0,))))
    out.sort(key=lambda x: (x[0], x[1]))
    return out


def in_set(a, vals):
    """boolean term: atom a in vals"""
    if len(vals) == 1:
        v = next(iter(vals))
        return eq(a, C(v))
    return tab(a, {v: ONE for v in vals}, ZERO)


class Guard:
    """states A and B are told apart by atom g: SA / SB (None = everything else)"""

    def __init__(self, g, SA, SB, lossy=False, fa=None, fb=None):
        self.g, self.SA, self.SB = g, SA, SB
        self.fa, self.fb = fa, fb
        self.lossy = lossy
        self.named = []
        self.merged = []
        self.bounds = []
        if SA is not None:
            self.cA = in_set(g, SA)
            self.cB = not_(self.cA) if SB is None else in_set(g, SB)
        else:
            self.cB = in_set(g, SB)
            self.cA = not_(self.cB)

    def spec(self, t, v):
        """t where g = v"""
        if t.k == 'c':
            return t
        return subst_atoms(t, {self.g: C(v)})

    def term(self, a, b):
        if a is b:
            return a
        for x, y, z in self.named:
            d = sub(a, x)
            if d is sub(b, y) or (d.k == 'c' and False):
                return add(z, d)
        if self.fa is not None:
            # an expression of one side that has the other's value under the other's facts
            if b.k != 'c' and self.fa.simp(b) is a:
                return b
            if a.k != 'c' and self.fb.simp(a) is b:
                return a
        r = self.term1(a, b)
        z = lazy(r)
        if z is not a and z is not b and z.k != 'c':
            self.merged.append((a, b, z))
        if z is not r:
            self.named.append((a, b, z))
            self.bounds.append((a, b, z))
        return z

    def term1(self, a, b):
        cases = {}
        dflt = None
        for S, t in ((self.SA, a), (self.SB, b)):
            if S is None:
                # t may itself be a case function over g
                if t.k == 'o' and t.a[0] == 'tab' and t.a[1] is self.g and t.a[3] is not None:
                    for v, u in t.a[2]:
                        cases.setdefault(v, u)
                    dflt = t.a[3]
                else:
                    dflt = t
            else:
                if len(S) > MAXTAB * 8:
                    raise NoMerge()
                for v in S:
                    cases[v] = self.spec(t, v)
        if self.g.k != 'v' and self.g.k != 'o':
            raise NoMerge()
        return tab(self.g, cases, dflt)


def merge_val(a, b, G):
    """G: Guard, or None for 'only if equal'"""
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, T):
        if not isinstance(b, T) or G is None:
            raise NoMerge()
        return G.term(a, b)
    if type(a) is not type(b):
        raise NoMerge()
    if isinstance(a, Agg):
        if len(a.f) != len(b.f):
            raise NoMerge()
        return Agg(tuple(merge_val(x, y, G) for x, y in zip(a.f, b.f)))
    if isinstance(a, Enum):
        d = a.d if a.d is b.d else (G.term(a.d, b.d) if G is not None else None)
        if d is None:
            raise NoMerge()
        pl = {}
        for k in set(a.pl) | set(b.pl):
            x, y = a.pl.get(k), b.pl.get(k)
            if x is None or (a.d.k == 'c' and a.d.a != k):
                if y is not None and not (b.d.k == 'c' and b.d.a != k):
                    pl[k] = y
            elif y is None or (b.d.k == 'c' and b.d.a != k):
                pl[k] = x
            else:
                pl[k] = tuple(merge_val(p, q, G) for p, q in zip(x, y))
        return Enum(d, pl, a.ty)
    if isinstance(a, Arr):
        if len(a.e) != len(b.e):
            raise NoMerge()
        return Arr(tuple(merge_val(x, y, G) for x, y in zip(a.e, b.e)))
    if isinstance(a, Bytes):
        if a.r == b.r:
            return a
        if G is None:
            raise NoMerge()
        if not G.lossy:
            return Bytes(merge_rope(a.r, b.r, G))
        try:
            return Bytes(merge_rope(a.r, b.r, G))
        except NoMerge:
            return Bytes(lossy_rope(a.r, b.r, G))
    if isinstance(a, Ref):
        if a.o == b.o and len(a.p) == len(b.p):
            p = []
            for s, t in zip(a.p, b.p):
                if s == t:
                    p.append(s)
                elif s[0] == 'i' and t[0] == 'i' and G is not None:
                    p.append(('i', G.term(s[1], t[1])))
                else:
                    raise NoMerge()
            if (a.rg is None) != (b.rg is None):
                raise NoMerge()
            rg = a.rg
            if rg is not None and rg != b.rg:
                if G is None:
                    raise NoMerge()
                rg = (G.term(a.rg[0], b.rg[0]), G.term(a.rg[1], b.rg[1]))
            return Ref(a.o, tuple(p), rg)
        raise NoMerge()
    if isinstance(a, It):
        if a.kind == b.kind and a.n == b.n:
            return It(a.kind, merge_val(a.ref, b.ref, G), a.n)
        raise NoMerge()
    if isinstance(a, Opq):
        if a == b:
            return a
        if a.k == b.k and len(a.v) == len(b.v):
            return Opq(a.k, tuple(x if (x is y or x == y) else merge_val(x, y, G) for x, y in zip(a.v, b.v)))
        raise NoMerge()
    if a == b:
        return a
    raise NoMerge()


def lossy_rope(a, b, G):
    """one of two byte strings of the same length, contents forgotten where they differ"""
    if rlen(a) is not rlen(b):
        raise NoMerge()
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[-1 - j] == b[-1 - j]:
        j += 1
    x, y = a[i:len(a) - j], b[i:len(b) - j]
    n = rlen(x)
    if n is not rlen(y):
        raise NoMerge()
    b0 = mkbase('join', (G.g, G.SA, G.SB, x, y), 'either%d' % G.g.id if hasattr(G.g, 'id') else 'either', n)
    return rnorm(tuple(a[:i]) + (('s', b0, ZERO, n),) + tuple(a[len(a) - j:]))


def merge_rope(a, b, G):
    la, lb = rlen(a), rlen(b)
    if la is not lb:
        raise NoMerge()
    a, b = list(a), list(b)
    out = []
    while a and b:
        p, q = a[0], b[0]
        if p == q:
            out.append(p)
            a.pop(0)
            b.pop(0)
            continue
        lp, lq = plen(p), plen(q)
        d = sub(lp, lq)
        if d.k != 'c':
            if p[0] == q[0] == 's' and p[1] is q[1] and len(a) == 1 and len(b) == 1:
                out.append(('s', p[1], G.term(p[2], q[2]), G.term(lp, lq)))
                return rnorm(tuple(out))
            raise NoMerge()
        n = min(lp, lq, key=lambda t: 0) if d.a == 0 else (lq if d.a > 0 else lp)
        # cut the longer one
        try:
            if d.a > 0:
                x, y = cut(p, lq)
                p = x
                a[0:1] = [x, y]
            elif d.a < 0:
                x, y = cut(q, lp)
                q = x
                b[0:1] = [x, y]
        except NoMerge:
            raise
        a.pop(0)
        b.pop(0)
        if p == q:
            out.append(p)
            continue
        if p[0] == q[0] == 's' and p[1] is q[1]:
            out.append(('s', p[1], G.term(p[2], q[2]), plen(p)))
            continue
        if p[0] == q[0] == 'f':
            out.append(('f', G.term(p[1], q[1]), plen(p)))
            continue
        if n.k == 'c' and n.a <= 96:
            out.append(('b', tuple(G.term(x, y) for x, y in zip(pbytes(p), pbytes(q)))))
            continue
        raise NoMerge()
    if a or b:
        raise NoMerge()
    return rnorm(tuple(out))


def cut(p, at):
    if p[0] == 's':
        return ('s', p[1], p[2], at), ('s', p[1], add(p[2], at), sub(p[3], at))
    if p[0] == 'f':
        return ('f', p[1], at), ('f', p[1], sub(p[2], at))
    if at.k != 'c':
        raise NoMerge()
    return ('b', p[1][:at.a]), ('b', p[1][at.a:])


def pbytes(p):
    if p[0] == 'b':
        return p[1]
    n = plen(p).a
    if p[0] == 's':
        return [sel(p[1], add(p[2], C(i))) for i in range(n)]
    return [p[1]] * n


def dom_terms(a, d, base):
    """what d says about atom a beyond base, as boolean terms"""
    out = []
    lo, hi, vals, ex, z, o = d
    if vals is not None:
        if base[2] != vals:
            out.append(in_set(a, vals))
        return out
    if lo > base[0]:
        out.append(ge(a, C(int(lo))))
    if hi < base[1]:
        out.append(le(a, C(int(hi))))
    for v in ex - base[3]:
        out.append(not_(eq(a, C(v))))
    zz = z & ~base[4]
    if zz and a.k in ('v', 'o'):
        out.append(eq(and_(a, zz), ZERO))
    oo = o & ~base[5]
    if oo:
        out.append(eq(and_(a, oo), C(oo)))
    return out


MAXCONJ = 3


def guardadd(gs, c, x):
    if c in x[0]:
        gs.append(x)
    elif len(x[0]) < MAXCONJ:
        gs.append(((c,) + x[0], x[1]))


def holds(F, x):
    """a guarded fact that is vacuous or true"""
    return any(F.decide(c) is False for c in x[0]) or all(F.decide(t) is tv for t, tv in x[1])


def join_facts(A, B, G, GMAX=120):
    """facts true in both; with a guard the rest is kept conditionally"""
    F = Facts()
    ga, gb = [], []
    for a in A.dom:
        da = A.dom[a]
        db = B.dom.get(a)
        if da == db:
            F.dom[a] = da
            continue
        if db is None:
            db = B.d(a)
            sb = B.sub.get(a)
            if sb is not None:
                l, h = B.rng(B.simp(sb))
                db = (max(db[0], l), min(db[1], h), None, NOEX, 0, 0)
        j = join_dom(a, da, db)
        base = (a.lo, a.hi, None, NOEX, 0, 0)
        if j is not None and j != base:
            F.dom[a] = j
            base = j
        if G is not None and a is not G.g:
            for t in dom_terms(a, da, base):
                ga.append((t, True))
            for t in dom_terms(a, db, base):
                gb.append((t, True))
    for a in B.dom:
        if a in A.dom:
            continue
        db = B.dom[a]
        da = A.d(a)
        sa = A.sub.get(a)
        if sa is not None:
            l, h = A.rng(A.simp(sa))
            da = (max(da[0], l), min(da[1], h), None, NOEX, 0, 0)
        j = join_dom(a, da, db)
        base = (a.lo, a.hi, None, NOEX, 0, 0)
        if j is not None and j != base:
            F.dom[a] = j
            base = j
        if G is not None and a is not G.g:
            for t in dom_terms(a, db, base):
                gb.append((t, True))
    for X, Y, g in ((A, B, ga), (B, A, gb)):
        for a, r in X.sub.items():
            if Y.sub.get(a) is r:
                F.sub[a] = r
            elif Y.decide(eq(a, r)) is True:
                F.sub[a] = r
            elif G is not None:
                g.append((eq(a, r), True))
        for a, t in X.truth.items():
            if Y.truth.get(a) == t:
                F.truth[a] = t
            else:
                r = Y.decide(a)
                if r is not None and int(r) == t:
                    F.truth[a] = t
                elif G is not None and a is not G.g:
                    g.append((a, t == 1))
        for e in X.lin:
            if e in F.lin:
                continue
            if e in Y.lin or Y.proves_ge(e):
                F.addlin(e)
            elif G is not None:
                g.append((ge0(e), True))
    # guards already there
    gs = []
    bset = set(B.guards)
    for x in A.guards:
        if x in bset:
            gs.append(x)
        elif holds(B, x):
            gs.append(x)
        elif G is not None:
            guardadd(gs, G.cA, x)
        # without a guard the guarded fact must hold in B as well
        elif all(B.decide(t) is tv for t, tv in x[1]):
            gs.append(x)
    aset = set(A.guards)
    for x in B.guards:
        if x not in aset:
            if holds(A, x):
                gs.append(x)
            elif G is not None:
                guardadd(gs, G.cB, x)
            elif all(A.decide(t) is tv for t, tv in x[1]):
                gs.append(x)
    if G is not None:
        if ga:
            gs.append(((G.cA,), tuple(dict.fromkeys(ga))))
        if gb:
            gs.append(((G.cB,), tuple(dict.fromkeys(gb))))
    if len(gs) > GMAX:
        gs = gs[-GMAX:]
    F.guards = tuple(gs)
    return F


def join_dom(a, x, y):
    lo, hi = min(x[0], y[0]), max(x[1], y[1])
    vals = None
    if x[2] is not None and y[2] is not None:
        vals = x[2] | y[2]
        if len(vals) > 300:
            vals = None
    elif x[2] is not None and y[0] == y[1]:
        vals = x[2] | {y[0]}
    elif y[2] is not None and x[0] == x[1]:
        vals = y[2] | {x[0]}
    elif x[0] == x[1] and y[0] == y[1]:
        vals = frozenset((x[0], y[0]))

    def rej(d, v):
        return v in d[3] or v < d[0] or v > d[1] or (d[2] is not None and v not in d[2])
    ex = frozenset(v for v in x[3] | y[3] if rej(x, v) and rej(y, v) and lo <= v <= hi)
    return (lo, hi, frozenset(vals) if vals is not None else None, ex, x[4] & y[4], x[5] & y[5])


class Interp:
    MAXSTATES = 3000
    LOSSYAT = 8
    LATE = 0                 # joins of up to so many states are left apart
    MAXITER = 2100
    EVERY = []               # the interpreters made in this process

    def __init__(self, prog, models=None, log=None):
        self.P = prog
        self.EVERY.append(self)
        self.const_objs = {}
        self.const_cache = {}
        self.models = models
        self.hooks = {}          # callee path -> function, consulted first
        self.panics = {}         # key -> info
        self.endless = {}        # loops an iteration of which ends where it began
        self.unbounded = {}      # loops generalised without a bound on their trip count
        self.loops = {}          # (function, head) -> most iterations followed one by one
        self.unmodelled = {}
        self.undecided = {}
        self.stack = []          # [(fn, live set)]
        self.reached = set()     # instances analysed
        self.blocks_seen = set()
        self.sites = {}          # obligations: (fn path, kind) -> count of evaluations
        self.nstmt = 0
        self.heap_n = 0
        self.lossy = 0
        self.merged = 0
        self.fnptrs = {}       # function pointers made
        self.limit = 60000000
        self.maxst = 0
        self.ids = {}
        self.trace = None
        if not hasattr(prog, 'inv'):
            prog.inv = Invariants(prog)
        self.inv = prog.inv

    Agg = Agg

    def length(self, st, v):
        if isinstance(v, Bytes):
            return rlen(v.r)
        if isinstance(v, Arr):
            return C(len(v.e))
        if isinstance(v, Ref):
            if v.rg is not None:
                return v.rg[1]
            return self.length(st, self.deref(st, v))
        return None

    # ------------------------------------------------------------ constants
    def const(self, ty, val):
        key = (ty, id(val))
        r = self.const_cache.get(key)
        if r is None:
            r = self.const_cache[key] = (self.mkconst(ty, val), val)
        return r[0]

    def mkconst(self, ty, val):
        t = self.P.types[ty]
        k = t['k']
        if val is None:
            return UNDEF
        h = val[0]
        if h == 'i':
            if k == 'adt':
                # scalar newtype / fieldless enum
                if t['kind'] == 'enum':
                    for i, v in enumerate(t['variants']):
                        if v['disc'] == val[1] or v['disc'] < 0 and v['disc'] & ((1 << 8 * t['size']) - 1) == val[1]:
                            return Enum(C(i), {i: ()}, ty)
                fs = t['variants'][0]['fields']
                out = []
                for n, ft in fs:
                    if self.P.types[ft].get('size') == 0:
                        out.append(self.zst(ft))
                    else:
                        out.append(self.mkconst(ft, val))
                return Agg(tuple(out))
            n = val[1]
            if k == 'int' and t['signed'] and n >= 1 << (t['bits'] - 1):
                n -= 1 << t['bits']
            return C(n)
        if h == 'agg':
            if k == 'adt' and t['kind'] == 'enum':
                vi = val[1] or 0
                fs = t['variants'][vi]['fields']
                return Enum(C(vi), {vi: tuple(self.mkconst(f[1], v) for f, v in zip(fs, val[2]))}, ty)
            if k == 'adt':
                fs = [f[1] for f in t['variants'][0]['fields']]
            else:
                fs = t.get('fields') or []
            return Agg(tuple(self.mkconst(f, v) for f, v in zip(fs, val[2])))
        if h == 'seq':
            el = t['elem']
            vs = [self.mkconst(el, v) for v in val[1]]
            if self.P.is_u8(el):
                return Bytes((('b', tuple(vs)),) if vs else ())
            return Arr(tuple(vs))
        if h == 'bytes':
            bs = bytes.fromhex(val[1])
            return Bytes(lit(bs))
        if h == 'ref':
            if val[1] is None:
                return Opq('ref?')
            to = t['to']
            v = self.mkconst(to, val[1])
            key = ('c', len(self.const_objs))
            for kk, vv in self.const_objs.items():
                if type(vv) is type(v) and vv == v and not isinstance(v, (Arr, Opq)):
                    key = kk
                    break
            self.const_objs[key] = v
            tk = self.P.types[to]['k']
            if tk in ('slice', 'str'):
                n = rlen(v.r) if isinstance(v, Bytes) else C(len(v.e)) if isinstance(v, Arr) else ZERO
                return Ref(key, (), (ZERO, n))
            return Ref(key, ())
        if h == 'fn':
            return Opq('fn', (val[1], val[2], val[3]))
        if h == 'zst':
            return self.zst(ty)
        if h == 'undef':
            return UNDEF
        if h == 'static':
            key = ('static', val[1])
            self.const_objs[key] = Opq('static', (val[1],))
            return Ref(key, ())
        return Opq('const', (str(val[1]) if len(val) > 1 else h,))

    def zst(self, ty):
        t = self.P.types[ty]
        k = t['k']
        if k == 'array':
            return Bytes(()) if self.P.is_u8(t['elem']) else Arr(tuple(self.zst(t['elem']) for _ in range(t['len'])))
        if k == 'adt':
            if t['kind'] == 'enum' and t['variants']:
                return Enum(ZERO, {0: tuple(self.zst(f[1]) for f in t['variants'][0]['fields'])}, ty)
            if t['variants']:
                return Agg(tuple(self.zst(f[1]) for f in t['variants'][0]['fields']))
            return Agg(())
        if k in ('tuple', 'closure'):
            return Agg(tuple(self.zst(f) for f in t['fields']))
        if k == 'fndef':
            return Opq('fndef', (t['callee']['inst'] if t.get('callee') else None,))
        return Agg(())

    # -------------------------------------------------------- symbolic values
    def sym(self, ty, name, st=None, fresh=True, lens=None):
        """an arbitrary value of the type, built from named atoms"""
        t = self.P.types[ty]
        k = t['k']
        if k == 'int':
            if t['signed']:
                return nvar(name, -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1)
            return nvar(name, 0, (1 << t['bits']) - 1)
        if k == 'bool':
            return nvar(name, 0, 1)
        if k == 'char':
            return nvar(name, 0, 0x10ffff)
        if k == 'array':
            if self.P.is_u8(t['elem']):
                n = t['len']
                if n == 0:
                    return Bytes(())
                return Bytes((('s', mkbase('in', (name, n), name, C(n)), ZERO, C(n)),))
            return Arr(tuple(self.sym(t['elem'], '%s[%d]' % (name, i), st) for i in range(t['len'])))
        if k in ('tuple', 'closure'):
            return Agg(tuple(self.sym(f, '%s.%d' % (name, i), st) for i, f in enumerate(t['fields'])))
        if k == 'adt':
            sp = self.models.symtype(self, ty, name, st) if self.models is not None else None
            if sp is not None:
                return sp
            if not t['local'] and t['adt'] not in ('core::option::Option', 'core::result::Result', 'core::ops::Range'):
                return Opq('sym', (name,))
            vs = t['variants']
            if t['kind'] == 'enum':
                n = len(vs)
                d = ZERO if n == 1 else nvar(name + '#', 0, n - 1)
                return Enum(d, {i: tuple(self.sym(f[1], '%s.%s.%s' % (name, v['name'], f[0]), st) for f in v['fields'])
                                for i, v in enumerate(vs)}, ty)
            return Agg(tuple(self.sym(f[1], name + '.' + f[0], st) for f in vs[0]['fields']))
        if k == 'ref':
            to = t['to']
            tt = self.P.types[to]
            key = ('h', name)
            if st is None:
                return Opq('sym', (name,))
            if tt['k'] == 'slice' and self.P.is_u8(tt['elem']) or tt['k'] == 'str':
                n = nvar('len(%s)' % name, 0, 1 << 47)
                st.o[key] = Bytes((('s', mkbase('in', (name, n), name, n), ZERO, n),))
                return Ref(key, (), (ZERO, n))
            st.o[key] = self.sym(to, '*' + name, st)
            return Ref(key)
        return Opq('sym', (name,))

    def havoc(self, ty, name, st=None):
        """any value of the type: the analysis lost track"""
        t = self.P.types[ty]
        k = t['k']
        if k == 'int':
            lo, hi = (-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1) if t['signed'] else (0, (1 << t['bits']) - 1)
            return var(name, lo, hi, taint=True)
        if k == 'bool':
            return var(name, 0, 1, taint=True)
        if k == 'char':
            return var(name, 0, 0x10ffff, taint=True)
        if k == 'array':
            if self.P.is_u8(t['elem']):
                return Bytes((('s', freshbase('?' + name, C(t['len']), 'havoc'), ZERO, C(t['len'])),)) if t['len'] else Bytes(())
            return Arr(tuple(self.havoc(t['elem'], name) for _ in range(t['len'])))
        if k in ('tuple', 'closure'):
            return Agg(tuple(self.havoc(f, name) for f in t['fields']))
        if k == 'adt' and (t['local'] or t['adt'] in ('core::option::Option', 'core::result::Result', 'core::ops::ControlFlow')):
            vs = t['variants']
            if t['kind'] == 'enum':
                n = len(vs)
                d = ZERO if n == 1 else var(name + '#', 0, max(n - 1, 0), taint=True)
                return Enum(d, {i: tuple(self.havoc(f[1], name) for f in v['fields']) for i, v in enumerate(vs)}, ty)
            return Agg(tuple(self.havoc(f[1], name) for f in vs[0]['fields']))
        if k == 'ref' and st is not None:
            to = t['to']
            tt = self.P.types[to]
            self.heap_n += 1
            key = ('h', '?%s%d' % (name, self.heap_n))
            if tt['k'] == 'str' or (tt['k'] == 'slice' and self.P.is_u8(tt['elem'])):
                n = var('len(?%s)' % name, 0, (1 << 40), taint=True)
                st.o[key] = Bytes((('s', freshbase('?' + name, n, 'havoc'), ZERO, n),))
                return Ref(key, (), (ZERO, n))
            if tt['k'] not in ('slice', 'dyn'):
                st.o[key] = self.havoc(to, name, st)
                return Ref(key)
        return Opq('havoc', (name,))

    # ---------------------------------------------------------------- places
    def load_obj(self, st, o):
        v = st.o.get(o)
        if v is None:
            v = self.const_objs.get(o, UNDEF)
        return v

    def sub_get(self, st, v, path, rg):
        for s in path:
            v = self.step(st, v, s)
        if rg is not None:
            v = self.slice_get(st, v, rg)
        return v

    def slice_get(self, st, v, rg):
        if isinstance(v, Bytes):
            start, ln = rg
            if start is ZERO and ln is rlen(v.r):
                return v
            return Bytes(rslice(st.f, v.r, st.f.simp(start), st.f.simp(ln)))
        if isinstance(v, Arr):
            s, l = st.f.simp(rg[0]), st.f.simp(rg[1])
            if s.k == 'c' and l.k == 'c':
                return Arr(v.e[s.a:s.a + l.a])
            for t in (s, l):
                if t.k != 'c':
                    vals = st.f.values(t, 40)
                    if vals is not None:
                        raise Split([eq(t, C(x)) for x in sorted(vals)], 'slice range')
            raise Give('symbolic slice of values')
        if v is UNDEF:
            return v
        raise Give('slice of %s' % type(v).__name__)

    def step(self, st, v, s):
        k = s[0]
        if k == 'f':
            if isinstance(v, Agg):
                return v.f[s[1]] if s[1] < len(v.f) else UNDEF
            if v is UNDEF:
                return UNDEF
            raise Give('field of %r' % type(v).__name__)
        if k == 'v':
            if isinstance(v, Enum):
                p = v.pl.get(s[1])
                if p is None:
                    return UNDEF
                return Agg(p)
            if v is UNDEF:
                return UNDEF
            raise Give('variant of %r' % type(v).__name__)
        if k == 'i':
            i = st.f.simp(s[1])
            if isinstance(v, Bytes):
                return rget(st.f, v.r, i)
            if isinstance(v, Arr):
                if i.k == 'c':
                    if 0 <= i.a < len(v.e):
                        return v.e[i.a]
                    raise Give('index out of array')
                vals = st.f.values(i, 300)
                if vals is None:
                    # lossless read when all elements are scalars
                    lo, hi = st.f.rng(i)
                    raise Give('symbolic array index')
                if len(vals) == 1:
                    return v.e[next(iter(vals))]
                raise Split([eq(i, C(x)) for x in sorted(vals)], 'array index')
            if v is UNDEF:
                return UNDEF
            raise Give('index of %r' % type(v).__name__)
        raise Give('step %r' % (s,))

    def sub_set(self, st, v, path, rg, new, i=0):
        if i == len(path):
            if rg is None:
                return new
            if isinstance(v, Bytes):
                if not isinstance(new, Bytes):
                    raise Give('slice store')
                return Bytes(rwrite(st.f, v.r, st.f.simp(rg[0]), new.r, st.f.simp(rg[1])))
            if isinstance(v, Arr) and isinstance(new, Arr):
                s = st.f.simp(rg[0])
                if s.k == 'c':
                    e = list(v.e)
                    e[s.a:s.a + len(new.e)] = new.e
                    return Arr(tuple(e))
            raise Give('slice store')
        s = path[i]
        k = s[0]
        if k == 'f':
            if v is UNDEF:
                v = Agg(())
            if not isinstance(v, Agg):
                raise Give('field store into %r' % type(v).__name__)
            f = list(v.f)
            while len(f) <= s[1]:
                f.append(UNDEF)
            f[s[1]] = self.sub_set(st, f[s[1]], path, rg, new, i + 1)
            return Agg(tuple(f))
        if k == 'v':
            if v is UNDEF:
                v = Enum(C(s[1]), {}, None)
            if not isinstance(v, Enum):
                raise Give('variant store into %r' % type(v).__name__)
            cur = Agg(v.pl.get(s[1], ()))
            nv = self.sub_set(st, cur, path, rg, new, i + 1)
            pl = dict(v.pl)
            pl[s[1]] = nv.f
            return Enum(v.d, pl, v.ty)
        if k == 'i':
            ix = st.f.simp(s[1])
            if isinstance(v, Bytes):
                if i + 1 == len(path) and rg is None:
                    if not isinstance(new, T):
                        raise Give('byte store')
                    return Bytes(rset(st.f, v.r, ix, st.f.simp(new)))
                raise Give('deep store into bytes')
            if isinstance(v, Arr):
                if ix.k != 'c':
                    vals = st.f.values(ix, 300)
                    if vals is None:
                        raise Give('symbolic array store')
                    if len(vals) > 1:
                        raise Split([eq(ix, C(x)) for x in sorted(vals)], 'array store')
                    ix = C(next(iter(vals)))
                e = list(v.e)
                if not (0 <= ix.a < len(e)):
                    raise Give('store out of array')
                e[ix.a] = self.sub_set(st, e[ix.a], path, rg, new, i + 1)
                return Arr(tuple(e))
            raise Give('index store into %r' % type(v).__name__)
        raise Give('store step %r' % (s,))

    def read(self, st, o, path=(), rg=None):
        return self.sub_get(st, self.load_obj(st, o), path, rg)

    def write(self, st, o, path, rg, new):
        if not path and rg is None:
            st.o[o] = new
            return
        st.o[o] = self.sub_set(st, self.load_obj(st, o), path, rg, new)

    def deref(self, st, r):
        """value behind a reference"""
        if not isinstance(r, Ref):
            raise Give('deref of %r' % (r,))
        return self.read(st, r.o, r.p, r.rg)

    def resolve(self, st, d, pl):
        """(object, path, range) of a place in frame d"""
        o = (d, pl[0])
        path = ()
        rg = None
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, o, path, rg)
                if isinstance(v, Agg) and len(v.f) == 1:
                    v = v.f[0]
                if not isinstance(v, Ref):
                    raise Give('deref of %r' % (v,))
                o, path, rg = v.o, v.p, v.rg
            elif k == 'f':
                path = path + (('f', e[1]),)
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k == 'i':
                i = st.f.simp(st.o[(d, e[1])])
                if rg is not None:
                    i = add(rg[0], i)
                    rg = None
                path = path + (('i', i),)
            elif k == 'ci':
                off, from_end = e[1], e[3]
                if rg is not None:
                    i = add(rg[0], C(off)) if not from_end else add(add(rg[0], rg[1]), C(-off))
                    rg = None
                else:
                    if from_end:
                        v = self.read(st, o, path, None)
                        n = rlen(v.r) if isinstance(v, Bytes) else C(len(v.e))
                        i = sub(n, C(off))
                    else:
                        i = C(off)
                path = path + (('i', st.f.simp(i)),)
            elif k == 'ss':
                a, b, from_end = e[1], e[2], e[3]
                if rg is None:
                    v = self.read(st, o, path, None)
                    n = rlen(v.r) if isinstance(v, Bytes) else C(len(v.e))
                    rg = (ZERO, n)
                if from_end:
                    rg = (add(rg[0], C(a)), sub(rg[1], C(a + b)))
                else:
                    rg = (add(rg[0], C(a)), C(b - a))
                rg = (st.f.simp(rg[0]), st.f.simp(rg[1]))
            elif k == 'cast':
                pass
            else:
                raise Give('projection %r' % (e,))
        return o, path, rg

    def operand(self, st, d, op):
        k = op[0]
        if k == 'k':
            return self.const(op[1], op[2])
        pl = op[1]
        if not pl[1]:
            v = st.o.get((d, pl[0]), UNDEF)
            if isinstance(v, T) and v.k != 'c':
                return st.f.simp(v)
            return v
        o, path, rg = self.resolve(st, d, pl)
        v = self.read(st, o, path, rg)
        if isinstance(v, T) and v.k != 'c':
            return st.f.simp(v)
        return v

    # --------------------------------------------------------------- rvalues
    def place_ty(self, fn, pl):
        pass

    def disc_value(self, st, v):
        """discriminant value of an enum value, as a term"""
        if v is UNDEF:
            raise Give('discriminant of undefined value')
        if not isinstance(v, Enum):
            raise Give('discriminant of %r' % type(v).__name__)
        d = st.f.simp(v.d)
        if v.ty is None:
            return d
        vs = self.P.types[v.ty]['variants']
        if all(x['disc'] == i for i, x in enumerate(vs)):
            return d
        if d.k == 'c':
            return C(vs[d.a]['disc'])
        vals = st.f.values(d, 300)
        cases = {i: C(x['disc']) for i, x in enumerate(vs) if vals is None or i in vals}
        if d.k in ('v', 'o'):
            if d.k == 'o' and d.a[0] == 'tab':
                return tabmap_t(d, lambda z: C(vs[z.a]['disc']) if z.k == 'c' else None, st.f, cases)
            return tab(d, cases)
        if vals is not None:
            raise Split([eq(d, C(x)) for x in sorted(vals)], 'discriminant')
        raise Give('discriminant')

    def wrap(self, t, bits, signed):
        if not signed:
            return trunc(t, bits)
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if t.lo >= lo and t.hi <= hi:
            return t
        if t.k == 'c':
            v = t.a & ((1 << bits) - 1)
            return C(v - (1 << bits) if v > hi else v)
        return opq('swrap%d' % bits, (t,), lo, hi)

    def binop(self, st, op, a, b, ty, fn=None):
        f = st.f
        if a is UNDEF or b is UNDEF:
            raise Give('operand undefined')
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op in ('Eq', 'Ne') and isinstance(a, Ref) and isinstance(b, Ref):
                raise Give('pointer comparison')
            if op == 'Offset' and isinstance(a, Ref) and isinstance(b, T) and a.rg is None and a.p and a.p[-1][0] == 'i':
                return Ref(a.o, a.p[:-1] + (('i', f.simp(add(a.p[-1][1], b))),))
            raise Give('pointer arithmetic')
        if not isinstance(a, T) or not isinstance(b, T):
            raise Give('binop on %r' % type(a).__name__)
        bs = self.P.bits(ty)
        bits, signed = bs if bs else (64, False)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = {'Eq': eq, 'Ne': lambda x, y: not_(eq(x, y)), 'Lt': lt, 'Le': le,
                 'Gt': lambda x, y: lt(y, x), 'Ge': ge}[op](a, b)
            return f.simp(r)
        if op == 'Cmp':
            l = f.decide(lt(a, b))
            if l is None:
                raise Split([lt(a, b), eq(a, b), lt(b, a)], 'cmp')
            if l:
                return 'ord', 0
            e = f.decide(eq(a, b))
            if e is None:
                raise Split([eq(a, b), lt(b, a)], 'cmp')
            return 'ord', (1 if e else 2)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else mul(a, b)
            r = f.simp(r)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            okl = f.decide(ge(r, C(lo))) if r.lo < lo else True
            okh = f.decide(le(r, C(hi))) if r.hi > hi else True
            if op.endswith('Unchecked') or (okl and okh):
                return Agg((r, ZERO)) if op.endswith('WithOverflow') else r
            if okl is None or okh is None:
                conds = []
                if okl is None:
                    conds.append(not_(ge(r, C(lo))))
                if okh is None:
                    conds.append(not_(le(r, C(hi))))
                inside = and2(ge(r, C(lo)), le(r, C(hi))) if okl is None and okh is None else (ge(r, C(lo)) if okl is None else le(r, C(hi)))
                raise Split([inside] + conds, 'overflow')
            w = self.wrap(r, bits, signed)
            return Agg((w, ONE)) if op.endswith('WithOverflow') else w
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if signed and (a.lo < 0 or b.lo < 0):
                raise Give('signed bit operation')
            r = {'BitAnd': and2, 'BitOr': or_, 'BitXor': xor_}[base](a, b)
            return f.simp(r)
        if base in ('Shl', 'Shr'):
            b = f.simp(b)
            if b.k != 'c':
                vals = f.values(b, 130)
                if vals is None:
                    raise Give('symbolic shift')
                if a.k == 'c' and all(0 <= v < bits for v in vals) and b.k in ('v', 'o') and len(vals) <= 70:
                    fun = (lambda v: (a.a << v) & ((1 << bits) - 1)) if base == 'Shl' else (lambda v: a.a >> v)
                    return tab(b, {v: C(fun(v)) for v in vals})
                raise Split([eq(b, C(v)) for v in sorted(vals)], 'shift amount')
            n = b.a & (bits - 1)
            if signed and a.lo < 0:
                raise Give('signed shift')
            return f.simp(shl(a, n, bits) if base == 'Shl' else shr(a, n))
        if base in ('Div', 'Rem'):
            b = f.simp(b)
            if b.k != 'c':
                vals = f.values(b, 70)
                if vals is None:
                    raise Give('symbolic divisor')
                raise Split([eq(b, C(v)) for v in sorted(vals)], 'divisor')
            if b.a <= 0 or a.lo < 0:
                raise Give('division')
            return f.simp(div(a, b.a) if base == 'Div' else rem(a, b.a))
        if base == 'Offset':
            raise Give('pointer arithmetic')
        raise Give('binop ' + op)

    def unop(self, st, op, a, ty):
        f = st.f
        if op == 'PtrMetadata':
            if isinstance(a, Ref):
                if a.rg is not None:
                    return f.simp(a.rg[1])
                v = self.deref(st, a)
                if isinstance(v, Bytes):
                    return f.simp(rlen(v.r))
                if isinstance(v, Arr):
                    return C(len(v.e))
                return Agg(())
            raise Give('metadata')
        if not isinstance(a, T):
            raise Give('unop on %r' % type(a).__name__)
        if op == 'Not':
            t = self.P.types[ty]
            if t['k'] == 'bool':
                return not_(a)
            if t['signed']:
                return sub(C(-1), a)
            return sub(C((1 << t['bits']) - 1), a)
        if op == 'Neg':
            bits, s = self.P.bits(ty)
            return self.wrap(mulc(a, -1), bits, s)
        raise Give('unop ' + op)

    def fnptr(self, v, fr, callee):
        t = self.P.types[fr]
        if callee is None and t['k'] == 'fndef':
            callee = t.get('callee')
        key = (fr, callee.get('inst') if callee else None, (callee.get('rpath') or callee.get('path')) if callee else None)
        self.fnptrs[key] = callee
        return Opq('fnptr', key)

    def cast(self, st, kind, v, fr, to, callee):
        P = self.P
        tt, ft = P.types[to], P.types[fr]
        if kind == 'IntToInt':
            if not isinstance(v, T):
                raise Give('int cast of %r' % type(v).__name__)
            bits, s = P.bits(to)
            r = st.f.simp(v)
            lo, hi = st.f.rng(r)
            if s:
                if lo >= -(1 << (bits - 1)) and hi < (1 << (bits - 1)):
                    return r
            elif lo >= 0 and hi < (1 << bits):
                return r
            return st.f.simp(self.wrap(r, bits, s))
        if kind == 'Unsize':
            if isinstance(v, Ref):
                a, b = ft, tt
                if a['k'] in ('ref', 'ptr') and b['k'] in ('ref', 'ptr'):
                    x, y = P.types[a['to']], P.types[b['to']]
                    if x['k'] == 'array' and y['k'] == 'slice':
                        if v.rg is not None:
                            return v
                        return Ref(v.o, v.p, (ZERO, C(x['len'])))
                return v
            return v
        if kind == 'Transmute':
            return self.transmute(st, v, fr, to)
        if kind.startswith('PtrToPtr') or kind in ('FnPtrToPtr', 'MutToConstPointer', 'ArrayToPointer') or 'Ptr' in kind or 'Pointer' in kind:
            if kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer'):
                return self.fnptr(v, fr, callee)
            if isinstance(v, Ref) and v.rg is not None and tt['k'] in ('ref', 'ptr') and P.types[tt['to']]['k'] not in ('slice', 'str') \
                    and P.types[tt['to']]['k'] != 'array':
                if ft['k'] in ('ref', 'ptr') and P.types[ft['to']]['k'] == 'slice' and P.types[ft['to']].get('elem') == tt['to']:
                    return Ref(v.o, v.p + (('i', v.rg[0]),))
                raise Give('slice to thin pointer')
            return v
        if kind in ('ReifyFnPointer', 'ClosureFnPointer'):
            return self.fnptr(v, fr, callee)
        raise Give('cast ' + kind)

    def transmute(self, st, v, fr, to):
        P = self.P
        if fr == to:
            return v
        ft, tt = P.types[fr], P.types[to]
        if ft['k'] in ('ref', 'ptr') and tt['k'] in ('ref', 'ptr'):
            return v
        if ft['k'] in ('int', 'char', 'bool') and tt['k'] == 'array' and P.is_u8(tt['elem']):
            n = tt['len']
            if isinstance(v, T):
                if v.lo < 0:
                    raise Give('transmute of signed')
                return Bytes((('b', tuple(st.f.simp(byte(i, v)) for i in range(n))),))
        if ft['k'] == 'array' and P.is_u8(ft['elem']) and tt['k'] == 'int' and isinstance(v, Bytes):
            bs = [rget(st.f, v.r, C(i)) for i in range(ft['len'])]
            if tt['signed']:
                raise Give('transmute to signed')
            return st.f.simp(from_le(bs))
        if ft['k'] == 'int' and tt['k'] in ('int', 'bool', 'char') and isinstance(v, T):
            bs = P.bits(to)
            return self.wrap(v, bs[0], bs[1])
        if ft['k'] in ('bool', 'char') and tt['k'] == 'int' and isinstance(v, T):
            return v
        if ft['k'] == 'int' and tt['k'] == 'adt' and tt['kind'] == 'enum' and isinstance(v, T):
            if all(not x['fields'] for x in tt['variants']):
                vals = st.f.values(v, 300)
                m = {x['disc']: i for i, x in enumerate(tt['variants'])}
                if v.k == 'c' and v.a in m:
                    return Enum(C(m[v.a]), {m[v.a]: ()}, to)
                if vals is not None and all(x in m for x in vals):
                    raise Split([eq(v, C(x)) for x in sorted(vals)], 'enum transmute')
        # an integer whose range the type restricts
        if isinstance(v, T) and (tt['name'].startswith('pattern_type!(') or ft['name'].startswith('pattern_type!(')):
            return v
        # Option of a NonZero: its niche is zero
        if ft['k'] == 'int' and tt.get('adt') == 'core::option::Option' and isinstance(v, T):
            some = [(i, x['fields'][0][1]) for i, x in enumerate(tt['variants']) if x['fields']]
            if len(some) == 1 and (P.types[some[0][1]].get('adt') or '') == 'core::num::NonZero':
                i, nt = some[0]
                z = st.f.decide(eq(v, ZERO))
                if z is True:
                    return Enum(C(1 - i), {1 - i: ()}, to)
                if z is False:
                    return Enum(C(i), {i: (self.transmute(st, v, fr, nt),)}, to)
                raise Split([eq(v, ZERO), not_(eq(v, ZERO))], 'zero or not')
        # newtypes with one non-ZST field
        if tt['k'] == 'adt' and tt['kind'] == 'struct':
            fs = tt['variants'][0]['fields']
            nz = [i for i, f in enumerate(fs) if P.types[f[1]].get('size') != 0]
            if len(nz) == 1:
                out = [self.zst(f[1]) if i != nz[0] else None for i, f in enumerate(fs)]
                out[nz[0]] = self.transmute(st, v, fr, fs[nz[0]][1])
                return Agg(tuple(out))
        if ft['k'] == 'adt' and ft['kind'] == 'struct' and isinstance(v, Agg):
            fs = ft['variants'][0]['fields']
            nz = [i for i, f in enumerate(fs) if P.types[f[1]].get('size') != 0]
            if len(nz) == 1:
                return self.transmute(st, v.f[nz[0]], fs[nz[0]][1], to)
        if ft['k'] == 'array' and tt['k'] == 'array':
            return v
        if isinstance(v, Ref) or isinstance(v, It):
            return v
        raise Give('transmute %s -> %s' % (ft['name'], tt['name']))

    def rvalue(self, st, d, rv, ty, fn):
        k = rv[0]
        if k == 'use':
            return self.operand(st, d, rv[1])
        if k == 'ref':
            o, path, rg = self.resolve(st, d, rv[2])
            return Ref(o, path, rg)
        if k == 'raw':
            o, path, rg = self.resolve(st, d, rv[1])
            return Ref(o, path, rg)
        if k == 'discr':
            o, path, rg = self.resolve(st, d, rv[1])
            return self.disc_value(st, self.read(st, o, path, rg))
        if k == 'bin':
            r = self.binop(st, rv[1], self.operand(st, d, rv[2]), self.operand(st, d, rv[3]), rv[4], fn)
            if isinstance(r, tuple):
                return Enum(C(r[1]), {r[1]: ()}, ty)
            return r
        if k == 'un':
            return self.unop(st, rv[1], self.operand(st, d, rv[2]), rv[3])
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, d, rv[2]), rv[3], rv[4], rv[5])
        if k == 'agg':
            kind = rv[1][0]
            vs = [self.operand(st, d, o) for o in rv[2]]
            if kind == 'array':
                t = self.P.types[ty]
                if self.P.is_u8(t['elem']):
                    return Bytes((('b', tuple(vs)),) if vs else ())
                return Arr(tuple(vs))
            if kind in ('tuple', 'closure'):
                return Agg(tuple(vs))
            if kind == 'adt':
                t = self.P.types[ty]
                if t['kind'] == 'enum':
                    vi = rv[1][1]
                    return Enum(C(vi), {vi: tuple(vs)}, ty)
                if t['kind'] == 'union':
                    return Opq('union', tuple(vs))
                if t['adt'] in ('core::slice::Iter', 'core::slice::IterMut') and len(vs) == 3:
                    # an inlined `iter()`: the range between two element pointers
                    x, y = vs[0], vs[1]
                    while isinstance(x, Agg) and len(x.f) == 1:
                        x = x.f[0]
                    if isinstance(x, Ref) and isinstance(y, Ref) and x.o == y.o and x.p and y.p and x.p[:-1] == y.p[:-1] \
                            and x.rg is None and y.rg is None and x.p[-1][0] == 'i' and y.p[-1][0] == 'i':
                        return It('iter' if t['adt'].endswith('Iter') else 'iter_mut', Ref(x.o, x.p[:-1], (x.p[-1][1], st.f.simp(sub(y.p[-1][1], x.p[-1][1])))), None)
                    raise Give('slice iterator from parts')
                return Agg(tuple(vs))
            if kind == 'rawptr':
                v = vs[0]
                if isinstance(v, Ref) and isinstance(vs[1], T):
                    if v.rg is not None:
                        return Ref(v.o, v.p, (v.rg[0], vs[1]))
                    if v.p and v.p[-1][0] == 'i':
                        return Ref(v.o, v.p[:-1], (v.p[-1][1], vs[1]))
                raise Give('raw pointer from parts')
            raise Give('aggregate ' + kind)
        if k == 'rep':
            v = self.operand(st, d, rv[1])
            n = rv[2]
            t = self.P.types[ty]
            if self.P.is_u8(t['elem']):
                return Bytes((('f', v, C(n)),) if n else ())
            return Arr((v,) * n)
        raise Give('rvalue ' + k)

    # ------------------------------------------------------------- execution
    def where(self):
        """the innermost function of the crate on the stack, and the chain"""
        chain = [f.path for f, _ in self.stack]
        for f, _ in reversed(self.stack):
            if f.local:
                return f.path, chain
        return (chain[-1] if chain else '?'), chain

    def panic(self, st, kind, cond=None):
        fnp, chain = self.where()
        key = (fnp, kind)
        if st.taint or (cond is not None and isinstance(cond, T) and tainted(cond)):
            self.undecided.setdefault(('panic',) + key, {'chain': chain, 'why': list(map(str, st.taint))[:5]})
            return
        if key not in self.panics:
            self.panics[key] = {'chain': chain, 'state': st, 'cond': None if cond is None else show(cond)}

    def note_site(self, kind):
        fnp, _ = self.where()
        k = (fnp, kind)
        self.sites[k] = self.sites.get(k, 0) + 1

    def taint(self, st, why):
        if why not in st.taint:
            st.taint = st.taint + (why,)
        fnp, _ = self.where()
        self.unmodelled[(fnp, why)] = self.unmodelled.get((fnp, why), 0) + 1

    def exec_block(self, st0, fn, bb, d):
        """run a block; [(successor, state)], successor 'ret' for a return"""
        b = fn.blocks[bb]
        stmts = b['s']
        work = [(st0, 0)]
        out = []
        n = len(stmts)
        while work:
            st, i = work.pop()
            while i < n:
                s = stmts[i]
                self.nstmt += 1
                try:
                    k = s[0]
                    if k == '=':
                        v = self.rvalue(st, d, s[2], s[3], fn)
                        pl = s[1]
                        if not pl[1]:
                            st.o[(d, pl[0])] = v
                        else:
                            o, path, rg = self.resolve(st, d, pl)
                            self.write(st, o, path, rg, v)
                    elif k == 'setd':
                        o, path, rg = self.resolve(st, d, s[1])
                        v = self.read(st, o, path, rg)
                        if isinstance(v, Enum):
                            nv = Enum(C(s[2]), v.pl, v.ty)
                        else:
                            nv = Enum(C(s[2]), {}, None)
                        self.write(st, o, path, rg, nv)
                    elif k == 'assume':
                        c = self.operand(st, d, s[1])
                        if isinstance(c, T) and not st.f.ok(c):
                            st = None
                            break
                    elif k == 'copy':
                        raise Give('raw copy')
                except Split as e:
                    self.fork(work, st, i, e)
                    st = None
                    break
                except Contra:
                    st = None
                    break
                except Give as e:
                    why = 'stmt: %s in %s' % (e, fn.path)
                    self.taint(st, why)
                    if k == '=':
                        try:
                            v = self.havoc(s[3], 'lost', st)
                            o, path, rg = self.resolve(st, d, s[1])
                            self.write(st, o, path, rg, v)
                        except (Give, Split, Contra):
                            st = None
                            break
                i += 1
            if st is None:
                continue
            if self.nstmt > self.limit:
                raise Abort('statement limit in %s' % fn.path)
            try:
                self.term(st, fn, b['t'], d, out, bb)
            except Split as e:
                self.fork(work, st, n, e)
            except Contra:
                pass
            except Give as e:
                t = b['t']
                why = 'term: %s in %s' % (e, fn.path)
                self.taint(st, why)
                if t[0] == 'switch':
                    for m in set(fn.succs[bb]):
                        out.append((m, st.clone()))
                elif t[0] == 'assert':
                    self.panic(st, t[3])
                    out.append((t[5], st))
                elif t[0] == 'call' and t[4] is not None:
                    self.havoc_call(st, t, d)
                    out.append((t[4], st))
        return out

    def fork(self, work, st, i, e):
        me = (i, tuple(id(c) for c in e.conds))
        conds = e.conds
        if st.sp == me:
            # assuming the condition taught nothing: distinguish the cases it is made of
            sel = [x for c in conds for x in selectors(c)]
            for x in sel:
                vs = st.f.values(st.f.simp(x), 300)
                if vs is not None and len(vs) > 1:
                    conds = [eq(x, C(v)) for v in sorted(vs)]
                    me = None
                    break
        for c in conds:
            s2 = st.clone()
            if s2.f.ok(c):
                s2.sp = me
                work.append((s2, i))

    def havoc_call(self, st, t, d):
        # everything reachable through &mut arguments is lost as well
        for op, ty in zip(t[2], t[5]):
            tt = self.P.types[ty]
            if tt['k'] in ('ref', 'ptr') and tt['mut']:
                try:
                    v = self.operand(st, d, op)
                    if isinstance(v, Ref):
                        to = self.P.types[tt['to']]
                        if to['k'] not in ('slice', 'str', 'dyn'):
                            self.write(st, v.o, v.p, v.rg, self.havoc(tt['to'], 'lost', st))
                        elif to['k'] == 'slice' and v.rg is not None:
                            self.write(st, v.o, v.p, v.rg, Bytes((('s', freshbase('?lost', v.rg[1], 'havoc'), ZERO, v.rg[1]),)))
                except (Give, Split, Contra):
                    pass
        v = self.havoc(t[6], 'call', st)
        try:
            o, path, rg = self.resolve(st, d, t[3])
            self.write(st, o, path, rg, v)
        except (Give, Split, Contra):
            pass

    def term(self, st, fn, t, d, out, bb):
        k = t[0]
        if k == 'goto':
            out.append((t[1], st))
        elif k == 'switch':
            v = self.operand(st, d, t[1])
            if not isinstance(v, T):
                raise Give('switch on %r' % (v,))
            v = st.f.simp(v)
            if v.k == 'c':
                n = v.a
                if n < 0:
                    bs = self.P.bits(t[2])
                    n &= (1 << bs[0]) - 1
                for val, tgt in t[3]:
                    if val == n:
                        out.append((tgt, st))
                        return
                out.append((t[4], st))
                return
            bs = self.P.bits(t[2])
            neg = bs[1]
            rest = st
            for val, tgt in t[3]:
                vv = val
                if neg and val >= 1 << (bs[0] - 1):
                    vv = val - (1 << bs[0])
                c = eq(v, C(vv))
                if v.k in 'ol' and rest.f.decide(c) is False:
                    continue
                s2 = rest.clone()
                if s2.f.ok(c):
                    out.append((tgt, s2))
                    if not rest.f.ok(c, False):
                        return
            out.append((t[4], rest))
        elif k == 'return':
            out.append(('ret', st))
        elif k == 'drop':
            out.append((t[2], st))
        elif k == 'assert':
            c = self.operand(st, d, t[1])
            want = t[2]
            kind = t[3]
            self.note_site(kind)
            if not isinstance(c, T):
                raise Give('assert on %r' % (c,))
            r = st.f.decide(c)
            if r is None:
                s2 = st.clone()
                if s2.f.ok(c, not want):
                    self.panic(s2, kind, c)
                if st.f.ok(c, want):
                    out.append((t[5], st))
            elif r == want:
                out.append((t[5], st))
            else:
                self.panic(st, kind, c)
        elif k == 'call':
            self.call(st, fn, t, d, out, bb)
        elif k in ('unreachable', 'resume'):
            if k == 'unreachable':
                self.note_site('unreachable')
        else:
            raise Give('terminator ' + k)

    def call(self, st, fn, t, d, out, bb):
        callee = t[1]
        args = [self.operand(st, d, a) for a in t[2]]
        live = fn.livein[t[4]] if t[4] is not None else set()
        dest = t[3]
        if dest[1]:
            live = live | {dest[0]} | {e[1] for e in dest[1] if e[0] == 'i'}
        self.stack[-1] = (fn, live)
        res = self.dispatch(st, callee, args, t[5], t[6], d)
        if t[4] is None:
            return
        for s2, v in res:
            work = [s2]
            while work:
                s3 = work.pop()
                try:
                    o, path, rg = self.resolve(s3, d, dest)
                    self.write(s3, o, path, rg, v)
                    out.append((t[4], s3))
                except Split as e:
                    for c in e.conds:
                        s4 = s3.clone()
                        if s4.f.ok(c):
                            work.append(s4)

    def dispatch(self, st, callee, args, argtys, destty, d):
        """analyse a call: [(state, value)]"""
        if callee['kind'] == 'indirect':
            fv = self.operand(st, d, callee['op'])
            if isinstance(fv, Ref):
                fv = self.deref(st, fv)
            return self.call_pointer(st, fv, args, destty, d)
        path = callee['path']
        rpath = callee.get('rpath') or path
        h = self.hooks.get(rpath)
        if h is None:
            h = self.hooks.get(path)
        c = CallCtx(callee, argtys, destty, d, self)
        if h is not None:
            r = h(self, st, args, c)
            if r is not None:
                return r
        if self.models is not None:
            m = self.models.lookup(callee, self)
            if m is not None:
                r = m(self, st, args, c)
                if r is not None:
                    return r
        kind = callee['kind']
        if kind in ('indirect', 'virtual'):
            raise Give('indirect call')
        if callee.get('inst') is not None and self.P.insts[callee['inst']]['blocks']:
            tr = callee.get('trait') or ''
            if tr.split('::')[-1] in ('FnOnce', 'FnMut', 'Fn') and len(args) == 2 and isinstance(args[1], Agg):
                ci = self.P.insts[callee['inst']]
                if ci['argc'] == 2 and len(argtys) == 2 and ci['locals'][2] == argtys[1] and '{closure' not in ci['path']:
                    pass                       # a shim: takes the tuple as it is
                elif ci['argc'] != 2 or len(args[1].f) != 1 or '{closure' in ci['path']:
                    if ci['argc'] == 1 + len(args[1].f):
                        args = [args[0]] + list(args[1].f)
                    elif ci['argc'] == len(args[1].f):
                        args = list(args[1].f)
            return self.run(callee['inst'], args, st, d + 1)
        # a tuple constructor used as a function
        t = self.P.types[destty]
        if t['k'] == 'adt' and t['kind'] in ('enum', 'struct'):
            a = args
            if (callee.get('trait') or '').split('::')[-1] in ('FnOnce', 'FnMut', 'Fn') and len(args) == 2 and isinstance(args[1], Agg):
                a = args[1].f
            nm = rpath.split('::<')[0].split('::')[-1]
            for i, v in enumerate(t['variants']):
                if v['name'] == nm and len(v['fields']) == len(a) and (t['kind'] == 'enum' or (t.get('adt') or '') == rpath):
                    return [(st, Enum(C(i), {i: tuple(a)}, destty) if t['kind'] == 'enum' else Agg(tuple(a)))]
        raise Give('unmodelled call %s' % rpath)

    def call_pointer(self, st, fv, args, destty, d):
        if not isinstance(fv, Opq) or fv.k != 'fnptr':
            raise Give('indirect call')
        fr, inst, path = fv.v
        t = self.P.types[fr]
        if t['k'] == 'closure':
            return self.call_closure(st, Agg(()), fr, args, d, byref=False)
        callee = self.fnptrs.get(fv.v)
        if callee is None:
            raise Give('indirect call')
        return self.dispatch(st, callee, list(args), [], destty, d)

    def call_value(self, st, fv, fty, args, destty, d):
        """call a closure / function value with the given (untupled) arguments"""
        t = self.P.types[fty]
        if t['k'] == 'ref':
            # &mut F
            if t['to'] is not None and self.P.types[t['to']]['k'] in ('closure', 'fndef'):
                inner = self.P.types[t['to']]
                if inner['k'] == 'closure':
                    return self.call_closure(st, fv, t['to'], args, d, byref=True)
                return self.call_fndef(st, inner, args, destty, d)
        if t['k'] == 'closure':
            return self.call_closure(st, fv, fty, args, d, byref=False)
        if t['k'] == 'fndef':
            return self.call_fndef(st, t, args, destty, d)
        if isinstance(fv, Ref):
            fv = self.deref(st, fv)
        if isinstance(fv, Opq) and fv.k == 'fnptr':
            return self.call_pointer(st, fv, args, destty, d)
        raise Give('call of %s' % t['name'])

    def cell(self, st, fv, fty, d):
        """a callable passed by value, kept in a cell so that what a closure owns survives from call to call:
        call(state, args, destty, d)"""
        t = self.P.types[fty]
        while t['k'] == 'ref' and t['to'] is not None and self.P.types[t['to']]['k'] == 'ref':
            fv, fty = self.deref(st, fv), t['to']
            t = self.P.types[fty]
        if t['k'] != 'closure':
            return lambda s, args, destty, dd: self.call_value(s, fv, fty, args, destty, dd)
        self.heap_n += 1
        key = (d, 'fn%d' % self.heap_n)
        st.o[key] = fv
        return lambda s, args, destty, dd: self.call_closure(s, Ref(key), fty, args, dd, byref=True)

    def call_fndef(self, st, t, args, destty, d):
        c = t.get('callee')
        if c is None:
            raise Give('fndef')
        return self.dispatch(st, c, list(args), [], destty, d)

    def closure_inst(self, cty):
        """body of a closure type: the instance whose first parameter is it (or a reference to it)"""
        r = self.ids.get(('cl', cty))
        if r is None:
            for i, x in enumerate(self.P.insts):
                if '{closure' in x['path'].split('::')[-1] and x['argc'] >= 1 and x['blocks']:
                    a0 = x['locals'][1]
                    t0 = self.P.types[a0]
                    if a0 == cty or (t0['k'] == 'ref' and t0['to'] == cty):
                        r = i
                        break
            self.ids[('cl', cty)] = r if r is not None else -1
        return None if r in (None, -1) else r

    def call_closure(self, st, fv, cty, args, d, byref):
        i = self.closure_inst(cty)
        if i is None:
            raise Give('closure body')
        x = self.P.insts[i]
        wantref = self.P.types[x['locals'][1]]['k'] == 'ref'
        if wantref and not byref:
            self.heap_n += 1
            key = (d, 'cl%d' % self.heap_n)
            st.o[key] = fv
            fv = Ref(key)
        elif not wantref and byref:
            fv = self.deref(st, fv)
        return self.run(i, [fv] + list(args), st, d + 1)

    def run(self, inst, args, st, d):
        """analyse one function from one state: [(state, return value)]"""
        if d > 60:
            raise Abort('call depth')
        fn = self.P.fn(inst)
        if not fn.blocks:
            raise Give('no body for ' + fn.path)
        self.reached.add(inst)
        for i, a in enumerate(args):
            st.o[(d, i + 1)] = a
        self.stack.append((fn, set()))
        try:
            return self.run_body(fn, st, d)
        finally:
            self.stack.pop()

    def run_body(self, fn, st, d):
        rets, _, _ = self.worklist(fn, 0, {}, st, d, None)
        out = []
        for s in rets:
            v = s.o.get((d, 0), UNDEF)
            for k in [k for k in s.o if k[0] == d]:
                del s.o[k]
            s.o[(d, 0)] = v
        if len(rets) > 1:
            self.stack[-1] = (fn, {0})
            rets = self.merge_states(rets, d)
        for s in rets:
            v = s.o.pop((d, 0), UNDEF)
            for k in [k for k in s.o if k[0] == d]:
                del s.o[k]
            out.append((s, v))
        if len(out) > self.maxst:
            self.maxst = len(out)
        return out

    def worklist(self, fn, bb0, iters0, st, d, scope):
        """propagate from one block; scope = loop head to stay inside of.
        (returned states, states back at the scope head, [(block outside, iters, state)])"""
        pending = {}
        heap = []
        rets, backs, exits = [], [], []
        hist = {}

        def push(bb, iters, s):
            # iteration counters of the loops around bb
            ch = fn.chain[bb]
            key = []
            it = []
            for h, pos in ch:
                n = iters.get(h, 0)
                key.append(pos)
                key.append(n)
                it.append((h, n))
            key.append(fn.prio[bb] if not (ch and ch[-1][0] == bb) else 0)
            key = tuple(key)
            e = pending.get(key)
            if e is None:
                pending[key] = (bb, dict(it), [s])
                heapq.heappush(heap, key)
            else:
                e[2].append(s)

        push(bb0, iters0, st)
        while heap:
            key = heapq.heappop(heap)
            bb, iters, states = pending.pop(key)
            if len(states) > 1:
                self.stack[-1] = (fn, fn.livein[bb])
                states = self.merge_states(states, d)
            if bb in fn.heads and bb != scope:
                n = iters.get(bb, 0)
                if n > self.MAXITER:
                    raise Abort('loop in %s does not end' % fn.path)
                if n > 70 and any(s.taint for s in states):
                    raise Abort('loop in %s, after something not modelled, has no end in sight' % fn.path)
                if n <= self.ACC and len(states) == 1:
                    hk = (bb, tuple(sorted((h, k) for h, k in iters.items() if h != bb)))
                    if n == 0:
                        hist[hk] = []
                    hh = hist.get(hk)
                    if hh is not None:
                        self.stack[-1] = (fn, fn.livein[bb])
                        self.gc(states[0], d)
                        hh.append(states[0].clone())
                        if n == self.ACC and len(hh) == n + 1:
                            r = self.accelerate(fn, bb, iters, hh, d)
                            if r is not None:
                                rr, ex = r
                                rets.extend(rr)
                                for nb, its, s2 in ex:
                                    if scope is not None and nb not in self.inside(fn, scope):
                                        exits.append((nb, its, s2))
                                    else:
                                        push(nb, its, s2)
                                continue
            if bb in fn.heads:
                k = (fn.i, bb)
                n = iters.get(bb, 0)
                if self.loops.get(k, -1) < n:
                    self.loops[k] = n
                for s in states:
                    h = s.clone()
                    h.lp = {}
                    s.lp = dict(s.lp)
                    s.lp[(d, bb)] = h
            for s in states:
                for nb, s2 in self.exec_block(s, fn, bb, d):
                    if nb == 'ret':
                        rets.append(s2)
                        continue
                    its = iters
                    if nb in fn.heads and any(h == nb for h, _ in fn.chain[bb]):
                        h = s2.lp.get((d, nb))
                        if h is not None and self.no_progress(fn, nb, h, s2, d):
                            continue
                        if nb == scope:
                            backs.append(s2)
                            continue
                        its = dict(iters)
                        its[nb] = its.get(nb, 0) + 1
                        # inner loops start afresh
                        for h in list(its):
                            if h != nb and any(hh == nb for hh, _ in fn.chain[h]):
                                del its[h]
                    if scope is not None and nb not in self.inside(fn, scope):
                        exits.append((nb, its, s2))
                        continue
                    push(nb, its, s2)
        return rets, backs, exits

    def no_progress(self, fn, head, h, s, d):
        """an iteration that ends in the very state it began in goes on for ever (everything the crate
        reads from outside is an event); what is dead at the head does not count"""
        if h.ev != s.ev:
            return False
        live = fn.livein[head]
        if s.o.get((d, 0)) is not h.o.get((d, 0)) and 0 in live:
            return False
        quick = [k for k in s.o if k[0] == d and k[1] in live]
        for k in quick:
            v, w = s.o[k], h.o.get(k)
            if v is not w and not (type(v) is type(w) and v == w):
                return False
        a, b = s.clone(), h.clone()
        top = self.stack[-1]
        self.stack[-1] = (fn, live)
        self.gc(a, d)
        self.gc(b, d)
        self.stack[-1] = top
        if a.o.keys() != b.o.keys():
            return False
        for k, v in a.o.items():
            w = b.o[k]
            if v is not w and not (type(v) is type(w) and v == w):
                return False
        chain = [f.path for f, _ in self.stack]
        key = (fn.path, 'loop at block %d' % head)
        e = {'chain': chain, 'state': s, 'cond': None, 'taint': bool(s.taint)}
        if key not in self.endless or (self.endless[key]['taint'] and not s.taint):
            self.endless[key] = e
        return True

    def inside(self, fn, head):
        k = ('in', fn.i, head)
        r = self.ids.get(k)
        if r is None:
            r = self.ids[k] = {b for b, ch in fn.chain.items() if any(h == head for h, _ in ch)}
        return r

    ACC = 4

    def scalars(self, v, path, out):
        if isinstance(v, T):
            out[path] = v
        elif isinstance(v, Agg):
            for i, x in enumerate(v.f):
                self.scalars(x, path + (i,), out)
        elif isinstance(v, Enum):
            out[path + ('d',)] = v.d
            for k, p in v.pl.items():
                if v.d.k == 'c' and v.d.a != k:
                    continue
                for i, x in enumerate(p):
                    self.scalars(x, path + (k, i), out)
        elif isinstance(v, Ref):
            if v.rg is not None:
                out[path + ('rs',)] = v.rg[0]
                out[path + ('rl',)] = v.rg[1]
            for i, s in enumerate(v.p):
                if s[0] == 'i':
                    out[path + ('p', i)] = s[1]
        elif isinstance(v, It):
            self.scalars(v.ref, path + ('it',), out)
        elif isinstance(v, Arr):
            for i, x in enumerate(v.e):
                self.scalars(x, path + (i,), out)

    def rebuild_scalars(self, v, path, f):
        """copy of v with scalar at each path mapped by f(path, term)"""
        if isinstance(v, T):
            return f(path, v)
        if isinstance(v, Agg):
            return Agg(tuple(self.rebuild_scalars(x, path + (i,), f) for i, x in enumerate(v.f)))
        if isinstance(v, Enum):
            return Enum(f(path + ('d',), v.d), {k: tuple(self.rebuild_scalars(x, path + (k, i), f) for i, x in enumerate(p))
                                               for k, p in v.pl.items()}, v.ty)
        if isinstance(v, Ref):
            rg = None if v.rg is None else (f(path + ('rs',), v.rg[0]), f(path + ('rl',), v.rg[1]))
            p = tuple(('i', f(path + ('p', i), s[1])) if s[0] == 'i' else s for i, s in enumerate(v.p))
            return Ref(v.o, p, rg)
        if isinstance(v, It):
            return It(v.kind, self.rebuild_scalars(v.ref, path + ('it',), f), v.n)
        if isinstance(v, Arr):
            return Arr(tuple(self.rebuild_scalars(x, path + (i,), f) for i, x in enumerate(v.e)))
        return v

    def state_scalars(self, st):
        out = {}
        for k, v in st.o.items():
            self.scalars(v, (k,), out)
        return {p: st.f.simp(t) for p, t in out.items()}

    def same_but_scalars(self, A, B):
        if A.o.keys() != B.o.keys():
            return False
        z = lambda p, t: ZERO
        for k in A.o:
            v, w = A.o[k], B.o[k]
            if v is w:
                continue
            x, y = self.rebuild_scalars(v, (k,), z), self.rebuild_scalars(w, (k,), z)
            if type(x) is not type(y) or not (x is y or x == y):
                return False
        return True

    def accelerate(self, fn, bb, iters, hh, d):
        """Replace the remaining iterations of a counting loop by one generalised iteration
        (induction variable with verified inductive invariants); None when it does not apply."""
        s2, s3, s4 = hh[-3:]
        if not (s2.ev == s3.ev == s4.ev and s2.taint == s4.taint):
            return None
        if not (self.same_but_scalars(s2, s3) and self.same_but_scalars(s3, s4)):
            return None
        a, b, c = self.state_scalars(s2), self.state_scalars(s3), self.state_scalars(s4)
        if a.keys() != b.keys() or b.keys() != c.keys():
            return None
        moving = {}
        for p in c:
            if c[p] is b[p] and b[p] is a[p]:
                continue
            d1, d2 = s4.f.simp(sub(c[p], b[p])), s4.f.simp(sub(b[p], a[p]))
            if d1 is not d2 or d1.k != 'c':
                return None
            if d1.a != 0:
                moving[p] = d1.a
        if not moving:
            return None
        # worth it only when the trip count is not fixed: some invariant scalar bounds a moving one
        # and is symbolic
        invs = {t for p, t in c.items() if p not in moving}
        if not any(t.k != 'c' for t in invs):
            return None
        # a counter that runs to a constant nearby: the loop is unrolled
        for p, dl in moving.items():
            if c[p].k == 'c':
                for q, y in c.items():
                    if q not in moving and q[:-1] == p[:-1] and y.k == 'c' and 0 < (y.a - c[p].a) * (1 if dl > 0 else -1) <= 64 * abs(dl):
                        return None
        saved = (dict(self.panics), dict(self.undecided), dict(self.unmodelled), dict(self.sites), dict(self.endless), dict(self.unbounded))
        k = var('k', 0, (1 << 62))
        mv = {p: add(c[p], k, dl) for p, dl in moving.items()}
        # candidate invariants: an invariant scalar bounds a moving one
        cands = []
        for p, t in mv.items():
            for y in invs:
                if y.k != 'c' or y.a > 3:
                    if moving[p] > 0 and s4.f.proves_ge(sub(y, c[p])):
                        cands.append(sub(y, t))
                    elif moving[p] < 0 and s4.f.proves_ge(sub(c[p], y)):
                        cands.append(sub(t, y))
            if moving[p] < 0:
                cands.append(t)
            # sums of moving scalars that stay put (remaining length etc.) need no invariant
        cands = list(dict.fromkeys(x for x in cands if x.k != 'c'))
        k1 = add(k, ONE)
        for _ in range(8):
            self.panics, self.undecided, self.unmodelled, self.sites, self.endless, self.unbounded = map(dict, saved)
            g = s4.clone()
            f = lambda p, t: mv.get(p, t)
            g.o = {key: self.rebuild_scalars(v, (key,), f) for key, v in g.o.items()}
            try:
                for e in cands:
                    g.f.assume_ge(e)
            except Contra:
                break
            try:
                rets, backs, exits = self.worklist(fn, bb, iters, g, d, bb)
            except Abort:
                break
            if not backs:
                # the loop cannot go on: nothing to generalise
                if True:
                    return None if self._restore(saved) else None
            self.stack[-1] = (fn, fn.livein[bb])
            ok = True
            bad = set()
            for s in backs:
                self.gc(s, d)
                if s.ev != s4.ev or s.taint != s4.taint or not self.same_but_scalars(s, s4):
                    ok = False
                    break
                sc = self.state_scalars(s)
                for p, t in c.items():
                    want = add(c[p], k1, moving[p]) if p in moving else t
                    if s.f.decide(eq(sc[p], want)) is not True:
                        ok = False
                        break
                if not ok:
                    break
                for e in cands:
                    if not s.f.proves_ge(subst_atoms(e, {k: k1})):
                        bad.add(e)
            if not ok:
                break
            if bad:
                cands = [e for e in cands if e not in bad]
                continue
            if not any(k in atoms_of(e) for e in cands):
                self.unbounded[(fn.path, 'loop at block %d' % bb)] = [f.path for f, _ in self.stack]
            # forget facts phrased with the induction variable where it has been eliminated
            for _, _, s in exits:
                self.purge(s, k)
            for s in rets:
                self.purge(s, k)
            return rets, [(nb, its, s) for nb, its, s in exits]
        self._restore(saved)
        return None

    def purge(self, st, k):
        f = st.f
        if k not in f.sub and f.d(k)[0] != f.d(k)[1]:
            return
        old = f.truth
        f.truth = {}
        f.memo = {}
        for a, t in old.items():
            if occurs(k, a):
                b = f.simp(a)
                if b.k == 'c':
                    continue
                if b.k == 'o':
                    f.truth[b] = t
                    continue
            f.truth[a] = t
        f.lin = tuple(dict.fromkeys(e for e in (f.simp(e) if occurs(k, e) else e for e in f.lin) if e.k != 'c'))
        f.memo = {}

    def _restore(self, saved):
        self.panics, self.undecided, self.unmodelled, self.sites, self.endless, self.unbounded = saved
        return True

    # ----------------------------------------------------------------- joins
    def gc(self, st, d):
        """drop what no live local can reach"""
        roots = []
        keep = set()
        lives = {}
        base = d - len(self.stack) + 1
        for i, (f, live) in enumerate(self.stack):
            lives[base + i] = live
        for k in st.o:
            if k[0] == 'h' or k[0] == 'g':
                roots.append(k)
            else:
                l = lives.get(k[0])
                if l is None or k[1] in l or isinstance(k[1], str):
                    roots.append(k)
        work = roots
        while work:
            k = work.pop()
            if k in keep:
                continue
            keep.add(k)
            v = st.o.get(k)
            if v is not None and not isinstance(v, T):
                acc = []
                refs_in(v, acc)
                for o in acc:
                    if o in st.o and o not in keep:
                        work.append(o)
        if len(keep) != len(st.o):
            st.o = {k: v for k, v in st.o.items() if k in keep}

    nomerge = False

    def merge_states(self, states, d):
        for s in states:
            self.gc(s, d)
        if self.nomerge is True:
            if len(states) > self.MAXSTATES:
                raise Abort('too many states (%d) in %s' % (len(states), self.where()[0]))
            return states
        if len(states) <= self.LATE:
            return states
        out = []
        for s in states:
            done = False
            for i in range(len(out)):
                m = self.try_merge(out[i], s, d)
                if m is not None:
                    out[i] = m
                    self.merged += 1
                    done = True
                    break
            if not done:
                out.append(s)
        # a merge may have made others mergeable
        if len(out) > 1 and len(out) < len(states):
            again = True
            while again and len(out) > 1:
                again = False
                for i in range(len(out)):
                    for j in range(i + 1, len(out)):
                        m = self.try_merge(out[i], out[j], d)
                        if m is not None:
                            out[i] = m
                            out.pop(j)
                            again = True
                            break
                    if again:
                        break
        if len(out) > self.LOSSYAT:
            i = 0
            while i < len(out):
                j = i + 1
                while j < len(out):
                    m = self.try_merge(out[i], out[j], d, True)
                    if m is not None:
                        out[i] = m
                        out.pop(j)
                        j = i + 1
                    else:
                        j += 1
                i += 1
        if len(out) > self.MAXSTATES:
            raise Abort('too many states (%d) in %s' % (len(out), self.where()[0]))
        return out

    def shape_key(self, v, depth=4):
        """constants that decide later control flow: discriminants of the outcome"""
        if isinstance(v, Enum):
            if v.d.k == 'c':
                p = v.pl.get(v.d.a, ())
                return (v.d.a,) + tuple(self.shape_key(x, depth - 1) for x in p if isinstance(x, (Enum, Agg))) if depth else (v.d.a,)
            return ('?',)
        if isinstance(v, Agg) and depth:
            return tuple(self.shape_key(x, depth - 1) for x in v.f if isinstance(x, Enum))
        return ()

    def is_err(self, st, d):
        v = st.o.get((d, 0))
        return isinstance(v, Enum) and v.ty is not None and v.d.k == 'c' and v.d.a == 1 and \
            self.P.types[v.ty].get('adt') == 'core::result::Result'

    def try_merge(self, A, B, d, lossy=False):
        if A.ev != B.ev or A.taint != B.taint:
            if A.ev != B.ev:
                return None
        if self.nomerge == 'err' and (self.is_err(A, d) or self.is_err(B, d)):
            return None
        # which objects differ
        diff = []
        for k, v in A.o.items():
            w = B.o.get(k, UNDEF)
            if v is w:
                continue
            if isinstance(v, T) and isinstance(w, T):
                diff.append(k)
            elif not (type(v) is type(w) and v == w):
                diff.append(k)
        for k in B.o:
            if k not in A.o:
                diff.append(k)
        if not diff:
            S = State()
            S.o = dict(A.o)
            G = None
            if not (self.is_err(A, d) and self.is_err(B, d)):
                dd = dom_diff(A.f, B.f)
                for cost, _, kind, g, SA, SB in dd[:1]:
                    G = Guard(g, SA, SB)
            S.f = join_facts(A.f, B.f, G)
            S.ev = A.ev
            S.taint = tuple(dict.fromkeys(A.taint + B.taint))
            S.lp = A.lp if A.lp is B.lp else {k: h for k, h in A.lp.items() if B.lp.get(k) is h}
            return S
        # a value may be equal given the facts of its own side
        va, vb, diff2 = {}, {}, []
        for k in diff:
            v, w = A.o.get(k, UNDEF), B.o.get(k, UNDEF)
            if not self.mergeable(v, w):
                return None
            v, w = t_map(v, A.f.simp), t_map(w, B.f.simp)
            va[k], vb[k] = v, w
        dd = dom_diff(A.f, B.f)
        if not dd:
            return None
        tries = 0
        for cost, _, kind, g, SA, SB in dd:
            if g.k == 'l':
                continue
            tries += 1
            if tries > 3:
                break
            G = Guard(g, SA, SB, lossy, A.f, B.f)
            try:
                new = {}
                for k in diff:
                    new[k] = merge_val(va[k], vb[k], G)
            except NoMerge:
                continue
            S = State()
            S.o = dict(A.o)
            S.o.update(new)
            S.f = join_facts(A.f, B.f, G)
            for a, b, z in G.bounds:
                l1, h1 = A.f.rng(A.f.simp(a))
                l2, h2 = B.f.rng(B.f.simp(b))
                try:
                    if min(l1, l2) > z.lo:
                        S.f.assume(ge(z, C(int(min(l1, l2)))))
                    if max(h1, h2) < z.hi:
                        S.f.assume(le(z, C(int(max(h1, h2)))))
                except Contra:
                    pass
            # an upper bound of the scalar on one side that holds on the other as well
            for a, b, z in dict.fromkeys(G.merged[:12]):
                for X, x, Y, y in ((A, a, B, b), (B, b, A, a)):
                    for e in X.f.lin:
                        t = add(e, x)
                        c, ps = parts(t)
                        if len(ps) > 2 or not ps or t.sz > 60:
                            continue
                        for t2 in (t, sub(t, C(c))) if c < 0 else (t,):
                            if Y.f.proves_ge(sub(t2, y)):
                                w = S.f.simp(sub(t2, z))
                                if w.k != 'c' and not S.f.proves_ge(w):
                                    S.f.addlin(w)
                                break
            S.ev = A.ev
            S.taint = tuple(dict.fromkeys(A.taint + B.taint))
            S.lp = A.lp if A.lp is B.lp else {k: h for k, h in A.lp.items() if B.lp.get(k) is h}
            return S
        return None

    def mergeable(self, v, w):
        """keep Ok apart from Err (and Some from None): they take different paths at once"""
        if isinstance(v, Enum) and isinstance(w, Enum) and v.ty is not None and v.ty == w.ty:
            t = self.P.types[v.ty]
            if t['adt'] in ('core::result::Result', 'core::ops::ControlFlow'):
                if v.d is not w.d:
                    return False
        return True


def tabmap_t(t, f, facts, cases):
    _, x, items, default = t.a

    def g(u):
        if u.k == 'c':
            return f(u)
        if u.k == 'o' and u.a[0] == 'tab':
            return tabmap_t(u, f, facts, cases)
        if u.k in ('v', 'o'):
            return tab(u, cases)
        raise Give('discriminant of mixed term')
    return tab(x, {v: g(u) for v, u in items}, None if default is None else g(default))


class CallCtx:
    __slots__ = ('callee', 'argtys', 'destty', 'd', 'I', 'targs')

    def __init__(self, callee, argtys, destty, d, I):
        self.callee, self.argtys, self.destty, self.d, self.I = callee, argtys, destty, d, I
        self.targs = callee.get('targs') or []
