"""Typed access to abstract values, and helpers shared by the queries."""
from interp import *
from models import *
import dom
import proto


class Lost(Exception):
    """a piece of data a query relies on is not where it is expected"""


class V:
    """a value together with its type and the state it is read in"""

    def __init__(self, I, st, ty, v):
        t = I.P.types[ty]
        n = 0
        while t['k'] == 'ref' and isinstance(v, Ref) and I.P.types[t['to']]['k'] not in ('slice', 'str'):
            v = I.deref(st, v)
            ty = t['to']
            t = I.P.types[ty]
            n += 1
            if n > 5:
                raise Lost('reference chain')
        self.I, self.st, self.ty, self.v, self.t = I, st, ty, v, t

    def _mk(self, ty, v):
        return V(self.I, self.st, ty, v)

    def at(self, st):
        return V(self.I, st, self.ty, self.v)

    @property
    def adt(self):
        return (self.t.get('adt') or '').split('::')[-1]

    def fields(self):
        return [f[0] for f in self.t['variants'][0]['fields']] if self.t['k'] == 'adt' and self.t['kind'] == 'struct' else []

    def f(self, name):
        if self.t['k'] == 'adt' and self.t['kind'] == 'struct' and isinstance(self.v, Agg):
            for (n, ty), x in zip(self.t['variants'][0]['fields'], self.v.f):
                if n == name:
                    return self._mk(ty, x)
        raise Lost('field %s of %s' % (name, self.t.get('name') or self.t.get('adt')))

    def disc(self):
        if not isinstance(self.v, Enum):
            raise Lost('enum expected: %s' % (self.t.get('name'),))
        return self.st.f.simp(self.v.d)

    def variants(self):
        """names of the possible variants"""
        d = self.disc()
        vs = self.t['variants']
        w = self.st.f.values(d, 64)
        if w is None:
            return [x['name'] for x in vs]
        return [vs[i]['name'] for i in sorted(w)]

    def variant(self):
        d = self.disc()
        if d.k == 'c':
            return self.t['variants'][d.a]['name']
        return None

    def index(self, name):
        for i, x in enumerate(self.t['variants']):
            if x['name'] == name:
                return i
        raise Lost('variant %s of %s' % (name, self.t.get('name')))

    def pay(self, variant, i=0):
        k = self.index(variant)
        if k not in self.v.pl or i >= len(self.v.pl[k]):
            raise Lost('payload of %s' % variant)
        return self._mk(self.t['variants'][k]['fields'][i][1], self.v.pl[k][i])

    def npay(self, variant):
        return len(self.t['variants'][self.index(variant)]['fields'])

    def some(self):
        """payload of an Option known to be Some, or the value itself"""
        if self.t.get('adt') == 'core::option::Option':
            if self.variant() != 'Some':
                raise Lost('option not known to be set')
            return self.pay('Some')
        return self

    def item(self, i):
        if isinstance(self.v, Arr) and self.t['k'] == 'array':
            return self._mk(self.t['elem'], self.v.e[i])
        if isinstance(self.v, Bytes):
            return rget(self.st.f, self.v.r, C(i))
        raise Lost('array expected')

    def __len__(self):
        if self.t['k'] == 'array':
            return self.t['len']
        raise Lost('array expected')

    def num(self):
        """the only scalar of the value"""
        v = self.v
        while not isinstance(v, T):
            if isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            else:
                raise Lost('scalar expected in %s' % (self.t.get('name'),))
        return self.st.f.simp(v)

    def bytes(self):
        """the byte string of a byte array, a byte slice or a sized buffer"""
        v = self.v
        if isinstance(v, Ref):
            v = self.I.deref(self.st, v)
        if isinstance(v, Bytes):
            return rope(self.st, v.r)
        if isinstance(v, Agg):
            arr = [x for x in v.f if isinstance(x, Bytes)]
            rest = [x for x in v.f if not isinstance(x, Bytes)]
            if len(arr) == 1 and not rest:
                return rope(self.st, arr[0].r)
            if len(arr) == 1 and len(rest) == 1:
                from inv import first_scalar
                n = first_scalar(rest[0])
                if n is not None:
                    n = self.st.f.simp(n)
                    return rope(self.st, rslice(self.st.f, arr[0].r, ZERO, n))
            if len(v.f) == 1:
                return V(self.I, self.st, self.t['variants'][0]['fields'][0][1], v.f[0]).bytes()
        raise Lost('bytes expected in %s' % (self.t.get('name'),))

    def same(self, o):
        """True / False / None: equal values"""
        return same(self.I, self.st, self.v, o.v)


def unjoin(st, r):
    """resolve joined byte strings whose selecting condition is known"""
    out = []
    for p in r:
        if p[0] == 's' and p[1].kind == 'join':
            g, SA, SB, x, y = p[1].key
            vs = st.f.values(st.f.simp(g), 300)
            pick = None
            if vs is not None:
                if SA is not None and vs <= set(SA):
                    pick = x
                elif SB is not None and vs <= set(SB):
                    pick = y
                elif SA is not None and SB is None and not (vs & set(SA)):
                    pick = y
                elif SB is not None and SA is None and not (vs & set(SB)):
                    pick = x
            if pick is not None:
                try:
                    out += unjoin(st, rslice(st.f, rnorm(pick, st.f), st.f.simp(p[2]), st.f.simp(p[3])))
                    continue
                except (Split, Give):
                    pass
        elif p[0] == 's' and p[1].kind == 'digest':
            alg, data = p[1].key
            d2 = rope(st, data)
            a2 = st.f.simp(alg)
            if d2 != data or a2 is not alg:
                b = mkbase('digest', (a2, d2), 'H[%s](%s)' % (show(a2), showrope(d2)[:80]), p[1].len)
                out.append(('s', b, p[2], p[3]))
                continue
        out.append(p)
    return tuple(out)


def rope(st, r):
    r = rnorm(r, st.f)
    r2 = unjoin(st, r)
    return rnorm(r2, st.f) if r2 != r else r


def ropes_equal(st, a, b):
    a, b = rope(st, a), rope(st, b)
    r = req_(st.f, a, b)
    if r is None:
        try:
            t = st.f.simp(bytes_eq(None, st, a, b))
            if t.k == 'c':
                return bool(t.a)
            d = st.f.decide(t)
            if d is not None:
                return d
        except (Split, Give):
            pass
    return r


def same(I, st, a, b, n=0, eqf=None, ropef=None):
    """structural equality of two values"""
    if n > 12:
        return None
    if isinstance(a, T) and isinstance(b, T):
        if a is b:
            return True
        return eqf(st, a, b) if eqf else st.f.decide(eq(a, b))
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        return same(I, st, I.deref(st, a), I.deref(st, b), n + 1, eqf, ropef)
    if type(a) is not type(b):
        return None
    if isinstance(a, Bytes):
        return (ropef or ropes_equal)(st, a.r, b.r)
    if isinstance(a, Agg):
        if len(a.f) != len(b.f):
            return None
        return all3(same(I, st, x, y, n + 1, eqf, ropef) for x, y in zip(a.f, b.f))
    if isinstance(a, Arr):
        if len(a.e) != len(b.e):
            return None
        return all3(same(I, st, x, y, n + 1, eqf, ropef) for x, y in zip(a.e, b.e))
    if isinstance(a, Enum):
        d = same(I, st, a.d, b.d, n, eqf, ropef)
        if d is not True:
            return d
        vs = st.f.values(st.f.simp(a.d), 64)
        out = []
        for k in set(a.pl) & set(b.pl):
            if vs is not None and k not in vs:
                continue
            if a.pl[k] == b.pl[k]:
                out.append(True)
                continue
            s = st.clone()
            if not s.f.ok(eq(s.f.simp(a.d), C(k))):
                continue
            out += [same(I, s, x, y, n + 1, eqf, ropef) for x, y in zip(a.pl[k], b.pl[k])]
        return all3(out)
    if isinstance(a, Opq):
        return True if a == b else None
    return None


def all3(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def any_taint(x):
    """the value depends on something the analysis lost track of"""
    if isinstance(x, T):
        return any((a.k == 'v' and a.a[2]) or (a.k == 'o' and a.a[0] == 'sel' and a.a[1].kind == 'havoc') for a in atoms_of(x))
    if isinstance(x, Bytes):
        return any_taint(x.r)
    if isinstance(x, tuple):
        for p in x:
            if p[0] == 's' and (p[1].kind == 'havoc' or any_taint(p[2]) or any_taint(p[3])):
                return True
            if p[0] == 's' and p[1].kind == 'digest' and (any_taint(p[1].key[0]) or any_taint(p[1].key[1])):
                return True
            if p[0] == 'b' and any(any_taint(z) for z in p[1]):
                return True
            if p[0] == 'f' and (any_taint(p[1]) or any_taint(p[2])):
                return True
        return False
    if isinstance(x, V):
        return any_taint(x.v)
    if isinstance(x, (Agg,)):
        return any(any_taint(y) for y in x.f)
    if isinstance(x, Arr):
        return any(any_taint(y) for y in x.e)
    if isinstance(x, Enum):
        return any_taint(x.d) or any(any_taint(y) for p in x.pl.values() for y in p)
    return False


def settle(st, rounds=3):
    """re-evaluate the recorded facts after a case assumption; False: contradiction"""
    f = st.f
    try:
        for _ in range(rounds):
            ch = False
            for a, d in list(f.dom.items()):
                if a.k != 'o':
                    continue
                b = f.simp(a)
                if d[0] == d[1]:
                    # the same term under what is known now
                    b = dom.rebuild(a, f.simp)
                    if b.k != 'c' and b is not a:
                        b = f.simp(b) if f.simp(b).k == 'c' else b
                if b is a:
                    continue
                if b.k == 'c':
                    if not (d[0] <= b.a <= d[1]) or (d[2] is not None and b.a not in d[2]) or (d[3] and b.a in d[3]):
                        return False
                    continue
                if b.k == 'l':
                    if d[0] == d[1]:
                        ch |= bool(f.decide(eq(b, C(d[0]))) is None)
                        if not f.ok(eq(b, C(d[0]))):
                            return False
                    continue
                o = f.dom.get(b)
                f.narrow(b, lo=d[0] if d[0] > -INF else None, hi=d[1] if d[1] < INF else None, vals=d[2], excl=d[3] or None)
                f._after(b)
                n = f.dom.get(b)
                if n is not None and n[0] == n[1]:
                    f.setv(b, n[0])
                ch |= f.dom.get(b) != o
            for a, v in list(f.sub.items()):
                if a.k == 'o' and a.a[0] == 'sel':
                    b = dom.rebuild(a, f.simp)
                    if b is not a and not f.ok(eq(f.simp(b), f.simp(v))):
                        return False
            for a, v in list(f.truth.items()):
                b = f.simp(a)
                if b is a:
                    continue
                if b.k == 'c':
                    if bool(b.a) != bool(v):
                        return False
                    continue
                if f.decide(b) is None:
                    ch = True
                    if not f.ok(b, bool(v)):
                        return False
            if not ch:
                break
        for e in list(f.lin):
            if f.proves_ge(sub(mulc(f.simp(e), -1), C(1))):
                return False
    except Contra:
        return False
    return True


def case(st, *bs):
    """the state with the assumptions added, or None when they contradict it"""
    s = st.clone()
    for b in bs:
        if not s.f.ok(s.f.simp(b)):
            return None
    return s if settle(s) else None
