"""Terms and facts: the abstract domain.

Integer-valued terms are hash-consed mathematical integers (no width); a linear
combination of atoms is kept in normal form, everything else is an atom.  Facts
hold, per atom, an interval / finite value set / excluded values / known bits,
plus linear inequalities, equalities (as substitutions) and guarded facts left
behind by lossless joins.
"""
import heapq
import itertools
from math import gcd

INF = float('inf')


class Split(Exception):
    """An operation cannot be decided in this state: analyse the alternatives."""

    def __init__(self, conds, why=''):
        self.conds = conds
        self.why = why


class Give(Exception):
    """An operation is outside the domain; the caller havocs its result."""


class T:
    __slots__ = ('k', 'a', 'id', 'lo', 'hi', 'rk', 'sz')

    def __repr__(self):
        return show(self)


_tab = {}
_names = {}
_cnt = [0]


def size_of(k, a):
    if k == 'l':
        return sum(x.sz for x, _ in a[1]) + 1
    if k != 'o':
        return 1
    n = 1
    for x in a[1:]:
        if isinstance(x, T):
            n += x.sz
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], T):
                    n += y[1].sz
    return n


def mk(k, a, lo, hi, rk=None):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.lo, t.hi = k, a, lo, hi
        t.id = len(_tab)
        t.rk = rk
        t.sz = size_of(k, a)
        _tab[key] = t
    return t


def C(n):
    return mk('c', n, n, n)


ZERO = C(0)
ONE = C(1)


def reset():
    pass


def var(name, lo, hi, taint=False):
    """A fresh atom."""
    _cnt[0] += 1
    return mk('v', (_cnt[0], name, taint), lo, hi)


def nvar(name, lo, hi):
    """A named atom (same name -> same atom)."""
    return mk('v', (0, name, False), lo, hi)


def isc(t):
    return t.k == 'c'


def parts(t):
    if t.k == 'c':
        return t.a, ()
    if t.k == 'l':
        return t.a
    return 0, ((t, 1),)


def mklin(c, pairs):
    if not pairs:
        return C(c)
    if c == 0 and len(pairs) == 1 and pairs[0][1] == 1:
        return pairs[0][0]
    key = ('l', (c, pairs))
    t = _tab.get(key)
    if t is not None:
        return t
    lo = hi = c
    for a, k in pairs:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return mk('l', (c, pairs), lo, hi)


def lincomb(c, d):
    return mklin(c, tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id)))


def add(a, b, k=1):
    """a + k*b"""
    if a.k == 'c' and b.k == 'c':
        return C(a.a + k * b.a)
    ca, pa = parts(a)
    cb, pb = parts(b)
    if not pb:
        return mklin(ca + k * cb, pa)
    if not pa:
        if k == 1:
            return mklin(ca + cb, pb)
        return mklin(ca + k * cb, tuple((x, k * y) for x, y in pb))
    d = dict(pa)
    for x, y in pb:
        d[x] = d.get(x, 0) + k * y
    return lincomb(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    if a.k == 'c':
        return C(a.a * k)
    c, p = parts(a)
    return mklin(c * k, tuple((x, y * k) for x, y in p))


def addn(*ts):
    r = ZERO
    for t in ts:
        r = add(r, t)
    return r


def bitmask(hi):
    if hi == INF:
        return (1 << 128) - 1
    return (1 << int(hi).bit_length()) - 1


def P(t):
    """Mask of the bits that may be one (t >= 0)."""
    k = t.k
    if k == 'c':
        return t.a if t.a >= 0 else (1 << 128) - 1
    if t.lo < 0:
        return (1 << 128) - 1
    if k == 'o':
        op = t.a[0]
        if op == 'and':
            return t.a[2] & P(t.a[1])
    if k == 'l':
        b = bf(t)
        if b is not None:
            m = b[0]
            for s, a in b[1]:
                m |= P(a) << s
            return m
    return bitmask(t.hi)


def bf(t):
    """t as a sum of bit fields that cannot overlap: (const, [(shift, atom)])."""
    c, ps = parts(t)
    if c < 0:
        return None
    used = c
    out = []
    for a, k in ps:
        if k <= 0 or (k & (k - 1)) or a.lo < 0 or a.hi == INF:
            return None
        s = k.bit_length() - 1
        m = P(a) << s
        if m & used:
            return None
        used |= m
        out.append((s, a))
    return c, out


MAXTAB = 40


def and_(t, m):
    if t.k == 'c':
        return C(t.a & m)
    if m == 0:
        return ZERO
    if m < 0:
        p = P(t)
        m &= p
    p = P(t)
    if p & ~m == 0:
        return t
    m &= p
    if m == 0:
        return ZERO
    if t.hi != INF and t.lo >= 0 and (t.hi > 0xffff or t.hi > 0xff and t.k == 'l' and bf(t) is None):
        # rounding a length down to a multiple of a power of two
        k = (m & -m).bit_length() - 1
        if 0 < k <= 12 and m == p & ~((1 << k) - 1):
            return sub(t, rem(t, 1 << k))
    b = bf(t) if t.k == 'l' else None
    if b is not None:
        r = C(b[0] & m)
        for s, a in b[1]:
            r = add(r, and_(a, (m >> s) & bitmask(a.hi)), 1 << s)
        return r
    if t.k == 'o':
        if t.a[0] == 'and':
            return and_(t.a[1], m & t.a[2])
        if t.a[0] == 'tab':
            return tabmap(t, lambda x: and_(x, m))
        if t.a[0] == 'ite':
            pass
        if t.a[0] == 'or':
            return or_(and_(t.a[1], m), and_(t.a[2], m))
        if t.a[0] == 'shr':
            if m == 255 and t.a[2] % 8 == 0 and t.a[1].lo >= 0 and t.a[1].hi != INF:
                return byte(t.a[2] // 8, t.a[1])
            return mk('o', ('and', t, m), 0, m)
    if m == 255 and t.lo >= 0:
        return mk('o', ('byte', t, 0), 0, 255)
    return mk('o', ('and', t, m), 0, m)


def and2(a, b):
    if b.k == 'c':
        return and_(a, b.a)
    if a.k == 'c':
        return and_(b, a.a)
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        r = lowbits(x, y)
        if r is not None:
            return r
    if a.hi <= 1 and b.hi <= 1 and a.lo >= 0 and b.lo >= 0:
        # boolean conjunction
        for x, y in ((a, b), (b, a)):
            if x.k == 'o' and x.a[0] == 'tab' and not (y.k == 'o' and y.a[0] == 'tab') and y.k != 'l':
                return tabmap(x, lambda z: and2(z, y))
    if a.id > b.id:
        a, b = b, a
    return mk('o', ('and2', a, b), 0, min(bitmask(a.hi), bitmask(b.hi)))


def lowbit(x, bits):
    """the lowest bit set in x (zero for zero)"""
    p = P(x)
    cases = {i: C(1 << i) for i in range(bits) if p >> i & 1}
    cases[bits] = ZERO

    def one(c):
        if c.k == 'c':
            return cases[c.a]
        if c.k == 'o' and c.a[0] == 'tab':
            return tabmap(c, one)
        return tab(c, cases)
    return one(ctz(x, bits))


def lowbits(x, y):
    """x & -x and x & (x - 1)"""
    if x.lo < 0 or x.hi == INF:
        return None
    t, bits = (y.a[1], y.a[2]) if y.k == 'o' and y.a[0] == 'mod' else (y, None)
    if t.k == 'o' and x.k == 'o' or t.k == 'v':
        return None
    s = add(t, x)
    if s.k == 'c' and s.a >= 0 and s.a & (s.a - 1) == 0:
        n = bits or s.a.bit_length() - 1
        if (bits and s.a == 0 or not bits and s.a) and n <= 64 and x.hi < (1 << n):
            return lowbit(x, n)
    if sub(t, x) is C(-1):
        n = bits or int(x.hi).bit_length()
        if n <= 64:
            return sub(x, lowbit(x, n))
    return None


def or_(a, b):
    if a.k == 'c' and b.k == 'c':
        return C(a.a | b.a)
    if a.k == 'c' and a.a == 0:
        return b
    if b.k == 'c' and b.a == 0:
        return a
    if a is b:
        return a
    if a.lo >= 0 and b.lo >= 0 and (P(a) & P(b)) == 0:
        return recombine(add(a, b))
    for x, y in ((a, b), (b, a)):
        if x.k == 'o' and x.a[0] == 'tab' and y.k == 'c':
            return tabmap(x, lambda z: or_(z, y))
        if y.k == 'c' and x.k == 'l':
            f = bf(x)
            if f is not None:
                r = C(f[0] | y.a)
                ym = y.a
                bad = False
                for s, at in f[1]:
                    fm = P(at) << s
                    if fm & ym:
                        # clear the bits y sets, they are in the constant
                        r = add(r, and_(at, (bitmask(at.hi) & ~(ym >> s))), 1 << s)
                    else:
                        r = add(r, at, 1 << s)
                return r
        if y.k == 'c' and x.k != 'l':
            m = y.a
            return add(C(m), and_(x, bitmask(x.hi) & ~m))
    if a.id > b.id:
        a, b = b, a
    hi = max(bitmask(a.hi), bitmask(b.hi))
    return mk('o', ('or', a, b), max(a.lo, b.lo), hi)


def xor_(a, b):
    if a.k == 'c' and b.k == 'c':
        return C(a.a ^ b.a)
    if a.k == 'c':
        a, b = b, a
    if b.k == 'c' and b.a == 0:
        return a
    if a is b:
        return ZERO
    if a.lo >= 0 and b.lo >= 0 and (P(a) & P(b)) == 0:
        return add(a, b)
    if b.k == 'c' and a.k == 'o' and a.a[0] == 'tab':
        return tabmap(a, lambda z: xor_(z, b))
    if b.k == 'c' and a.lo >= 0 and a.hi <= 1 and b.a == 1:
        return sub(ONE, a)
    if b.k == 'c':
        m = b.a
        if bin(m).count('1') == 1:
            # flip one bit: x - m if it was one, x + m otherwise
            bit = shr(and_(a, m), m.bit_length() - 1)
            return add(add(a, C(m)), bit, -2 * m)
        return mk('o', ('xor', a, m), 0, max(bitmask(a.hi), bitmask(m)))
    if a.hi <= 1 and b.hi <= 1 and a.lo >= 0 and b.lo >= 0:
        return sub(ONE, eq(a, b))
    if a.id > b.id:
        a, b = b, a
    return mk('o', ('xor2', a, b), 0, max(bitmask(a.hi), bitmask(b.hi)))


def trunc(t, bits):
    m = (1 << bits) - 1
    if t.lo >= 0 and t.hi <= m:
        return t
    if t.k == 'c':
        return C(t.a & m)
    c, ps = parts(t)
    # drop the multiples of the modulus
    d = {}
    for a, k in ps:
        k2 = k % (m + 1)
        if k2:
            d[a] = k2 if k2 <= (m + 1) // 2 or k > 0 else k2 - (m + 1)
    t2 = lincomb(c % (m + 1) if c >= 0 else c, d)
    if t2.lo >= 0 and t2.hi <= m:
        return t2
    if t2.lo >= 0:
        b = bf(t2)
        if b is not None:
            return and_(t2, m)
    if t.lo >= 0:
        return and_(t, m)
    return mk('o', ('mod', t, bits), 0, m)


def shl(t, k, bits):
    if t.k == 'c':
        return C((t.a << k) & ((1 << bits) - 1))
    if k >= bits:
        return ZERO
    return mulc(and_(t, ((1 << bits) - 1) >> k) if t.hi > (((1 << bits) - 1) >> k) else t, 1 << k)


def shr(t, k):
    if k == 0:
        return t
    if t.k == 'c':
        return C(t.a >> k)
    if t.lo >= 0 and t.hi < (1 << k):
        return ZERO
    b = bf(t)
    if b is not None:
        r = C(b[0] >> k)
        ok = True
        for s, a in b[1]:
            if s >= k:
                r = add(r, a, 1 << (s - k))
            elif P(a) >> (k - s) == 0:
                pass
            else:
                r = add(r, shr1(a, k - s))
        return r
    return shr1(t, k)


def shr1(t, k):
    """shift of one atom (or an opaque linear term)"""
    if t.k == 'o':
        o = t.a
        if o[0] == 'and':
            inner = shr(o[1], k)
            if not (inner.k == 'o' and inner.a[0] == 'shr'):
                return and_(inner, o[2] >> k)
            m = o[2]
            if m >> k << k == m:
                # only keep what lies above the shift
                pass
            return and_(inner, m >> k)
        if o[0] == 'shr':
            return shr1(o[1], k + o[2])
        if o[0] == 'byte':
            pass
        if o[0] == 'tab':
            return tabmap(t, lambda x: shr(x, k))
    hi = t.hi if t.hi == INF else int(t.hi) >> k
    if t.hi != INF and k % 8 == 0 and (int(t.hi) >> k) <= 255:
        return byte(k // 8, t)
    return mk('o', ('shr', t, k), 0 if t.lo < 0 else int(t.lo) >> k, hi)


def byte(i, t):
    """bits 8i..8i+7 of t >= 0"""
    if t.k == 'c':
        return C((t.a >> (8 * i)) & 255)
    if t.lo >= 0 and t.hi < (1 << (8 * i)):
        return ZERO
    if i == 0 and t.lo >= 0 and t.hi <= 255:
        return t
    b = bf(t)
    if b is not None and (b[0] or len(b[1]) > 1 or b[1][0][0] > 0):
        r = C((b[0] >> (8 * i)) & 255)
        for s, a in b[1]:
            # bits of a landing in the byte
            lo = 8 * i - s
            if lo >= 0:
                piece = and_(shr(a, lo), 255)
                r = add(r, piece)
            else:
                sh = -lo
                if sh < 8:
                    r = add(r, and_(a, 255 >> sh), 1 << sh)
        return r
    if t.k == 'o' and t.a[0] == 'tab':
        return tabmap(t, lambda x: byte(i, x))
    if t.k == 'o' and t.a[0] == 'and' and ((t.a[2] >> (8 * i)) & 255) in (0, 255):
        return byte(i, t.a[1]) if (t.a[2] >> (8 * i)) & 255 else ZERO
    if t.k == 'o' and t.a[0] == 'and':
        return and_(byte(i, t.a[1]), (t.a[2] >> (8 * i)) & 255)
    if t.k == 'o' and t.a[0] == 'shr' and t.a[2] % 8 == 0:
        return byte(i + t.a[2] // 8, t.a[1])
    return mk('o', ('byte', t, i), 0, min(255, bitmask(int(t.hi) >> (8 * i)) if t.hi != INF else 255))


def recombine(t):
    """byte(0,x) + 256*byte(1,x) + ...  ->  x"""
    if t.k != 'l':
        return t
    c, ps = t.a
    groups = {}
    for a, k in ps:
        if a.k == 'o' and a.a[0] == 'byte':
            x, i = a.a[1], a.a[2]
            if k > 0 and (k & (k - 1)) == 0 and (k.bit_length() - 1 - 8 * i) >= 0 and (k.bit_length() - 1 - 8 * i) % 8 == 0:
                groups.setdefault((x, k >> (8 * i)), set()).add(i)
    for (x, base), idx in groups.items():
        n = 1
        while x.hi >= (1 << (8 * n)):
            n += 1
        if x.lo >= 0 and idx >= set(range(n)):
            d = dict(ps)
            for i in range(n):
                d.pop(byte(i, x), None)
            t2 = add(lincomb(c, d), x, base)
            return recombine(t2)
    return t


def from_le(bs):
    r = ZERO
    for i, b in enumerate(bs):
        r = add(r, b, 1 << (8 * i))
    return recombine(r)


def popc(t):
    if t.k == 'c':
        return C(bin(t.a).count('1'))
    b = bf(t)
    if b is not None and (b[0] or len(b[1]) > 1 or b[1][0][0] > 0):
        r = C(bin(b[0]).count('1'))
        for s, a in b[1]:
            r = add(r, popc(a))
        return r
    if t.hi <= 1 and t.lo >= 0:
        return t
    if t.k == 'o' and t.a[0] == 'tab':
        return tabmap(t, popc)
    return mk('o', ('popc', t), 0, bin(P(t)).count('1'))


def ctz(t, bits):
    if t.k == 'c':
        return C(bits if t.a == 0 else (t.a & -t.a).bit_length() - 1)
    if t.k == 'o' and t.a[0] == 'tab':
        return tabmap(t, lambda x: ctz(x, bits))
    p = P(t)
    lo = (p & -p).bit_length() - 1
    return mk('o', ('ctz', t, bits), lo, bits)


def eq0(d):
    if d.k == 'c':
        return ONE if d.a == 0 else ZERO
    if d.lo > 0 or d.hi < 0:
        return ZERO
    c, ps = parts(d)
    g = 0
    for a, k in ps:
        g = gcd(g, k)
    if g > 1:
        if c % g:
            return ZERO
        d = mklin(c // g, tuple((a, k // g) for a, k in ps))
        c, ps = parts(d)
    if ps[0][1] < 0:
        d = mulc(d, -1)
        c, ps = parts(d)
    if len(ps) == 1:
        a, k = ps[0]
        if k == 1:
            if a.k == 'o' and a.a[0] == 'and' and c <= 0:
                # tests of a bit have one form: (x >> k) & 1 != 0, x & 2^k == 2^k are x & 2^k != 0
                x, m = a.a[1], a.a[2]
                if c == 0 and m & (m - 1) == 0 and x.k == 'o' and x.a[0] == 'shr':
                    return eq0(and_(x.a[1], m << x.a[2]))
                if c == -m and m & (m - 1) == 0:
                    return not_(eq0(a))
            if a.lo == 0 and a.hi == 1:
                return a if c == -1 else (sub(ONE, a) if c == 0 else ZERO)
            if a.k == 'o' and a.a[0] == 'tab':
                return tabmap(a, lambda x: eq0(add(x, C(c))))
    else:
        for a, k in ps:
            if a.k == 'o' and a.a[0] == 'tab' and len(ps) == 2:
                rest = lincomb(c, {x: y for x, y in ps if x is not a})
                return tabmap(a, lambda x: eq0(add(rest, x, k)))
    return mk('o', ('eq0', d), 0, 1)


def eq(a, b):
    if a is b:
        return ONE
    return eq0(sub(a, b))


def ge0(e):
    if e.lo >= 0:
        return ONE
    if e.hi < 0:
        return ZERO
    c, ps = parts(e)
    g = 0
    for a, k in ps:
        g = gcd(g, k)
    if g > 1:
        e = mklin(c // g, tuple((a, k // g) for a, k in ps))  # floor
        c, ps = parts(e)
    if len(ps) == 1:
        a, k = ps[0]
        if a.lo == 0 and a.hi == 1:
            if k == 1:
                return a if c == -1 else (ONE if c >= 0 else ZERO)
            if k == -1:
                return sub(ONE, a) if c == 0 else (ONE if c >= 1 else ZERO)
        if a.k == 'o' and a.a[0] == 'tab':
            return tabmap(a, lambda x: ge0(add(C(c), x, k)))
    if ps[0][1] < 0:
        return sub(ONE, ge0(add(mulc(e, -1), C(-1))))
    return mk('o', ('ge0', e), 0, 1)


def ge(a, b):
    return ge0(sub(a, b))


def lt(a, b):
    return ge0(add(sub(b, a), C(-1)))


def le(a, b):
    return ge0(sub(b, a))


def not_(b):
    return sub(ONE, b)


def tab(x, cases, default=None):
    """case function of atom x: cases is a dict value -> term"""
    items = tuple(sorted(cases.items()))
    ts = [t for _, t in items]
    if default is not None:
        ts = ts + [default]
    first = ts[0]
    if all(t is first for t in ts):
        return first
    if default is not None:
        kept = tuple((v, t) for v, t in items if (default if default.k == 'c' else subst_atoms(default, {x: C(v)})) is not t)
        if len(kept) != len(items):
            if not kept:
                return default
            return tab(x, dict(kept), default)
    if default is None:
        # affine in x?
        if len(items) >= 2:
            (v0, t0), (v1, t1) = items[0], items[1]
            if v1 != v0:
                dd = sub(t1, t0)
                if dd.k == 'c' and dd.a % (v1 - v0) == 0:
                    al = dd.a // (v1 - v0)
                    if all(sub(t, t0) is C(al * (v - v0)) for v, t in items):
                        return add(add(t0, x, al), C(-al * v0))
    # factor the common part out
    if first.k == 'l' or any(t.k == 'l' for t in ts):
        common = None
        for t in ts:
            d = dict(parts(t)[1])
            if common is None:
                common = d
            else:
                common = {a: k for a, k in common.items() if d.get(a) == k}
        if common:
            base = lincomb(0, common)
            if base.k != 'c':
                return add(base, tab(x, {v: sub(t, base) for v, t in items}, None if default is None else sub(default, base)))
    lo = min(t.lo for t in ts)
    hi = max(t.hi for t in ts)
    return mk('o', ('tab', x, items, default), lo, hi)


LAZY = 14


def ltab(x, cases, default=None):
    """a case function; a big one becomes an atom that is only looked into once its selector is known"""
    t = tab(x, cases, default)
    return lazy(t)


def lazy(t):
    if t.sz <= LAZY:
        return t
    if t.k == 'o' and t.a[0] == 'tab' and t.hi > 1:
        return mk('o', ('ltab',) + t.a[1:], t.lo, t.hi)
    if t.k == 'l':
        c, ps = t.a
        r = C(c)
        for a, k in ps:
            if a.k == 'o' and a.a[0] == 'tab' and a.sz > LAZY and a.hi > 1:
                a = mk('o', ('ltab',) + a.a[1:], a.lo, a.hi)
            r = add(r, a, k)
        return r
    return t


def selectors(t, acc=None):
    """what the case functions in a term distinguish"""
    if acc is None:
        acc = []
    if t.k == 'l':
        for a, k in t.a[1]:
            selectors(a, acc)
    elif t.k == 'o':
        if t.a[0] in ('tab', 'ltab'):
            if t.a[1] not in acc:
                acc.append(t.a[1])
            for v, u in t.a[2]:
                selectors(u, acc)
        else:
            for u in t.a[1:]:
                if isinstance(u, T):
                    selectors(u, acc)
    return acc


def tabmap(t, f):
    _, x, items, default = t.a
    return tab(x, {v: f(u) for v, u in items}, None if default is None else f(default))


def opq(name, args, lo, hi):
    """uninterpreted function"""
    return mk('o', ('f:' + name,) + tuple(args), lo, hi)


def mul(a, b):
    if a.k == 'c':
        return mulc(b, a.a)
    if b.k == 'c':
        return mulc(a, b.a)
    for x, y in ((a, b), (b, a)):
        if x.k == 'o' and x.a[0] == 'tab':
            return tabmap(x, lambda z: mul(z, y))
    if a.id > b.id:
        a, b = b, a
    c = [a.lo * b.lo if a.lo and b.lo else 0, a.hi * b.hi if a.hi and b.hi else 0,
         a.lo * b.hi if a.lo and b.hi else 0, a.hi * b.lo if a.hi and b.lo else 0]
    return mk('o', ('mul', a, b), min(c), max(c))


def div(a, k):
    if a.k == 'c':
        return C(a.a // k)
    if k == 1:
        return a
    if (k & (k - 1)) == 0 and a.lo >= 0:
        return shr(a, k.bit_length() - 1)
    c, ps = parts(a)
    if all(y % k == 0 for _, y in ps) and c % k == 0:
        return mklin(c // k, tuple((x, y // k) for x, y in ps))
    return mk('o', ('div', a, k), int(a.lo) // k if a.lo != -INF else -INF, int(a.hi) // k if a.hi != INF else INF)


def rem(a, k):
    if a.k == 'c':
        return C(a.a % k)
    if a.lo >= 0 and a.hi < k:
        return a
    c, ps = parts(a)
    if a.lo >= 0:
        d = {x: y % k for x, y in ps if y % k}
        a2 = lincomb(c % k, d)
        if a2.k == 'c':
            return C(a2.a % k)
        if (k & (k - 1)) == 0 and (bf(a2) is not None or a2.k == 'v'):
            return and_(a2, k - 1)
        if a2.lo >= 0:
            if a2.hi < k:
                return a2
            if len(d) == 1:
                (x, y), = d.items()
                if y == 1 and (k & (k - 1)) == 0:
                    # (c + x) mod k depends on x mod k only
                    xm = and_(x, k - 1)
                    if xm is not x:
                        a2 = add(C(c % k), xm)
            return mk('o', ('rem', a2, k), 0, k - 1)
    return mk('o', ('rem', a, k), 0 if a.lo >= 0 else -(k - 1), k - 1)


# ---------------------------------------------------------------- byte strings

class Base:
    """An immutable symbolic byte sequence (an input buffer, a digest, ...)."""
    __slots__ = ('id', 'name', 'kind', 'key', 'len')

    def __repr__(self):
        return '%s' % (self.name,)


_bases = {}
_bcnt = [0]


def mkbase(kind, key, name, length):
    k = (kind, key)
    b = _bases.get(k)
    if b is None:
        b = Base()
        b.id = len(_bases)
        b.kind, b.key, b.name, b.len = kind, key, name, length
        _bases[k] = b
    return b


def freshbase(name, length, kind='opaque'):
    _bcnt[0] += 1
    return mkbase(kind, _bcnt[0], '%s#%d' % (name, _bcnt[0]), length)


def sel(base, i):
    return mk('o', ('sel', base, i), 0, 255)


def plen(p):
    if p[0] == 'b':
        return C(len(p[1]))
    if p[0] == 's':
        return p[3]
    return p[2]


def rlen(r):
    t = ZERO
    for p in r:
        t = add(t, plen(p))
    return t


def lit(bs):
    return (('b', tuple(C(b) for b in bs)),) if bs else ()


def rnorm(r, st=None):
    """merge adjacent pieces, drop empty ones"""
    out = []
    for p in r:
        if p[0] == 'b':
            if not p[1]:
                continue
        else:
            l = plen(p)
            if st is not None:
                l = st.simp(l)
                if p[0] == 's':
                    p = ('s', p[1], st.simp(p[2]), l)
                else:
                    p = ('f', st.simp(p[1]), l)
            if l is ZERO:
                continue
            if l.k == 'c' and l.a <= 64 and p[0] == 'f':
                p = ('b', (p[1],) * l.a)
            elif l.k == 'c' and l.a <= 2 and p[0] == 's':
                p = ('b', tuple(sel(p[1], add(p[2], C(i))) for i in range(l.a)))
        if st is not None and p[0] == 'b':
            p = ('b', tuple(x if x.k == 'c' else st.simp(x) for x in p[1]))
        if out:
            q = out[-1]
            if q[0] == 'b' and p[0] == 'b':
                out[-1] = ('b', q[1] + p[1])
                continue
            if q[0] == 's' and p[0] == 's' and q[1] is p[1] and add(q[2], q[3]) is p[2]:
                out[-1] = ('s', q[1], q[2], add(q[3], p[3]))
                continue
            if q[0] == 'f' and p[0] == 'f' and q[1] is p[1]:
                out[-1] = ('f', q[1], add(q[2], p[2]))
                continue
            # bytes of a base next to a slice of it
            if q[0] == 'b' and p[0] == 's':
                bs = q[1]
                s = p
                while bs and bs[-1].k == 'o' and bs[-1].a[0] == 'sel' and bs[-1].a[1] is s[1] and add(bs[-1].a[2], ONE) is s[2]:
                    s = ('s', s[1], bs[-1].a[2], add(s[3], ONE))
                    bs = bs[:-1]
                if s is not p:
                    out.pop()
                    if bs:
                        out.append(('b', bs))
                    out.append(s)
                    continue
            if q[0] == 's' and p[0] == 'b':
                bs = p[1]
                s = q
                while bs and bs[0].k == 'o' and bs[0].a[0] == 'sel' and bs[0].a[1] is s[1] and add(s[2], s[3]) is bs[0].a[2]:
                    s = ('s', s[1], s[2], add(s[3], ONE))
                    bs = bs[1:]
                if s is not q:
                    out[-1] = s
                    if bs:
                        out.append(('b', bs))
                    continue
        out.append(p)
    return tuple(out)


def psplit(st, p, at):
    """split one piece strictly inside; `at` is relative to its start"""
    if p[0] == 's':
        return ('s', p[1], p[2], at), ('s', p[1], add(p[2], at), sub(p[3], at))
    if p[0] == 'f':
        return ('f', p[1], at), ('f', p[1], sub(p[2], at))
    at = st.simp(at)
    if at.k != 'c':
        vals = st.values(at, 40)
        if vals is None:
            raise Give('split of explicit bytes at symbolic offset')
        raise Split([eq(at, C(v)) for v in sorted(vals)], 'byte offset')
    return ('b', p[1][:at.a]), ('b', p[1][at.a:])


def rsplit(st, r, pos):
    """split rope r at pos (0 <= pos <= len is known)"""
    pos = st.simp(pos)
    left = []
    cum = ZERO
    n = len(r)
    for i, p in enumerate(r):
        d = sub(pos, cum)
        if d.k == 'c' and d.a == 0:
            return tuple(left), r[i:]
        l = plen(p)
        c = st.decide(ge(d, l))
        if c is True:
            left.append(p)
            cum = st.simp(add(cum, l))
            continue
        if c is None:
            # before, inside or past this piece?
            if i == n - 1:
                # pos <= total length, so pos <= end of the last piece
                pass
            else:
                # pos may still be provably at most the end of this piece
                if st.decide(le(d, l)) is not True:
                    raise Split([ge(d, l), lt(d, l)], 'rope split')
        if st.decide(eq(d, ZERO)) is True:
            return tuple(left), r[i:]
        a, b = psplit(st, p, d)
        if c is None and p[0] == 'b':
            pass
        return tuple(left) + (a,), (b,) + tuple(r[i + 1:])
    return tuple(left), ()


def rslice(st, r, start, length):
    if start is ZERO and st.simp(sub(rlen(r), length)) is ZERO:
        return r
    _, right = rsplit(st, r, start)
    mid, _ = rsplit(st, right, length)
    return mid


def rwrite(st, r, start, src, srclen):
    left, right = rsplit(st, r, start)
    _, tail = rsplit(st, right, srclen)
    return rnorm(left + tuple(src) + tail)


def rget(st, r, i):
    i = st.simp(i)
    cum = ZERO
    n = len(r)
    for j, p in enumerate(r):
        d = st.simp(sub(i, cum))
        l = plen(p)
        c = st.decide(lt(d, l)) if j < n - 1 else True
        if c is None:
            raise Split([lt(d, l), ge(d, l)], 'rope index')
        if c:
            if p[0] == 's':
                return sel(p[1], st.simp(add(p[2], d)))
            if p[0] == 'f':
                return p[1]
            if d.k == 'c':
                if not (0 <= d.a < len(p[1])):
                    raise Give('index outside piece')
                return p[1][d.a]
            vals = st.values(d, 70)
            if vals is None:
                raise Give('symbolic index into explicit bytes')
            raise Split([eq(d, C(v)) for v in sorted(vals)], 'byte index')
        cum = st.simp(add(cum, l))
    raise Give('index past rope')


def rset(st, r, i, v):
    return rwrite(st, r, i, (('b', (v,)),), ONE)


def req_(st, a, b):
    """True / False / None"""
    a = rnorm(a, st)
    b = rnorm(b, st)
    if a == b:
        return True
    la, lb = rlen(a), rlen(b)
    dl = st.simp(sub(la, lb))
    if dl.k == 'c' and dl.a != 0:
        return False
    if dl.k != 'c' and st.decide(eq(la, lb)) is False:
        return False
    unk = dl.k != 'c'
    if unk:
        return None
    # align
    a = list(a)
    b = list(b)
    while a and b:
        p, q = a[0], b[0]
        lp, lq = plen(p), plen(q)
        d = st.simp(sub(lp, lq))
        if d.k != 'c' and st.decide(ge0(d)) is None:
            return None
        if d.k == 'c':
            cmp = (d.a > 0) - (d.a < 0)
        else:
            cmp = 1 if st.decide(ge0(d)) else -1
        try:
            if cmp > 0:
                p, rest = psplit(st, p, lq)
                a[0:1] = [p, rest]
            elif cmp < 0:
                q, rest = psplit(st, q, lp)
                b[0:1] = [q, rest]
        except (Split, Give):
            return None
        a.pop(0)
        b.pop(0)
        e = peq(st, p, q)
        if e is False:
            return False
        if e is None:
            unk = True
    if a or b:
        return None
    return None if unk else True


def peq(st, p, q):
    if p == q:
        return True
    if p[0] == 'b' and q[0] != 'b':
        p, q = q, p
    if q[0] == 'b':
        n = len(q[1])
        if p[0] == 'b':
            ps = p[1]
        elif p[0] == 's':
            ps = [sel(p[1], st.simp(add(p[2], C(i)))) for i in range(n)]
        else:
            ps = [p[1]] * n
        r = True
        for x, y in zip(ps, q[1]):
            d = st.decide(eq(x, y))
            if d is False:
                return False
            if d is None:
                r = None
        return r
    if p[0] == 's' and q[0] == 's':
        if p[1] is q[1] and st.decide(eq(p[2], q[2])) is True:
            return True
        return None
    if p[0] == 'f' and q[0] == 'f':
        return st.decide(eq(p[1], q[1]))
    return None


def showrope(r):
    out = []
    for p in r:
        if p[0] == 'b':
            out.append('[' + ' '.join(('%02x' % x.a) if x.k == 'c' else show(x) for x in p[1]) + ']')
        elif p[0] == 's':
            out.append('%s[%s..+%s]' % (p[1].name, show(p[2]), show(p[3])))
        else:
            out.append('%s*%s' % (show(p[1]), show(p[2])))
    return ' ++ '.join(out) or '<empty>'


def show(t, depth=0):
    if t.k == 'c':
        return str(t.a)
    if t.k == 'v':
        return str(t.a[1]) + ('' if t.a[0] == 0 else "'%d" % t.a[0])
    if depth > 6:
        return '...'
    if t.k == 'l':
        c, ps = t.a
        s = ' + '.join((('%d*' % k) if k != 1 else '') + show(a, depth + 1) for a, k in ps)
        return '(%s%s)' % (s, (' + %d' % c) if c else '')
    a = t.a
    if a[0] == 'sel':
        return '%s[%s]' % (a[1].name, show(a[2], depth + 1))
    if a[0] == 'ltab':
        return 'L%d' % t.id
    if a[0] == 'tab':
        return 'case(%s){%s%s}' % (show(a[1], depth + 1), ', '.join('%s:%s' % (v, show(u, depth + 1)) for v, u in a[2][:6]),
                                   '' if a[3] is None else ', _:' + show(a[3], depth + 1))
    return '%s(%s)' % (a[0], ', '.join(show(x, depth + 1) if isinstance(x, T) else showarg(x) for x in a[1:]))


def showarg(x):
    if isinstance(x, tuple) and x and isinstance(x[0], tuple):
        return showrope(x)
    return str(x)


# ------------------------------------------------------------------- the facts

class Contra(Exception):
    pass


def subst_atoms(t, m, memo=None):
    """replace atoms by terms, everywhere (also inside operations)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.k == 'c':
        r = t
    elif t in m:
        r = m[t]
    elif t.k == 'v':
        r = t
    elif t.k == 'l':
        c, ps = t.a
        r = C(c)
        for a, k in ps:
            r = add(r, subst_atoms(a, m, memo), k)
    else:
        r = rebuild(t, lambda x: subst_atoms(x, m, memo))
    memo[t] = r
    return r


def rope_map(r, f):
    out = []
    for p in r:
        if p[0] == 'b':
            out.append(('b', tuple(f(x) for x in p[1])))
        elif p[0] == 's':
            out.append(('s', p[1], f(p[2]), f(p[3])))
        else:
            out.append(('f', f(p[1]), f(p[2])))
    return tuple(out)


def rebuild(t, f):
    a = t.a
    op = a[0]
    if op == 'sel':
        i = f(a[2])
        return t if i is a[2] else sel(a[1], i)
    if op == 'and':
        x = f(a[1])
        return t if x is a[1] else and_(x, a[2])
    if op in ('and2', 'or', 'xor2', 'mul'):
        x, y = f(a[1]), f(a[2])
        if x is a[1] and y is a[2]:
            return t
        return {'and2': and2, 'or': or_, 'xor2': xor_, 'mul': mul}[op](x, y)
    if op == 'xor':
        x = f(a[1])
        return t if x is a[1] else xor_(x, C(a[2]))
    if op == 'shr':
        x = f(a[1])
        return t if x is a[1] else shr(x, a[2])
    if op == 'byte':
        x = f(a[1])
        return t if x is a[1] else byte(a[2], x)
    if op == 'mod':
        x = f(a[1])
        return t if x is a[1] else trunc(x, a[2])
    if op == 'popc':
        x = f(a[1])
        return t if x is a[1] else popc(x)
    if op == 'ctz':
        x = f(a[1])
        return t if x is a[1] else ctz(x, a[2])
    if op == 'eq0':
        x = f(a[1])
        return t if x is a[1] else eq0(x)
    if op == 'ge0':
        x = f(a[1])
        return t if x is a[1] else ge0(x)
    if op == 'div':
        x = f(a[1])
        return t if x is a[1] else div(x, a[2])
    if op == 'rem':
        x = f(a[1])
        return t if x is a[1] else rem(x, a[2])
    if op == 'ltab':
        r = rebuild(mk('o', ('tab',) + a[1:], t.lo, t.hi), f)
        return t if r.k == 'o' and r.a[0] == 'tab' and r.a[1:] == a[1:] else lazy(r)
    if op == 'tab':
        x = f(a[1])
        items = tuple((v, f(u)) for v, u in a[2])
        d = None if a[3] is None else f(a[3])
        if x is a[1] and items == a[2] and d is a[3]:
            return t
        if x.k == 'c':
            for v, u in items:
                if v == x.a:
                    return u
            if d is not None:
                return d
            return items[0][1]
        if x is not a[1]:
            if x.k == 'o' and x.a[0] == 'tab':
                dd = dict(items)
                return tabmap(x, lambda z: dd.get(z.a, d) if z.k == 'c' and (z.a in dd or d is not None) else rebuild_tab(z, items, d))
            return rebuild_tab(x, items, d)
        return tab(x, dict(items), d)
    return t


def rebuild_tab(x, items, d):
    c, ps = parts(x)
    if x.k == 'l' and len(ps) == 1:
        a, k = ps[0]
        cases = {}
        for v, u in items:
            if (v - c) % k == 0:
                cases[(v - c) // k] = u
        if cases:
            return tab(a, cases, d)
    if x.k == 'c':
        for v, u in items:
            if v == x.a:
                return u
        return d if d is not None else items[0][1]
    return tab(x, dict(items), d)


NOEX = frozenset()


class Facts:
    __slots__ = ('dom', 'sub', 'lin', 'guards', 'memo', 'truth')

    def __init__(self):
        self.dom = {}     # atom -> (lo, hi, vals|None, excl, zeros, ones)
        self.sub = {}     # atom -> term
        self.lin = ()     # terms known >= 0
        self.guards = ()  # ((cond term, (facts...)), ...)
        self.truth = {}   # boolean atom -> 0/1 (eq0/ge0/... atoms)
        self.memo = {}

    def clone(self):
        f = Facts.__new__(Facts)
        f.dom = dict(self.dom)
        f.sub = dict(self.sub)
        f.lin = self.lin
        f.guards = self.guards
        f.truth = dict(self.truth)
        f.memo = self.memo
        return f

    # ---- lookup
    def d(self, a):
        r = self.dom.get(a)
        if r is None:
            return (a.lo, a.hi, None, NOEX, 0, 0)
        return r

    def simp(self, t):
        k = t.k
        if k == 'c':
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if k == 'l':
            c, ps = t.a
            r = C(c)
            for a, kk in ps:
                r = add(r, self.simp(a), kk)
        else:
            r = self.simp_atom(t)
        self.memo[t] = r
        return r

    def simp_atom(self, t):
        s = self.sub.get(t)
        if s is not None:
            return self.simp(s)
        tr = self.truth.get(t)
        if tr is not None:
            return C(tr)
        d = self.dom.get(t)
        if d is not None and d[0] == d[1]:
            return C(d[0])
        if t.k == 'v':
            return t
        op = t.a[0]
        if op == 'ltab':
            x = self.simp(t.a[1])
            v = None
            if x.k == 'c':
                v = x.a
            elif x is t.a[1]:
                vals = self.values(x, 40)
                if vals is None:
                    return t
                keys = {v for v, _ in t.a[2]}
                if not vals & keys:
                    return self.simp(t.a[3]) if t.a[3] is not None else t
                if len(vals) == 1:
                    v = next(iter(vals))
                elif t.a[3] is not None and vals <= keys and len({u for w, u in t.a[2] if w in vals}) == 1:
                    v = next(iter(vals))
            if v is None:
                return t
            for w, u in t.a[2]:
                if w == v:
                    return self.simp(u)
            return self.simp(t.a[3]) if t.a[3] is not None else t
        if op == 'tab':
            x0 = t.a[1]
            dx = None
            x = self.simp(x0)
            if x.k != 'c' and x is x0:
                vals = self.values(x0, 300)
                if vals is not None:
                    cases = {v: self.simp(u) for v, u in t.a[2] if v in vals}
                    rest = vals - set(cases)
                    dflt = t.a[3]
                    if dflt is not None:
                        if len(rest) == 0:
                            dflt = None
                        else:
                            dflt = self.simp(dflt)
                    if not cases and dflt is not None:
                        return dflt
                    if cases:
                        r = tab(x0, cases, dflt)
                        return r
                else:
                    ex = self.d(x0)
                    cases = {v: self.simp(u) for v, u in t.a[2] if v not in ex[3] and ex[0] <= v <= ex[1]}
                    dflt = None if t.a[3] is None else self.simp(t.a[3])
                    if not cases:
                        return dflt if dflt is not None else t
                    return tab(x0, cases, dflt)
            return rebuild(t, self.simp)
        r = rebuild(t, self.simp)
        if r is not t:
            if r.k == 'o' and r is not t:
                s = self.sub.get(r)
                if s is not None:
                    return self.simp(s)
                tr = self.truth.get(r)
                if tr is not None:
                    return C(tr)
                dd = self.dom.get(r)
                if dd is not None and dd[0] == dd[1]:
                    return C(dd[0])
            t = r
            if t.k != 'o':
                return self.simp(t) if t.k == 'v' else t
            op = t.a[0]
        if op == 'and':
            x, m = t.a[1], t.a[2]
            if x.k == 'o' and x.a[0] == 'shr':
                d = self.dom.get(x.a[1])
                if d is not None:
                    z, o = d[4] >> x.a[2], d[5] >> x.a[2]
                    if (z | o) & m:
                        return add(C(o & m), and_(x, m & ~z & ~o))
            d = self.dom.get(x)
            if d is not None:
                if d[2] is not None:
                    vs = {v & m for v in d[2]}
                    if len(vs) == 1:
                        return C(vs.pop())
                z, o = d[4], d[5]
                if (z | o) & m:
                    return add(C(o & m), and_(x, m & ~z & ~o))
                if m & (m + 1) == 0 and d[0] >= 0 and d[1] <= m:
                    return x
        elif op == 'or':
            a, b = t.a[1], t.a[2]
            la, ha = self.rng(a)
            lb, hb = self.rng(b)
            if la >= 0 and lb >= 0 and ha < INF and hb < INF:
                if P(a) & bitmask(int(ha)) & P(b) & bitmask(int(hb)) == 0:
                    return add(a, b)
        elif op == 'popc':
            x = t.a[1]
            lo, hi = self.rng(x)
            if lo >= 0 and hi <= 1:
                return x
            d = self.dom.get(x)
            if d is not None:
                if d[2] is not None:
                    vs = {bin(v).count('1') for v in d[2]}
                    if len(vs) == 1:
                        return C(vs.pop())
                o = d[5]
                z = d[4]
                if o or (z & P(x)):
                    return add(C(bin(o).count('1')), popc(and_(x, P(x) & ~o & ~z)))
        elif op == 'ctz':
            x = t.a[1]
            vs = self.values(t, 200)
            if vs is not None and len(vs) == 1:
                return C(next(iter(vs)))
        elif op == 'byte':
            x = t.a[1]
            d = self.dom.get(x)
            if d is not None and d[2] is not None:
                vs = {(v >> (8 * t.a[2])) & 255 for v in d[2]}
                if len(vs) == 1:
                    return C(vs.pop())
            if d is not None:
                lo, hi = self.rng(x)
                if lo >= 0 and hi < (1 << (8 * t.a[2])):
                    return ZERO
                if lo >= 0 and hi <= 255 and t.a[2] == 0:
                    return x
        elif op == 'shr':
            lo, hi = self.rng(t)
            if lo == hi:
                return C(lo)
            if t.a[2] % 8 == 0 and lo >= 0 and hi <= 255 and t.a[1].lo >= 0:
                return byte(t.a[2] // 8, t.a[1])
        elif op == 'eq0':
            lo, hi = self.rng(t.a[1])
            if lo > 0 or hi < 0:
                return ZERO
            c, ps = parts(t.a[1])
            if len(ps) == 1 and ps[0][1] == 1:
                vs = self.values(ps[0][0], 300)
                if vs is not None and -c not in vs:
                    return ZERO
                if -c in self.d(ps[0][0])[3]:
                    return ZERO
        elif op == 'ge0':
            lo, hi = self.rng(t.a[1])
            if lo >= 0:
                return ONE
            if hi < 0:
                return ZERO
        elif op == 'mod':
            lo, hi = self.rng(t.a[1])
            if lo >= 0 and hi < (1 << t.a[2]):
                return t.a[1]
        elif op == 'rem':
            vs = self.values(t.a[1], 300)
            if vs is not None:
                s = {v % t.a[2] for v in vs}
                if len(s) == 1:
                    return C(s.pop())
                c, ps = parts(t.a[1])
                if len(ps) == 1 and len(vs) <= MAXTAB:
                    x, kk = ps[0]
                    return tab(x, {(v - c) // kk: C(v % t.a[2]) for v in vs})
        return t

    def rng(self, t):
        if t.k == 'c':
            return t.a, t.a
        if t.k == 'l':
            c, ps = t.a
            lo = hi = c
            for a, k in ps:
                l, h = self.rng(a)
                if k > 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
            return lo, hi
        d = self.dom.get(t)
        lo, hi = (t.lo, t.hi) if d is None else (d[0], d[1])
        if t.k == 'o':
            op = t.a[0]
            if op == 'tab':
                l2, h2 = INF, -INF
                ts = []
                vs = self.values(t.a[1], 300)
                ex = self.d(t.a[1])
                for v, u in t.a[2]:
                    if (vs is None or v in vs) and v not in ex[3]:
                        ts.append(u)
                if t.a[3] is not None and (vs is None or any(v not in dict(t.a[2]) for v in vs)):
                    ts.append(t.a[3])
                for u in ts:
                    a, b = self.rng(u)
                    l2, h2 = min(l2, a), max(h2, b)
                if ts:
                    lo, hi = max(lo, l2), min(hi, h2)
            elif op == 'shr':
                a, b = self.rng(t.a[1])
                if a >= 0:
                    lo = max(lo, int(a) >> t.a[2])
                    if b != INF:
                        hi = min(hi, int(b) >> t.a[2])
            elif op == 'div':
                a, b = self.rng(t.a[1])
                if a != -INF:
                    lo = max(lo, int(a) // t.a[2])
                if b != INF:
                    hi = min(hi, int(b) // t.a[2])
            elif op == 'and':
                a, b = self.rng(t.a[1])
                if a >= 0:
                    hi = min(hi, b)
            elif op == 'byte':
                a, b = self.rng(t.a[1])
                if a >= 0 and b != INF:
                    hi = min(hi, int(b) >> (8 * t.a[2]))
        return lo, hi

    def values(self, t, limit):
        """finite set of possible values of t, or None"""
        if t.k == 'c':
            return frozenset((t.a,))
        if t.k == 'l':
            c, ps = t.a
            if len(ps) == 1:
                vs = self.values(ps[0][0], limit)
                if vs is None:
                    return None
                return frozenset(c + ps[0][1] * v for v in vs)
            acc = {c}
            for a, k in ps:
                vs = self.values(a, limit)
                if vs is None:
                    break
                acc = {x + k * v for x in acc for v in vs}
                if len(acc) > limit:
                    break
            else:
                return frozenset(acc)
        else:
            d = self.dom.get(t)
            if d is not None and d[2] is not None and not (t.k == 'o' and t.a[0] in ('ctz', 'tab', 'ltab')):
                return d[2]
            if t.k == 'o':
                if t.a[0] in ('tab', 'ltab'):
                    vs = self.values(t.a[1], 300)
                    ex = self.d(t.a[1])
                    out = set()
                    ok = True
                    for v, u in t.a[2]:
                        if (vs is None or v in vs) and v not in ex[3]:
                            w = self.values(self.simp(u), limit)
                            if w is None:
                                ok = False
                                break
                            out |= w
                    if ok and t.a[3] is not None and (vs is None or any(v not in dict(t.a[2]) for v in vs)):
                        w = self.values(self.simp(t.a[3]), limit)
                        if w is None:
                            ok = False
                        else:
                            out |= w
                    if ok and len(out) <= limit:
                        if d is not None:
                            out = {v for v in out if d[0] <= v <= d[1] and v not in d[3] and (d[2] is None or v in d[2])}
                        return frozenset(out)
                    if d is not None and d[2] is not None:
                        return d[2]
                elif t.a[0] == 'ctz':
                    x, bits = t.a[1], t.a[2]
                    vs = self.values(x, 300)
                    base = None
                    if vs is not None:
                        base = {bits if v == 0 else (v & -v).bit_length() - 1 for v in vs}
                    else:
                        p = 0
                        o = 0
                        f = bf(x)
                        if f is not None:
                            p = o = f[0]
                            for s, a in f[1]:
                                da = self.d(a)
                                p |= (P(a) & ~da[4]) << s
                                o |= da[5] << s
                        else:
                            da = self.d(x)
                            p = P(x) & ~da[4]
                            o = da[5]
                        base = set()
                        i = 0
                        while i < bits:
                            if (p >> i) & 1:
                                base.add(i)
                            if (o >> i) & 1:
                                break
                            i += 1
                        else:
                            base.add(bits)
                    if d is not None:
                        base = {v for v in base if d[0] <= v <= d[1] and v not in d[3] and (d[2] is None or v in d[2])}
                    return frozenset(base)
                elif t.a[0] == 'and':
                    vs = self.values(t.a[1], limit)
                    if vs is not None:
                        return frozenset(v & t.a[2] for v in vs)
                    m = t.a[2]
                    if bin(m).count('1') <= 5:
                        out = {0}
                        b = 1
                        while b <= m:
                            if m & b:
                                out |= {v | b for v in out}
                            b <<= 1
                        if d is not None:
                            out = {v for v in out if d[0] <= v <= d[1] and v not in d[3]}
                        return frozenset(out)
                elif t.a[0] == 'popc':
                    vs = self.values(t.a[1], limit)
                    if vs is not None:
                        return frozenset(bin(v).count('1') for v in vs)
                elif t.a[0] == 'rem' and t.a[2] <= limit:
                    vs = self.values(t.a[1], limit)
                    if vs is not None:
                        return frozenset(v % t.a[2] for v in vs)
        lo, hi = self.rng(t)
        if lo == -INF or hi == INF or hi - lo + 1 > limit:
            return None
        r = set(range(int(lo), int(hi) + 1))
        if t.k != 'l':
            d = self.d(t)
            r = {v for v in r if v not in d[3] and (v & d[4]) == 0 and (v & d[5]) == d[5]}
        return frozenset(r)

    # ---- deciding
    def decide(self, b):
        """truth of a boolean term: True/False/None"""
        b = self.simp(b)
        if b.k == 'c':
            return b.a != 0
        if b.k == 'l':
            c, ps = b.a
            if c == 1 and len(ps) == 1 and ps[0][1] == -1:
                r = self.decide(ps[0][0])
                return None if r is None else (not r)
            return None
        lo, hi = self.rng(b)
        if lo == hi:
            return lo != 0
        if b.k == 'o':
            if b.a[0] == 'ge0':
                e = b.a[1]
                if self.proves_ge(e):
                    return True
                if self.proves_ge(sub(C(-1), e)):
                    return False
            elif b.a[0] == 'eq0':
                e = b.a[1]
                if self.proves_ge(add(e, C(-1))) or self.proves_ge(sub(C(-1), e)):
                    return False
                if self.lin and len(parts(e)[1]) > 1 and self.proves_ge(e) and self.proves_ge(mulc(e, -1)):
                    return True
                c, ps = parts(e)
                if len(ps) == 1 and ps[0][0].k == 'o' and ps[0][0].a[0] in ('tab', 'ltab'):
                    w = self.values(ps[0][0], 40)
                    if w is not None and not any(c + ps[0][1] * x == 0 for x in w):
                        return False
                f = bf(lincomb(0, dict(ps))) if c <= 0 else None
                if f is not None and len(ps) > 1:
                    v = -c
                    for s, a in f[1]:
                        want = (v >> s) & bitmask(a.hi)
                        w = self.values(a, 300)
                        if w is not None and want not in w:
                            return False
                        d = self.d(a)
                        if (d[4] & want) or (d[5] & ~want):
                            return False
            elif b.a[0] == 'and2':
                x = self.decide(b.a[1])
                y = self.decide(b.a[2])
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            elif b.a[0] == 'or':
                x = self.decide(b.a[1])
                y = self.decide(b.a[2])
                if x is True or y is True:
                    return True
                if x is False and y is False:
                    return False
            elif b.a[0] == 'tab':
                rs = set()
                vs = self.values(b.a[1], 300)
                for v, u in b.a[2]:
                    if vs is None or v in vs:
                        rs.add(self.decide(u))
                if b.a[3] is not None:
                    rs.add(self.decide(b.a[3]))
                if len(rs) == 1:
                    return rs.pop()
        return None

    def proves_ge(self, e, depth=4):
        """e >= 0 by bounds, or by adding known inequalities (bounded best-first elimination)"""
        e = self.simp(e)
        lo, _ = self.rng(e)
        if lo >= 0:
            return True
        if not self.lin or e.k == 'c':
            return False
        key = ('ge', e)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._prove(e, depth)
        self.memo[key] = r
        return r

    def _prove(self, e, depth):
        facts = [f for f in (self.simp(f) for f in self.lin) if f.k != 'c']
        byatom = {}
        for f in facts:
            for a, k in parts(f)[1]:
                byatom.setdefault((a, k > 0), []).append((f, k))
        seen = {e}
        tick = itertools.count()
        heap = [(0, 0, 0, e, 0)]
        n = 0
        while heap:
            _, _, _, e, dp = heapq.heappop(heap)
            n += 1
            if n > 40:
                return False
            for a, k in parts(e)[1]:
                for f, fk in byatom.get((a, k > 0), ()):
                    if k % fk == 0:
                        x = add(e, f, -(k // fk))
                    else:
                        g = gcd(abs(k), abs(fk))
                        x = add(mulc(e, abs(fk) // g), f, -(abs(k) // g))
                    if x in seen:
                        continue
                    seen.add(x)
                    lo, _ = self.rng(x)
                    if lo >= 0:
                        return True
                    if dp + 1 < depth and x.k != 'c':
                        heapq.heappush(heap, (len(parts(x)[1]), -lo, next(tick), x, dp + 1))
        return False

    def addlin(self, e):
        keep = []
        ps = parts(e)[1]
        if len(ps) == 1:
            return self.bound1(e)
        for f in self.lin:
            if f is e:
                return
            g = self.simp(f)
            if g.k == 'c':
                continue
            if len(parts(g)[1]) == 1:
                self.bound1(g)
                continue
            if self.rng(sub(e, g))[0] >= 0:
                return          # an equal or stronger fact is there
            if self.rng(sub(g, e))[0] >= 0:
                continue        # weaker than the new one
            keep.append(g)
        keep.append(e)
        self.lin = tuple(keep)
        self.memo = {}

    def bound1(self, e):
        """c + k*a >= 0 becomes a bound of a"""
        c, ((a, k),) = parts(e)
        if k > 0:
            self.narrow(a, lo=-(c // k))
        else:
            self.narrow(a, hi=c // (-k))

    # ---- assuming
    def narrow(self, a, lo=None, hi=None, vals=None, excl=None, z=0, o=0):
        old = self.dom.get(a)
        d = old if old is not None else (a.lo, a.hi, None, NOEX, 0, 0)
        nlo = d[0] if lo is None or lo < d[0] else lo
        nhi = d[1] if hi is None or hi > d[1] else hi
        nv = d[2]
        if vals is not None:
            nv = vals if nv is None else (nv & vals)
        nex = d[3] if excl is None else (d[3] | excl)
        nz = d[4] | z
        no = d[5] | o
        if nz & no:
            raise Contra()
        if no and nlo < no:
            nlo = no
        if nz and nhi != INF:
            m = bitmask(nhi) & ~nz
            if m < nhi:
                nhi = m
        while nlo in nex:
            nlo += 1
        while nhi in nex:
            nhi -= 1
        if nlo > nhi:
            raise Contra()
        if nv is None and nlo != -INF and nhi != INF:
            if nhi - nlo < 33:
                nv = frozenset(range(int(nlo), int(nhi) + 1))
            elif nlo >= 0 and bin(bitmask(nhi) & ~nz & ~no).count('1') <= 6 and nz:
                free = bitmask(nhi) & ~nz & ~no
                out = {no}
                b = 1
                while b <= free:
                    if free & b:
                        out |= {v | b for v in out}
                    b <<= 1
                nv = frozenset(out)
        if nv is not None:
            nv = frozenset(v for v in nv if nlo <= v <= nhi and v not in nex and (v & nz) == 0 and (v & no) == no)
            if not nv:
                raise Contra()
            nlo = min(nv)
            nhi = max(nv)
            if nlo >= 0:
                allo = None
                alln = 0
                for v in nv:
                    allo = v if allo is None else (allo & v)
                    alln |= v
                no |= allo
                nz |= bitmask(max(a.hi, 0) if a.hi != INF else nhi) & ~alln
        new = (nlo, nhi, nv, nex, nz, no)
        if new != old:
            self.dom[a] = new
            self.memo = {}
            return True
        return False

    def assume(self, b, truth=True):
        """add a boolean fact; raises Contra when it cannot hold"""
        b = self.simp(b)
        self._assume(b, truth)
        self._fire()

    def ok(self, b, truth=True):
        try:
            self.assume(b, truth)
            return True
        except Contra:
            return False

    def _fire(self):
        if not self.guards:
            return
        again = True
        while again and self.guards:
            again = False
            keep = []
            fire = []
            changed = False
            for g in self.guards:
                cs = []
                dead = False
                for c in g[0]:
                    r = self.simp(c)
                    if r.k != 'c':
                        cs.append(c)
                    elif not r.a:
                        dead = True
                        break
                if dead:
                    changed = True
                elif not cs:
                    fire.append(g)
                    changed = True
                elif len(cs) != len(g[0]):
                    keep.append((tuple(cs), g[1]))
                    changed = True
                else:
                    keep.append(g)
            if changed:
                self.guards = tuple(keep)
            for g in fire:
                again = True
                for (x, tv) in g[1]:
                    self._assume(self.simp(x), tv)

    def _assume(self, b, truth):
        if b.k == 'c':
            if (b.a != 0) != truth:
                raise Contra()
            return
        if b.k == 'l':
            c, ps = b.a
            if c == 1 and len(ps) == 1 and ps[0][1] == -1:
                return self._assume(ps[0][0], not truth)
            return self._assume(eq0(b), not truth)
        if b.k == 'v' or b.lo < 0 or b.hi > 1:
            if b.lo >= 0 and b.hi <= 1:
                self.setv(b, 1 if truth else 0)
                return
            return self._assume(eq0(b), not truth)
        op = b.a[0]
        if op == 'ge0':
            e = b.a[1]
            if not truth:
                e = sub(C(-1), e)
            self.assume_ge(e)
            return
        if op == 'eq0':
            if truth:
                self.assume_eq0(b.a[1])
            else:
                self.assume_ne0(b.a[1], b)
            return
        if op == 'and2' and truth:
            self._assume(self.simp(b.a[1]), True)
            self._assume(self.simp(b.a[2]), True)
            return
        if op == 'or' and not truth:
            self._assume(self.simp(b.a[1]), False)
            self._assume(self.simp(b.a[2]), False)
            return
        if op == 'tab':
            x = b.a[1]
            vs = self.values(x, 300)
            good = set()
            sure = {}
            for v, u in b.a[2]:
                if vs is not None and v not in vs:
                    continue
                r = self.decide(u)
                if r is None or r == truth:
                    good.add(v)
                    sure[v] = u
            dgood = False
            if b.a[3] is not None:
                r = self.decide(b.a[3])
                dgood = r is None or r == truth
            keys = {v for v, _ in b.a[2]}
            if dgood:
                bad = (keys if vs is None else keys & vs) - good
                if bad:
                    self.restrict(x, excl=frozenset(bad))
            else:
                if not good:
                    raise Contra()
                self.restrict(x, vals=frozenset(good))
                if len(good) == 1:
                    v = next(iter(good))
                    u = self.simp(sure[v])
                    if u.k != 'c':
                        self._assume(u, truth)
            self.truth[b] = 1 if truth else 0
            other = tabmap(b, not_)
            if other.k == 'o':
                self.truth[other] = 0 if truth else 1
            self.memo = {}
            return
        # any other boolean atom
        self.setv(b, 1 if truth else 0)

    def restrict(self, a, vals=None, excl=None):
        if vals is not None and len(vals) == 1:
            return self.setv(a, next(iter(vals)))
        self.narrow(a, vals=vals, excl=excl)
        d = self.dom.get(a)
        if d is not None and d[0] == d[1]:
            self.setv(a, d[0])

    def setv(self, a, v):
        """atom a has value v; propagate into its structure"""
        self.narrow(a, lo=v, hi=v)
        if a.k != 'o':
            return
        op = a.a[0]
        if op == 'and':
            x, m = a.a[1], a.a[2]
            x = self.simp(x)
            if x.k not in ('c', 'l'):
                self.narrow(x, z=m & ~v, o=v)
                d = self.dom.get(x)
                if d[0] == d[1]:
                    self.setv(x, d[0])
        elif op == 'byte':
            x, i = a.a[1], a.a[2]
            x = self.simp(x)
            if x.k not in ('c', 'l') and x.lo >= 0:
                self.narrow(x, z=(~v & 255) << (8 * i), o=v << (8 * i))
        elif op == 'ctz':
            x, bits = a.a[1], a.a[2]
            x = self.simp(x)
            if x.k != 'c':
                if v == bits:
                    self._assume(eq0(x), True)
                else:
                    if v:
                        self._assume(eq0(and_(x, (1 << v) - 1)), True)
                    self._assume(eq0(and_(self.simp(x), 1 << v)), False)
        elif op == 'popc':
            x = self.simp(a.a[1])
            if v == 0:
                self._assume(eq0(x), True)
            elif x.k not in ('c', 'l'):
                vs = self.values(x, 300)
                if vs is not None:
                    self.restrict(x, vals=frozenset(w for w in vs if bin(w).count('1') == v))
        elif op == 'tab':
            self.truth.pop(a, None)
            x = a.a[1]
            good = set()
            vs = self.values(x, 300)
            one = None
            for w, u in a.a[2]:
                if vs is not None and w not in vs:
                    continue
                r = self.decide(eq(u, C(v)))
                if r is not False:
                    good.add(w)
                    one = u
            dgood = a.a[3] is not None and self.decide(eq(a.a[3], C(v))) is not False
            if not dgood:
                if not good:
                    raise Contra()
                self.restrict(x, vals=frozenset(good))
                if len(good) == 1:
                    self._assume(self.simp(eq(one, C(v))), True)
            else:
                bad = {w for w, _ in a.a[2]} - good
                if bad:
                    self.restrict(x, excl=frozenset(bad))
        elif op == 'ge0' or op == 'eq0':
            self._assume(a, v != 0)
        elif op == 'shr':
            x = self.simp(a.a[1])
            if x.k not in ('c', 'l'):
                k = a.a[2]
                self.narrow(x, lo=v << k, hi=((v + 1) << k) - 1)
        elif op == 'mod':
            pass

    def assume_ge(self, e):
        e = self.simp(e)
        if e.k == 'c':
            if e.a < 0:
                raise Contra()
            return
        lo, hi = self.rng(e)
        if lo >= 0:
            return
        if hi < 0:
            raise Contra()
        c, ps = parts(e)
        if len(ps) == 1:
            a, k = ps[0]
            if k > 0:
                bound = -(c // k)
                self.narrow(a, lo=bound)
            else:
                bound = c // (-k)
                self.narrow(a, hi=bound)
            self._after(a)
            return
        if self.proves_ge(sub(C(-1), e)):
            raise Contra()
        if self.lin and self.proves_ge(mulc(e, -1)):
            self.assume_eq0(e)
            return
        self.addlin(e)
        # interval propagation
        for a, k in ps:
            l, h = self.rng(a)
            if k > 0:
                # k*a >= -(rest max)
                rest = hi - k * h
                if rest != INF and rest == rest:
                    b = -(int(rest) // k) if rest != -INF else None
                    if b is not None and b > l:
                        self.narrow(a, lo=b)
                        self._after(a)
            else:
                rest = hi - k * l
                if rest != INF and rest == rest:
                    b = int(rest) // (-k)
                    if b < h:
                        self.narrow(a, hi=b)
                        self._after(a)

    def _after(self, a):
        d = self.dom.get(a)
        if d is not None and d[0] == d[1]:
            self.setv(a, d[0])
            return
        if a.k == 'o' and a.a[0] == 'ctz':
            x, bits = a.a[1], a.a[2]
            x = self.simp(x)
            if x.k != 'c' and d[0] > 0:
                self._assume(self.simp(eq0(and_(x, (1 << min(d[0], bits)) - 1))), True)
            if x.k != 'c' and d[1] < bits:
                self._assume(self.simp(eq0(x)), False)
        elif a.k == 'o' and a.a[0] == 'tab':
            x = a.a[1]
            vs = self.values(x, 300)
            if vs is not None:
                good = set()
                dd = dict(a.a[2])
                for v in vs:
                    u = dd.get(v, a.a[3])
                    if u is None:
                        continue
                    l, h = self.rng(self.simp(u))
                    if h >= d[0] and l <= d[1]:
                        good.add(v)
                if not good:
                    raise Contra()
                if good != vs:
                    self.restrict(x, vals=frozenset(good))

    def assume_eq0(self, e):
        e = self.simp(e)
        if e.k == 'c':
            if e.a != 0:
                raise Contra()
            return
        lo, hi = self.rng(e)
        if lo > 0 or hi < 0:
            raise Contra()
        c, ps = parts(e)
        if len(ps) == 1:
            a, k = ps[0]
            if c % k:
                raise Contra()
            self.setv(a, -c // k)
            return
        # a sum of disjoint bit fields equal to a constant
        neg = all(k < 0 for _, k in ps)
        e2 = mulc(e, -1) if neg else e
        c2, ps2 = parts(e2)
        if c2 <= 0:
            f = bf(lincomb(0, dict(ps2)))
            if f is not None:
                v = -c2
                tot = 0
                for s, a in f[1]:
                    tot |= P(a) << s
                if v & ~tot:
                    raise Contra()
                for s, a in f[1]:
                    self.setv(a, (v >> s) & P(a))
                return
        if c2 == 0 and all(k > 0 for _, k in ps2) and all(self.rng(a)[0] >= 0 for a, _ in ps2):
            for a, _ in ps2:
                self.setv(a, 0)
            return
        if self.proves_ge(add(e, C(-1))) or self.proves_ge(sub(C(-1), e)):
            raise Contra()
        # solve for the youngest atom with a unit coefficient
        cand = [(a, k) for a, k in ps if k in (1, -1)]
        if cand:
            # prefer plain variables / selections
            cand.sort(key=lambda x: (x[0].k == 'v' or x[0].a[0] in ('sel',), x[0].id))
            a, k = cand[-1]
            rest = lincomb(c, {x: y for x, y in ps if x is not a})
            rhs = mulc(rest, -k)
            if not occurs(a, rhs):
                la, ha = self.rng(a)
                d = self.d(a)
                self.sub[a] = rhs
                self.memo = {}
                if d[0] != -INF:
                    self.assume_ge(sub(rhs, C(d[0])))
                if d[1] != INF:
                    self.assume_ge(sub(C(d[1]), rhs))
                if d[2] is not None:
                    r2 = self.simp(rhs)
                    if r2.k != 'c' and r2.k != 'l':
                        self.restrict(r2, vals=d[2])
                return
        self.lin = self.lin + (e, mulc(e, -1))
        self.truth[eq0(e)] = 1
        self.memo = {}

    def assume_ne0(self, e, b):
        e = self.simp(e)
        if e.k == 'c':
            if e.a == 0:
                raise Contra()
            return
        c, ps = parts(e)
        if len(ps) == 1:
            a, k = ps[0]
            if c % k == 0:
                v = -c // k
                if a.k == 'o' and a.a[0] == 'and' and bin(a.a[2]).count('1') == 1 and v == 0:
                    self.setv(a, a.a[2])
                    return
                lo, hi = self.rng(a)
                self.narrow(a, excl=frozenset((v,)))
                self._after(a)
                if a.k == 'o' and a.a[0] == 'and' and v == 0:
                    x = self.simp(a.a[1])
                    if x.k not in ('c', 'l'):
                        vs = self.values(x, 300)
                        if vs is not None:
                            self.restrict(x, vals=frozenset(w for w in vs if w & a.a[2]))
            return
        lo, hi = self.rng(e)
        if lo == 0:
            self.assume_ge(add(e, C(-1)))
        elif hi == 0:
            self.assume_ge(sub(C(-1), e))
        else:
            if self.lin:
                if self.proves_ge(e):
                    self.assume_ge(add(e, C(-1)))
                elif self.proves_ge(mulc(e, -1)):
                    self.assume_ge(sub(C(-1), e))
        self.truth[eq0(e)] = 0
        self.memo = {}

    def allfacts(self):
        """every fact as a list of (term, truth) for guarded re-assumption"""
        out = []
        for a, d in self.dom.items():
            out.append(('dom', a, d))
        return out


def occurs(a, t):
    if t is a:
        return True
    if t.k == 'l':
        return any(occurs(a, x) for x, _ in t.a[1])
    if t.k == 'o':
        for x in t.a[1:]:
            if isinstance(x, T) and occurs(a, x):
                return True
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], T) and occurs(a, y[1]):
                        return True
    return False


def atoms_of(t, acc=None):
    if acc is None:
        acc = set()
    if t.k == 'l':
        for x, _ in t.a[1]:
            atoms_of(x, acc)
    elif t.k == 'v':
        acc.add(t)
    elif t.k == 'o':
        if t in acc:
            return acc
        acc.add(t)
        for x in t.a[1:]:
            if isinstance(x, T):
                atoms_of(x, acc)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                atoms_of(z, acc)
    return acc


def tainted(t):
    return any(a.k == 'v' and a.a[2] for a in atoms_of(t))
