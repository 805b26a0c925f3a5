"""Wire layouts as one description per message, checked in both directions.

A description is a function of a `Coder`; it walks the fields in wire order.
The same description is used
  ok   on every success of a decoder: each field of the result is the value at its position,
  wf   on every error of a decoder: a well-formed message contradicts the path to the error,
  enc  on every success of an encoder: the bytes written are those of the layout,
  ewf  on every error of an encoder: a well-formed message and a large enough buffer contradict it.
Descriptions fork on the values that select variants or counts.
Sub-structures of variable size are described (and checked) on their own and
appear as contracts (`Elems`) inside the messages that contain them.
"""
import re
from interp import *
from models import *
from dom import *
from dom import INF
from view import V, Lost, rope, ropes_equal, same, any_taint, settle, case
from proto import Call, rescue, or_list
import dom


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Impossible(Exception):
    """the assumptions of a well-formed message contradict the state"""


class Excused(Exception):
    """the outcome is due to a sub-structure that is checked on its own"""


def get(v, path):
    """'a.b', 'a[1]', 'a?' (set option), 'a@Variant' (payload), combined"""
    for tok in re.findall(r'[^.\[\]?@#]+|\[\d+\]|\?|@\w+(?:#\d+)?', path):
        if tok == '?':
            v = v.some()
        elif tok[0] == '[':
            v = v.item(int(tok[1:-1]))
        elif tok[0] == '@':
            n, _, i = tok[1:].partition('#')
            v = v.pay(n, int(i or 0))
        else:
            v = v.f(tok)
    return v


def small_atoms(st, t, limit=40):
    """atoms of t with a small set of possible values, in order"""
    out = []
    for a in atoms_of(t):
        if a.k == 'v' or (a.k == 'o' and a.a[0] in ('sel', 'and', 'byte', 'shr')):
            vs = st.f.values(a, limit)
            if vs is not None and len(vs) > 1:
                out.append((len(vs), str(a), a, vs))
    return [(a, vs) for _, _, a, vs in sorted(out, key=lambda x: x[:2])]


def leaves(t, acc):
    """the independent quantities of a term"""
    if t.k == 'l':
        for x, _ in t.a[1]:
            leaves(x, acc)
    elif t.k == 'v' or t.k == 'o' and t.a[0] == 'sel':
        acc[t] = True
    elif t.k == 'o':
        for x in t.a[1:]:
            if isinstance(x, T):
                leaves(x, acc)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                leaves(z, acc)
    return acc


def candidates(st, a):
    vs = st.f.values(a, 12)
    if vs is not None:
        return sorted(vs)
    lo, hi = st.f.rng(a)
    d = st.f.d(a)
    out = []
    for v in (lo, 1, 2, 3, 5, 8, 16, 64, 128, 255, lo + 1, lo + 2, lo + 3, hi, hi - 1, 300, 1000):
        if v in (INF, -INF) or not lo <= v <= hi or v in out or (d[3] and v in d[3]) or (d[2] is not None and v not in d[2]):
            continue
        out.append(int(v))
    return out[:14]


class Budget:
    def __init__(self, n):
        self.n = n


def search(st, check, budget):
    """a case of the state, with quantities fixed one by one, on which check says True; None: none found"""
    if budget.n <= 0:
        return None
    budget.n -= 1
    r, terms = check(st)
    if r is True:
        return st
    if r is False:
        return None
    for t in terms:
        x = st.f.simp(t)
        # a combination known to be constant leaves its parts open
        for a in leaves(x if x.k != 'c' else t, {}):
            if st.f.simp(a).k == 'c':
                continue
            if a.k == 'o' and a.a[1].kind in ('havoc', 'join') or a.k == 'v' and a.a[2]:
                return None
            for v in candidates(st, a):
                x = case(st, eq(a, C(v)))
                if x is not None:
                    y = search(x, check, budget)
                    if y is not None:
                        return y
                if budget.n <= 0:
                    return None
            return None
    return None


def real(st, n=60):
    """the state stands for at least one actual input: every quantity it constrains can be fixed"""
    def check(s):
        ts = [t for t in map(s.f.simp, s.f.lin) if t.k != 'c']
        for a in s.f.dom:
            if a.k == 'o' and a.a[0] != 'sel':
                r = dom.rebuild(a, s.f.simp)
                if r.k != 'c':
                    ts.append(r)
        ts += [r for r in (dom.rebuild(a, s.f.simp) if a.k == 'o' else a for a in s.f.truth) if r.k != 'c']
        return (None, ts) if ts else (True, ())
    return search(st, check, Budget(n)) is not None


def witness(st, b, n=80):
    """an input on which the condition fails"""
    def check(s):
        t = s.f.simp(b)
        d = s.f.decide(t)
        return (None if d is None else not d), (t,)
    x = case(st, not_(st.f.simp(b)))
    if x is None:
        return None
    x = search(x, check, Budget(n))
    return x if x is not None and real(x) else None


def holds(st, b):
    """True / False (an input is found on which it fails) / None"""
    b = st.f.simp(b)
    d = st.f.decide(b)
    if d is None:
        if case(st, not_(b)) is None:
            return True
        if witness(st, b) is not None:
            return False
    return d


def ropes_same(st, a, b):
    """True / False (some byte differs on some input) / None"""
    r = ropes_equal(st, a, b)
    if r is not None:
        return r
    a, b = rope(st, a), rope(st, b)
    la, lb = rlen(a), rlen(b)
    if holds(st, eq(la, lb)) is False:
        return False
    at, cum = [], ZERO
    for p in tuple(a):
        at += [add(cum, C(i)) for i in (range(min(len(p[1]), 64)) if p[0] == 'b' else (0, 1))]
        cum = add(cum, plen(p))
    cum = ZERO
    for p in tuple(b):
        at.append(cum)
        cum = add(cum, plen(p))
    at.append(sub(la, ONE))
    for i in dict.fromkeys(map(st.f.simp, at)):
        def check(s):
            if s.f.decide(both2(ge(i, ZERO), lt(i, la))) is False:
                return False, ()
            try:
                x, y = rget(s.f, a, i), rget(s.f, b, i)
            except Split as e:
                return None, e.conds
            except Give:
                return None, (i, la)
            t = s.f.simp(eq(x, y))
            d = s.f.decide(t)
            if d is False and s.f.decide(both2(ge(i, ZERO), lt(i, la))) is not True:
                return None, (sub(la, i),)
            return (None if d is None else not d), (t, sub(la, i))
        x = search(st, check, Budget(60))
        if x is not None and real(x):
            return False
    return None


def eq_holds(st, a, b):
    d = eq_holds_(st, a, b)
    return holds(st, eq(a, b)) if d is None else d


def eq_holds_(st, a, b, depth=3):
    """True / False / None: equal in every case"""
    a, b = st.f.simp(a), st.f.simp(b)
    if a is b:
        return True
    e = eq(a, b)
    d = st.f.decide(e)
    if d is not None:
        return d
    if depth == 0:
        return None
    for x, vs in small_atoms(st, sub(a, b)):
        r = True
        for v in sorted(vs):
            s = case(st, eq(x, C(v)))
            if s is None:
                continue
            q = eq_holds_(s, a, b, depth - 1)
            if q is None:
                r = None
                break
            if q is False:
                r = False
        if r is not None:
            return r
    return d


class Coder:
    def __init__(self, P, I, st, mode, view=None, buf=None, start=ZERO, R=None, label='', cats=None):
        self.P, self.I, self.st, self.mode = P, I, st, mode
        self.v = view
        self.buf = buf
        self.start = start
        self.cur = start
        self.R = R
        self.label = label
        self.cats = cats or set()
        self.out = ()
        self.deferred = []
        self.obl = []
        self.elems = [e for e in st.ev if isinstance(e, Call) and e.kind in ('elem', 'elem_err')]
        self.k = 0
        self.n = 0
        self.zero_at = []

    # modes
    @property
    def dec(self):
        return self.mode in ('ok', 'wf')

    def assume(self, *cs):
        for c in cs:
            s = case(self.st, c)
            if s is None:
                raise Impossible()
            self.st = s

    def want(self, cat, what, res, detail=None, taint=False):
        self.obl.append((cat, what, res, detail, taint))

    def at(self, path):
        if self.v is None:
            raise Lost('no value')
        return get(self.v.at(self.st), path)

    def bytes(self, n, take=True):
        """the next n bytes (decoding)"""
        out = []
        for i in range(n):
            try:
                out.append(rget(self.st.f, self.buf, add(self.cur, C(i))))
            except (Split, Give) as e:
                raise Lost('byte at %s' % show(self.cur))
        if take:
            self.cur = self.st.f.simp(add(self.cur, C(n)))
        return out

    def room(self, n):
        """a well-formed input holds the bytes about to be looked at"""
        if self.mode == 'wf':
            self.assume(ge(rlen(self.buf), add(self.cur, n if isinstance(n, T) else C(n))))

    def put(self, bs):
        self.out = self.out + (('b', tuple(bs)),)
        self.cur = self.st.f.simp(add(self.cur, C(len(bs))))

    # items
    def u(self, path, n=1, hi=None, pre=None, lo=None):
        """little-endian unsigned integer; hi: largest well-formed value, pre: largest value plain data may hold"""
        if self.dec:
            self.room(n)
            t = self.st.f.simp(from_le(self.bytes(n)))
            if self.mode == 'ok' and path:
                w = self.at(path)
                x = w.num()
                self.want('field', path, eq_holds(self.st, x, t), '%s is %s, the message has %s' % (path, show(x), show(t)), any_taint(x) or any_taint(t))
        else:
            t = self.at(path).num()
            self.put([self.st.f.simp(byte(i, t)) for i in range(n)])
            if pre is not None:
                self.assume(le(t, C(pre)))
        if hi is not None:
            if self.mode == 'ok':
                self.want('range', path, holds(self.st, le(t, C(hi))), '%s above %d is accepted' % (path, hi), any_taint(t))
            self.assume(le(t, C(hi)))
        if lo is not None:
            if self.mode == 'ok':
                self.want('range', path, holds(self.st, ge(t, C(lo))), '%s below %d is accepted' % (path, lo), any_taint(t))
            self.assume(ge(t, C(lo)))
        return t

    def z(self, n=1, what='reserved'):
        if not self.dec:
            for i in range(n):
                self.zero_at.append((self.st.f.simp(add(self.cur, C(i))), len(self.zero_at)))
            self.put([ZERO] * n)
            return
        self.room(n)
        for i, b in enumerate(self.bytes(n)):
            if self.mode == 'ok':
                self.want('zero', '%s byte %d' % (what, self.n), eq_holds(self.st, b, ZERO), 'accepted with %s in place of zero' % show(b), any_taint(b))
            else:
                self.assume(eq(b, ZERO))
            self.n += 1

    def const(self, val, what):
        """a byte with one legal value"""
        if not self.dec:
            self.put([C(val)])
            return
        self.room(1)
        b = self.bytes(1)[0]
        if self.mode == 'ok':
            self.want('undef', what, eq_holds(self.st, b, C(val)), 'accepted with %s in place of %d' % (show(b), val), any_taint(b))
        else:
            self.assume(eq(b, C(val)))

    def free(self, vals, what=''):
        """a byte the decoder does not interpret; the encoder writes vals"""
        if self.dec:
            self.room(1)
            return self.bytes(1)[0]
        self.put([C(vals)])

    def raw(self, path, size=None):
        """a byte string; size: its length in the message"""
        if self.dec:
            n = size if isinstance(size, T) else C(size)
            self.room(n)
            try:
                w = rslice(self.st.f, self.buf, self.cur, self.st.f.simp(n)) if self.st.f.simp(n) is not ZERO else ()
            except (Split, Give):
                raise Lost('%s in the message' % path)
            if self.mode == 'ok' and path:
                x = self.at(path).bytes()
                self.want('field', path, ropes_same(self.st, x, w), '%s is %s, the message has %s' % (path, showrope(x), showrope(w)), any_taint(x) or any_taint(w))
            self.cur = self.st.f.simp(add(self.cur, n))
            return
        x = self.at(path).bytes()
        n = self.st.f.simp(rlen(x))
        if size is not None:
            self.assume(eq(n, size if isinstance(size, T) else C(size)))
        self.out = self.out + tuple(x)
        self.cur = self.st.f.simp(add(self.cur, n))

    def skip(self, n):
        """bytes that are carried but not interpreted"""
        if self.dec:
            self.room(n)
            self.cur = self.st.f.simp(add(self.cur, n))

    def undefined(self, t, mask, bits, what):
        if self.mode in ('ok', 'wf'):
            inv = ((1 << bits) - 1) & ~mask
            b = self.st.f.simp(and_(t, inv))
            if self.mode == 'ok':
                self.want('undef', what, eq_holds(self.st, b, ZERO), 'undefined bits of %s are accepted' % what, any_taint(b))
            else:
                self.assume(eq(b, ZERO))
        else:
            self.assume(eq(and_(t, ((1 << bits) - 1) & ~mask), ZERO))

    def flags(self, path, n, mask):
        raw = []
        if self.dec:
            self.room(n)
            raw = self.bytes(n, False)
        t = self.u(path, n)
        if self.mode == 'ok':
            for i, b in enumerate(raw):
                # byte by byte: what is known about a single byte is lost in the sum
                b = self.st.f.simp(and_(b, 255 & ~(mask >> (8 * i))))
                self.want('undef', path, eq_holds(self.st, b, ZERO), 'undefined bits of %s are accepted' % path, any_taint(b))
        else:
            self.undefined(t, mask, 8 * n, path)
        self.rawb = raw
        return t

    def onebit(self, t, mask, what, raw=None):
        """exactly one of the defined bits"""
        t = self.st.f.simp(t)
        p = popc(t)
        for b in (raw or []):
            p = add(p if b is not raw[0] else ZERO, popc(b))
        if raw and self.mode == 'ok' and self.st.f.decide(eq(p, ONE)) is True:
            self.want('onebit', what, True)
            return
        c = eq(p, ONE)
        if self.mode == 'ok':
            self.want('onebit', what, one_bit(self.st, t, mask), '%s may not be exactly one bit' % what, any_taint(t))
        else:
            self.assume(c)

    def pick(self, t, vals, what, cat='undef'):
        """fork on the legal values of a term; anything else is malformed"""
        t = self.st.f.simp(t)
        if t.k == 'c':
            if t.a in vals:
                return t.a
            if self.mode == 'ok':
                self.want(cat, what, False if real(self.st) else None, '%d is accepted as %s' % (t.a, what))
            raise Impossible()
        if self.st.f.decide(not_(in_set(t, list(vals)))) is True:
            if self.mode == 'ok':
                self.want(cat, what, False if real(self.st) else None, 'an undefined value is accepted as %s (%s)' % (what, show(t)), any_taint(t))
            raise Impossible()
        fs = [eq(t, C(v)) for v in vals]
        raise Fork(fs + [not_(in_set(t, list(vals)))])

    def enum(self, path, codes, n=1, what=None):
        """unit variants: name -> code"""
        name = self.variant(path, codes, n, what)
        return name

    def variant(self, path, codes, n=1, what=None, term=None):
        what = what or path
        if self.dec:
            if term is None:
                self.room(n)
                t = self.st.f.simp(from_le(self.bytes(n)))
            else:
                t = term
            c = self.pick(t, sorted(codes.values()), what)
            name = [k for k, v in codes.items() if v == c][0]
            if self.mode == 'ok':
                w = self.at(path)
                self.want('field', '%s=%s' % (path, name), w.variant() == name if w.variant() else None,
                          '%s is decoded as %s, not %s' % (c, '/'.join(w.variants()), name), any_taint(w.disc()))
                if w.variant() != name:
                    raise Impossible()
            return name
        name = self.sel(path)
        if name not in codes:
            raise Impossible()
        if term is None:
            self.put([C(codes[name] >> (8 * i) & 255) for i in range(n)])
        return name

    def sel(self, path):
        """the variant of the value (encoding)"""
        w = self.at(path)
        d = w.disc()
        if d.k != 'c':
            raise Fork([eq(d, C(i)) for i in range(len(w.t['variants']))])
        return w.variant()

    def count(self, path, hi, n=1, what=None):
        t = self.u(path, n)
        return self.pick(t, list(range(hi + 1)), what or path, 'range')

    def total(self, n=2, base=0, hi=None, what='length'):
        """a field holding the length of the whole message: (cur at the end) - start + base"""
        if self.dec:
            self.room(n)
            t = self.st.f.simp(from_le(self.bytes(n)))
            self.deferred.append(lambda: self.wf_total(t, base, hi))
        else:
            k = len(self.out)
            at = self.cur
            self.put([ZERO] * n)

            def fill():
                t = self.st.f.simp(sub(self.cur, self.start))
                if hi is not None:
                    self.assume(le(t, C(hi)))
                    t = self.st.f.simp(t)
                self.out = self.out[:k] + (('b', tuple(self.st.f.simp(byte(i, t)) for i in range(n))),) + self.out[k + 1:]
            self.deferred.append(fill)

    def wf_total(self, t, base, hi):
        if self.mode == 'wf':
            self.assume(eq(t, addn(self.cur, mulc(self.start, -1), C(base))))
            if hi is not None:
                self.assume(le(t, C(hi)))

    def elem(self, kind, path, announced=None):
        """a sub-structure with a description of its own"""
        lo, hi = self.P.elems.bounds(kind)
        if self.dec:
            ev = self.elems[self.k] if self.k < len(self.elems) else None
            self.k += 1
            here = ev is not None and ev.name == kind and self.st.f.decide(eq(ev.off, self.cur)) is True
            if self.mode == 'ok':
                if ev is None or not here:
                    self.want('field', path, False, '%s: no %s was read at %s' % (path, kind, show(self.cur)), True)
                    raise Lost('%s at %s' % (kind, show(self.cur)))
                x = self.at(path) if path else None
                if x is not None:
                    r = same(self.I, self.st, x.v, ev.val, 0, eq_holds, ropes_same)
                    self.want('field', path, r, '%s is not the %s at its position' % (path, kind), any_taint(x))
                self.cur = self.st.f.simp(add(self.cur, ev.size))
                return ev.size
            if here and ev.kind == 'elem_err':
                raise Excused()
            if here:
                size = ev.size
            else:
                size = nvar('wf:%s@%s' % (kind, show(self.cur)), lo, hi) if lo != hi else C(lo)
                self.assume(ge(size, C(lo)), le(size, C(hi)))
            self.room(size)
            self.cur = self.st.f.simp(add(self.cur, size))
            return size
        x = self.at(path)
        b = self.P.elems.piece(self.st, kind, x.v)
        self.out = self.out + (('s', b, ZERO, b.len),)
        self.cur = self.st.f.simp(add(self.cur, b.len))
        return b.len

    def end(self):
        for f in self.deferred:
            f()
        if self.mode == 'ok':
            self.want('length', 'length', holds(self.st, le(self.cur, rlen(self.buf))), 'a body shorter than its fields is accepted', any_taint(self.cur))


def one_bit(st, t, mask):
    t = st.f.simp(t)
    if t.k == 'c':
        return t.a != 0 and t.a & (t.a - 1) == 0 and t.a & ~mask == 0
    if st.f.decide(eq(popc(t), ONE)) is True:
        return True
    vs = st.f.values(t, 600)
    if vs is not None:
        bad = [v for v in vs if v == 0 or v & (v - 1) or v & ~mask]
        if not bad:
            return True
        if len(bad) > 40:
            return False
        for v in bad:
            if case(st, eq(t, C(v))) is not None:
                return False
        return True
    return None


def walk(mk, desc, st):
    """run a description on all forks of the state; yields coders that reached the end or failed
    (coder, problem) with problem None, 'impossible', 'excused' or a Lost"""
    work = [(st, 0)]
    while work:
        s, n = work.pop()
        if n > 12:
            yield None, Lost('too many forks')
            continue
        c = mk(s)
        try:
            desc(c)
            c.end()
            yield c, None
        except Fork as f:
            for q in f.conds:
                x = case(c.st, q)
                if x is not None:
                    work.append((x, n + 1))
        except Impossible:
            yield c, 'impossible'
        except Excused:
            yield c, 'excused'
        except Lost as e:
            yield c, e
        except (Split, Give) as e:
            yield c, Lost(str(e) or 'split')


class Elems:
    """contracts of the sub-structures"""

    def __init__(self, P):
        self.P = P
        self.fns = {}
        for i, x in enumerate(P.insts):
            if x['local'] and x['blocks'] and x['path'].startswith('msgs::'):
                m = re.match(r'msgs::(?:\w+::)*(\w+)(?:::<.*>)?::(read|write|serialized_size)$', x['path'])
                if m and m.group(1) in KINDS:
                    self.fns[(m.group(1), m.group(2))] = (i, x)
        self._b = {}

    def cap(self, adt, field):
        for t in self.P.types:
            if t['k'] == 'adt' and t.get('adt') == adt and t['kind'] == 'struct':
                for n, ft in t['variants'][0]['fields']:
                    if n == field and self.P.types[ft]['k'] == 'array':
                        return self.P.types[ft]['len']
        raise Lost('%s.%s' % (adt, field))

    def bounds(self, kind):
        if kind not in self._b:
            self._b[kind] = KINDS[kind](self)
        return self._b[kind]

    def piece(self, st, kind, val):
        lo, hi = self.bounds(kind)
        if kind == 'AlgorithmRequest':
            hi = lo
        key = repr(t_map(val, st.f.simp))
        m = C(lo) if lo == hi else nvar('size(%s %s)' % (kind, key), lo, hi)
        return mkbase('elem', (kind, key), '%s(%s)' % (kind, key), m)

    def install(self, I, but=()):
        for (kind, op), (i, x) in self.fns.items():
            if kind in but:
                continue
            h = {'read': self.mkread, 'write': self.mkwrite, 'serialized_size': self.mksize}[op](kind)
            I.hooks[x['path']] = h

    def mksize(self, kind):
        def h(I, st, a, c):
            return [(st, self.piece(st, kind, I.deref(st, a[0])).len)]
        return h

    def mkread(self, kind):
        def h(I, st, a, c):
            rt = I.P.types[c.destty]
            if rt.get('adt') != 'core::result::Result' or len(a) != 1:
                return None
            rd = fields(I, st, a[0], c.argtys[0])
            if rd is None or not {'buf', 'byte_offset', 'bit_offset'} <= set(rd):
                return None
            if st.f.decide(eq(rd['bit_offset'], ZERO)) is not True:
                return None
            o, p, s0, n = slref(I, st, rd['buf'])
            off = st.f.simp(rd['byte_offset'])
            lo, hi = self.bounds(kind)
            nm = '%s@%s%s+%s[%s]' % (kind, o, p, show(s0), show(off))
            okty = rt['variants'][0]['fields'][0][1]
            errty = rt['variants'][1]['fields'][0][1]
            e = st.clone()
            eoff = var('off!' + nm, 0, 1 << 47)
            out = []
            if e.f.ok(ge(eoff, off)) and e.f.ok(le(eoff, n)):
                setf(I, e, a[0], c.argtys[0], 'byte_offset', eoff)
                setf(I, e, a[0], c.argtys[0], 'bit_offset', var('bit!' + nm, 0, 7))
                ev = I.sym(errty, 'err:' + nm, e)
                e.ev = e.ev + (Call('elem_err', kind, off=off, obj=o),)
                out.append((e, Enum(ONE, {1: (ev,)}, c.destty)))
            size = C(lo) if lo == hi else nvar('size:' + nm, lo, hi)
            end = add(off, size)
            if st.f.ok(le(end, n)):
                val = I.sym(okty, nm, st)
                setf(I, st, a[0], c.argtys[0], 'byte_offset', st.f.simp(end))
                st.ev = st.ev + (Call('elem', kind, off=off, obj=o, size=size, val=val),)
                out.append((st, Enum(ZERO, {0: (val,)}, c.destty)))
            return out
        return h

    def mkwrite(self, kind):
        def h(I, st, a, c):
            rt = I.P.types[c.destty]
            if rt.get('adt') != 'core::result::Result' or len(a) != 2:
                return None
            w = fields(I, st, a[1], c.argtys[1])
            if w is None or not {'buf', 'offset'} <= set(w):
                return None
            val = I.deref(st, a[0])
            b = self.piece(st, kind, val)
            o, p, s0, n = slref(I, st, w['buf'])
            off = st.f.simp(w['offset'])
            okty = I.P.types[rt['variants'][0]['fields'][0][1]]
            errty = rt['variants'][1]['fields'][0][1]
            et = I.P.types[errty]
            end = st.f.simp(add(off, b.len))
            out = []
            kinds = []
            if et['kind'] == 'enum':
                full = [i for i, v in enumerate(et['variants']) if v['name'] == 'BufferFull']
                if len(full) != 1:
                    return None
                kinds = [('full', Enum(C(full[0]), {full[0]: ()}, errty))]
                rest = [i for i in range(len(et['variants'])) if i != full[0]]
                if rest:
                    kinds.append(('bad', rest))
            else:
                kinds = [('full', I.sym(errty, 'full', st))]
            for what, ev in kinds:
                e = st.clone()
                I.nelem = getattr(I, 'nelem', 0) + 1
                k = I.nelem
                if what == 'full':
                    if not e.f.ok(gt_(end, n)):
                        continue
                else:
                    d = var('bad%d#' % k, 0, max(ev))
                    if not e.f.ok(in_set(d, ev)):
                        continue
                    ev = Enum(d, {i: tuple(I.sym(f[1], 'bad%d' % k, e) for f in et['variants'][i]['fields']) for i in ev}, errty)
                    e.ev = e.ev + (Call('elem_bad', kind, val=val),)
                eoff = var('woff%d' % k, 0, 1 << 47)
                if not (e.f.ok(ge(eoff, off)) and e.f.ok(le(eoff, n))):
                    continue
                room = e.f.simp(sub(n, off))
                junk = mkbase('enc', ('ejunk', k), 'junk%d' % k, room)
                I.write(e, o, p, (e.f.simp(add(s0, off)), room), Bytes((('s', junk, ZERO, room),)))
                setf(I, e, a[1], c.argtys[1], 'offset', eoff)
                out.append((e, Enum(ONE, {1: (ev,)}, c.destty)))
            if st.f.ok(le(end, n)):
                if b.len is not ZERO:
                    I.write(st, o, p, (st.f.simp(add(s0, off)), b.len), Bytes((('s', b, ZERO, b.len),)))
                setf(I, st, a[1], c.argtys[1], 'offset', st.f.simp(end))
                r = st.f.simp(end) if okty['k'] == 'int' else Agg(())
                out.append((st, Enum(ZERO, {0: (r,)}, c.destty)))
            return out
        return h


def gt_(a, b):
    return ge(a, add(b, ONE))


def fields(I, st, ref, ty):
    """fields of the structure a reference points to"""
    t = I.P.types[ty]
    if t['k'] != 'ref' or not isinstance(ref, Ref):
        return None
    t = I.P.types[t['to']]
    v = I.deref(st, ref)
    if t['k'] != 'adt' or t['kind'] != 'struct' or not isinstance(v, Agg):
        return None
    return {f[0]: x for f, x in zip(t['variants'][0]['fields'], v.f)}


def setf(I, st, ref, ty, name, val):
    t = I.P.types[I.P.types[ty]['to']]
    v = I.deref(st, ref)
    f = list(v.f)
    f[[x[0] for x in t['variants'][0]['fields']].index(name)] = val
    I.write(st, ref.o, ref.p, ref.rg, Agg(tuple(f)))


def up4(n):
    return (n + 3) // 4 * 4


def k_opaque_element(E):
    return (4, up4(8 + E.cap('msgs::common::OpaqueElement', 'data')))


def k_opaque_data(E):
    n = E.cap('msgs::common::OpaqueData', 'elements')
    return (4, 4 + n * k_opaque_element(E)[1])


def k_block(E):
    return (7, 7 + max(E.cap('msgs::measurements::BitStream', 'buf'), E.cap('msgs::common::DigestBuf', 'buf')))


def k_blocks(E):
    return (4, 4 + E.cap('msgs::measurements::MeasurementBlocks', 'blocks') * k_block(E)[1])


KINDS = {
    'AlgorithmRequest': lambda E: (4, 64),
    'OpaqueElement': k_opaque_element,
    'OpaqueData': k_opaque_data,
    'MeasurementBlock': k_block,
    'MeasurementBlocks': k_blocks,
}


def bits(c, items, what=''):
    """a byte of bit fields [(path or None, low bit, width)]; None: not interpreted, written as zero"""
    if c.dec:
        c.room(1)
        b = c.bytes(1)[0]
        for path, lo, w in items:
            if path is None:
                continue
            t = c.st.f.simp(and_(shr(b, lo), (1 << w) - 1))
            if c.mode == 'ok':
                x = c.at(path).num()
                c.want('field', path, eq_holds(c.st, x, t), '%s is %s, the message has %s' % (path, show(x), show(t)), any_taint(x) or any_taint(t))
        return b
    r = ZERO
    for path, lo, w in items:
        if path is None:
            continue
        t = c.at(path).num()
        c.assume(le(t, C((1 << w) - 1)))
        r = add(r, mulc(t, 1 << lo))
    c.put([c.st.f.simp(r)])
    return None


# ---- descriptions -------------------------------------------------------

def get_version(c):
    c.z(2, 'param')


def version(c):
    c.z(3)
    n = c.count('num_entries', c.P.elems.cap('msgs::version::Version', 'entries'))
    for i in range(n):
        bits(c, [('entries[%d].alpha' % i, 0, 4), ('entries[%d].update' % i, 4, 4)])
        bits(c, [('entries[%d].minor' % i, 0, 4), ('entries[%d].major' % i, 4, 4)])


def capabilities(mask):
    def d(c):
        c.z(3)
        c.u('ct_exponent')
        c.z(2)
        c.flags('flags', 4, mask)
    return d


STRUCT = {'Dhe': (2, 0x3f), 'Aead': (3, 7), 'ReqBaseAsym': (4, 0x1ff), 'KeySchedule': (5, 1)}
ASYM_MASK, HASH_MASK, SPEC_MASK = 0x1ff, 0x3f, 1


def algorithm_request(c):
    name = c.variant('', {k: v[0] for k, v in STRUCT.items()}, what='algorithm type')
    if c.dec:
        c.room(1)
        b = c.bytes(1)[0]
        fixed = c.st.f.simp(shr(b, 4))
        if c.mode == 'ok':
            c.want('undef', 'fixed algorithm count', eq_holds(c.st, fixed, C(2)), 'a fixed algorithm count other than 2 is accepted', any_taint(fixed))
        else:
            c.assume(eq(fixed, C(2)))
        c.flags('@%s.supported' % name, 2, STRUCT[name][1])
        c.skip(mulc(and_(b, 15), 4))
    else:
        c.put([C(0x20)])
        c.flags('@%s.supported' % name, 2, STRUCT[name][1])


def negotiate_algorithms(c):
    n = c.count('num_algorithm_requests', c.P.elems.cap('msgs::algorithms::NegotiateAlgorithms', 'algorithm_requests'))
    c.z(1)
    c.total(2, 2, 128)
    c.flags('measurement_spec', 1, SPEC_MASK)
    c.z(1)
    c.flags('base_asym_algo', 4, ASYM_MASK)
    c.flags('base_hash_algo', 4, HASH_MASK)
    c.z(12)
    ea = c.free(0, 'ExtAsymCount')
    eh = c.free(0, 'ExtHashCount')
    c.z(2)
    if c.dec:
        c.skip(mulc(ea, 4))
        c.skip(mulc(eh, 4))
    for i in range(n):
        c.elem('AlgorithmRequest', 'algorithm_requests[%d]' % i)


def algorithms(c):
    n = c.count('num_algorithm_responses', c.P.elems.cap('msgs::algorithms::Algorithms', 'algorithm_responses'))
    c.z(1)
    c.total(2, 2)
    for path, w, m in (('measurement_spec_selected', 1, SPEC_MASK), (None, 1, 0), ('measurement_hash_algo_selected', 4, HASH_MASK),
                       ('base_asym_algo_selected', 4, ASYM_MASK), ('base_hash_algo_selected', 4, HASH_MASK)):
        if path is None:
            c.z(1)
        else:
            t = c.flags(path, w, m)
            if c.dec:
                c.onebit(t, m, path, c.rawb)
    c.z(12)
    c.z(1, 'ExtAsymSelCount')
    c.z(1, 'ExtHashSelCount')
    c.z(2)
    for i in range(n):
        k = c.k
        c.elem('AlgorithmRequest', 'algorithm_responses[%d]' % i)
        if c.dec and k < len(c.elems):
            ev = c.elems[k]
            if ev.kind == 'elem' and isinstance(ev.val, Enum):
                d = c.st.f.simp(ev.val.d)
                if d.k != 'c':
                    raise Fork([eq(d, C(v)) for v in ev.val.pl])
                t = ev.val.pl[d.a][0]
                while isinstance(t, Agg):
                    t = t.f[0]
                nm = c.I.P.types[ev.val.ty]['variants'][d.a]['name']
                c.onebit(t, STRUCT[nm][1], 'algorithm_responses[%d]' % i)


def get_digests(c):
    c.z(2, 'param')


def digests(c):
    c.z(1)
    m = c.u('slot_mask')
    n = c.P.elems.cap('msgs::digest::Digests', 'digests')
    m = c.pick(c.st.f.simp(and_(m, (1 << n) - 1)), list(range(1 << n)), 'slot_mask')
    for i in range(n):
        if m >> i & 1:
            if c.mode == 'enc':
                w = c.at('digests[%d]' % i)
                c.assume(eq(w.disc(), C(w.index('Some'))))
            c.raw('digests[%d]?' % i, c.sizes['digest_size'] if c.dec else None)
        elif c.mode == 'ok':
            w = c.at('digests[%d]' % i)
            c.want('field', 'digests[%d]' % i, w.variant() == 'None' if w.variant() else None, 'a digest of an unlisted slot appears', any_taint(w))


def get_certificate(c):
    c.u('slot')
    c.z(1)
    c.u('offset', 2)
    c.u('length', 2)


def certificate(c):
    c.u('slot')
    c.z(1)
    n = c.u('portion_length', 2, hi=c.P.elems.cap('msgs::certificates::Certificate', 'cert_chain'))
    c.u('remainder_length', 2)
    prefix(c, 'cert_chain', n)


def prefix(c, path, n):
    """the first n bytes of an array"""
    if c.dec:
        c.room(n)
        w = rslice(c.st.f, c.buf, c.cur, n)
        if c.mode == 'ok':
            x = rslice(c.st.f, c.at(path).bytes(), ZERO, n)
            c.want('field', path, ropes_same(c.st, x, w), '%s is %s, the message has %s' % (path, showrope(x), showrope(w)), any_taint(x) or any_taint(w))
    else:
        x = rslice(c.st.f, c.at(path).bytes(), ZERO, n)
        c.out = c.out + tuple(x)
    c.cur = c.st.f.simp(add(c.cur, n))


def nonce(c, path):
    """32 bytes (none in a build without random numbers)"""
    c.raw(path, c.P.nonce)


def challenge(c):
    c.u('slot')
    c.enum('measurement_hash_type', {'None': 0, 'Tcb': 1, 'All': 0xff})
    nonce(c, 'nonce')


def challenge_auth(c):
    n = c.P.slots
    b = bits(c, [('slot', 0, 4), (None, 4, 3), ('use_mutual_auth', 7, 1)])
    s = and_(b, 15) if c.dec else c.at('slot').num()
    limit(c, s, n - 1, 'slot')
    c.u('slot_mask')
    c.raw('cert_chain_hash', c.sizes['digest_size'] if c.dec else None)
    nonce(c, 'nonce')
    c.raw('measurement_summary_hash', c.sizes['digest_size'] if c.dec else None)
    opaque(c, 'opaque_data', 1024)
    c.raw('signature', c.sizes['signature_size'] if c.dec else None)


def limit(c, t, hi, what):
    if c.mode == 'ok':
        c.want('range', what, holds(c.st, le(t, C(hi))), '%s above %d is accepted' % (what, hi), any_taint(t))
    c.assume(le(t, C(hi)))


def opaque(c, path, hi):
    """length, then opaque data of exactly that length; nothing when the length is 0"""
    if not c.dec:
        x = c.at(path)
        b = c.P.elems.piece(c.st, 'OpaqueData', x.v)
        c.put([c.st.f.simp(byte(i, b.len)) for i in range(2)])
        c.assume(le(b.len, C(hi)))
        c.elem('OpaqueData', path)
        return
    c.room(2)
    n = c.st.f.simp(from_le(c.bytes(2)))
    limit(c, n, hi, path + ' length')
    z = c.st.f.decide(eq(n, ZERO))
    if z is None:
        raise Fork([eq(n, ZERO), not_(eq(n, ZERO))])
    if z:
        if c.mode == 'ok':
            x = c.at(path)
            e = x.f('total_elements').num()
            c.want('field', path, eq_holds(c.st, e, ZERO), 'opaque data appears although its length is 0', any_taint(e))
        return
    size = c.elem('OpaqueData', path)
    if c.mode == 'ok':
        c.want('field', path + ' length', holds(c.st, eq(size, n)), '%s of another length than announced is accepted' % path, any_taint(size))
    else:
        c.assume(eq(size, n))


REGISTRY = {'Dmtf': (0, 0), 'Tcg': (1, 2), 'Usb': (2, 2), 'PciSig': (3, 2), 'Iana': (4, 4), 'HDBaseT': (5, 4), 'Mipi': (6, 2), 'Cxl': (7, 2), 'Jedec': (8, 2)}
VENDOR = {0: 'Empty', 2: 'U16', 4: 'U32'}


def opaque_data(c):
    n = c.count('total_elements', c.P.elems.cap('msgs::common::OpaqueData', 'elements'))
    c.z(3)
    for i in range(n):
        c.elem('OpaqueElement', 'elements[%d]' % i)


def opaque_element(c):
    reg = c.variant('registry_id', {k: v[0] for k, v in REGISTRY.items()})
    n = REGISTRY[reg][1]
    vendor_len(c, 'vendor_id', n)
    c.k_data = c.u('data_len', 2, hi=c.P.elems.cap('msgs::common::OpaqueElement', 'data'))
    ln = c.pick(c.k_data, list(range(c.P.elems.cap('msgs::common::OpaqueElement', 'data') + 1)), 'data_len', 'range')
    prefix(c, 'data', C(ln))
    c.z(-(4 + n + ln) % 4, 'padding')


def vendor_len(c, path, n):
    """length and value of a vendor id that must be n bytes long"""
    if c.dec:
        c.room(1)
        b = c.bytes(1)[0]
        if c.mode == 'ok':
            c.want('undef', path + ' length', eq_holds(c.st, b, C(n)), 'a vendor id length that contradicts its registry is accepted', any_taint(b))
        c.assume(eq(b, C(n)))
        vendor(c, path, n)
    else:
        if c.sel(path) != VENDOR[n]:
            raise Impossible()
        c.put([C(n)])
        vendor(c, path, n)


def vendor(c, path, n):
    if c.mode == 'ok':
        w = c.at(path)
        c.want('field', path, w.variant() == VENDOR[n] if w.variant() else None, '%s is not %s' % (path, VENDOR[n]), any_taint(w.disc()))
    if n:
        c.u('%s@%s' % (path, VENDOR[n]), n)


def get_measurements(c):
    b = bits(c, [('attributes.signature_requested', 0, 1), ('attributes.raw_bit_stream_requested', 1, 1), (None, 2, 6)])
    if c.dec:
        r = c.st.f.simp(shr(b, 2))
        if c.mode == 'ok':
            c.want('zero', 'reserved attribute bits', eq_holds(c.st, r, ZERO), 'reserved attribute bits may be set', any_taint(r))
        else:
            c.assume(eq(r, ZERO))
    index(c)
    s = c.st.f.simp(and_(b, 1)) if c.dec else c.at('attributes.signature_requested').num()
    if s.k != 'c':
        raise Fork([eq(s, ZERO), eq(s, ONE)])
    w = None if c.mode == 'wf' else c.at('nonce')
    if s.a:
        if c.mode == 'ok':
            c.want('field', 'nonce', w.variant() == 'Some' if w.variant() else None, 'the nonce is lost', any_taint(w))
        elif c.mode == 'enc':
            c.assume(eq(w.disc(), C(w.index('Some'))))
        nonce(c, 'nonce?')
        c.u('slot_id', 1, hi=c.P.slots - 1)
    elif c.mode == 'ok':
        c.want('field', 'nonce', w.variant() == 'None' if w.variant() else None, 'a nonce that was not sent appears', any_taint(w))


def index(c):
    """measurement index: one byte"""
    cases = [('TotalNumberOfMeasurementsAvailable', 0, 0), ('AllMeasurements', 255, 255), ('ImplementationDefined', 1, 0xef), ('Reserved', 0xf0, 0xfc),
             ('MeasurementManifest', 0xfd, 0xfd), ('DeviceMode', 0xfe, 0xfe)]
    if c.dec:
        c.room(1)
        b = c.bytes(1)[0]
        for nm, lo, hi in cases:
            if c.st.f.decide(ge(b, C(lo))) is True and c.st.f.decide(le(b, C(hi))) is True:
                break
        else:
            raise Fork([and_(ge(b, C(lo)), 1) if lo == hi == 255 else both2(ge(b, C(lo)), le(b, C(hi))) for nm, lo, hi in cases])
        if c.mode == 'ok':
            w = c.at('index')
            c.want('field', 'index=' + nm, w.variant() == nm if w.variant() else None, 'measurement index decoded as %s, not %s' % ('/'.join(w.variants()), nm), any_taint(w.disc()))
            if w.variant() == nm and lo != hi:
                x = w.pay(nm).num()
                c.want('field', 'index', eq_holds(c.st, x, b), 'the measurement index is altered', any_taint(x))
        return
    nm = c.sel('index')
    lo, hi = [(a, b) for n, a, b in cases if n == nm][0]
    if lo == hi:
        c.put([C(lo)])
    else:
        t = c.at('index@' + nm).num()
        c.assume(ge(t, C(lo)), le(t, C(hi)))
        c.put([t])


def both2(a, b):
    return and2b(a, b)


def and2b(a, b):
    # conjunction of two truth values
    return ge(add(a, b), C(2))


VTYPES = {'ImmutableRom': 0, 'MutableFirmware': 1, 'HardwareConfig': 2, 'FirmwareConfig': 3, 'MeasurementManifest': 4, 'DeviceMode': 5,
          'MutableFirmwareVersion': 6, 'MutableFirmwareSecurityVersion': 7}
REPR = {'Digest': 0, 'RawBitStream': 1}
VALUE = {'Digest': 'Digest', 'RawBitStream': 'BitStream'}


def measurement_block(c):
    c.u('index')
    if c.dec:
        c.const(1, 'measurement specification')
        if c.mode == 'ok':
            x = c.at('measurement_spec_selected').num()
            c.want('field', 'measurement_spec_selected', eq_holds(c.st, x, ONE), 'wrong specification', any_taint(x))
    else:
        c.assume(eq(c.at('measurement_spec_selected').num(), ONE))
        c.put([ONE])
    c.room(2) if c.dec else None
    if c.dec:
        size = c.st.f.simp(from_le(c.bytes(2)))
    else:
        # filled in below
        at = len(c.out)
        c.put([ZERO, ZERO])
    begin = c.cur
    if c.dec:
        c.room(1)
        b = c.bytes(1)[0]
        r = c.variant('measurement.value_representation', REPR, term=c.st.f.simp(shr(b, 7)))
        c.variant('measurement.value_type', VTYPES, term=c.st.f.simp(and_(b, 127)))
    else:
        r = c.sel('measurement.value_representation')
        t = c.sel('measurement.value_type')
        c.put([C(REPR[r] << 7 | VTYPES[t])])
    var_ = VALUE[r]
    cap = c.P.elems.cap('msgs::common::DigestBuf' if r == 'Digest' else 'msgs::measurements::BitStream', 'buf')
    if c.dec:
        c.room(2)
        n = c.st.f.simp(from_le(c.bytes(2)))
        limit(c, n, cap, 'measurement value size')
        if c.mode == 'ok':
            w = c.at('measurement.value')
            c.want('field', 'measurement.value', w.variant() == var_ if w.variant() else None, 'measurement value decoded as %s' % '/'.join(w.variants()), any_taint(w.disc()))
        c.raw('measurement.value@%s' % var_, n)
        d = c.st.f.simp(sub(c.cur, begin))
        if c.mode == 'ok':
            c.want('range', 'measurement size', holds(c.st, eq(d, size)), 'a measurement size other than the size of the measurement is accepted', any_taint(d))
        else:
            c.assume(eq(d, size))
    else:
        if c.sel('measurement.value') != var_:
            raise Impossible()
        x = c.at('measurement.value@%s' % var_).bytes()
        n = c.st.f.simp(rlen(x))
        c.put([c.st.f.simp(byte(i, n)) for i in range(2)])
        c.out = c.out + tuple(x)
        c.cur = c.st.f.simp(add(c.cur, n))
        d = c.st.f.simp(sub(c.cur, begin))
        c.out = c.out[:at] + (('b', tuple(c.st.f.simp(byte(i, d)) for i in range(2))),) + c.out[at + 1:]


def measurement_blocks(c):
    cap = c.P.elems.cap('msgs::measurements::MeasurementBlocks', 'blocks')
    n = c.count('len', cap)
    if c.dec:
        c.room(3)
        size = c.st.f.simp(from_le(c.bytes(3)))
    else:
        at = len(c.out)
        c.put([ZERO] * 3)
    begin = c.cur
    for i in range(n):
        if c.mode == 'enc':
            w = c.at('blocks[%d]' % i)
            c.assume(eq(w.disc(), C(w.index('Some'))))
        c.elem('MeasurementBlock', 'blocks[%d]?' % i)
    d = c.st.f.simp(sub(c.cur, begin))
    if c.dec:
        if c.mode == 'ok':
            c.want('range', 'measurement record length', holds(c.st, eq(d, size)), 'a record length other than that of its blocks is accepted', any_taint(d))
        else:
            # the library stores that much
            c.assume(eq(d, size), le(size, C(c.P.elems.cap('msgs::measurements::BitStream', 'buf') * cap)))
    else:
        c.out = c.out[:at] + (('b', tuple(c.st.f.simp(byte(i, d)) for i in range(3))),) + c.out[at + 1:]


def measurements(c):
    cap = c.P.elems.cap('msgs::measurements::MeasurementBlocks', 'blocks')
    c.u('total_blocks', 1, hi=cap)
    codes = {'NotSupported': 0, 'True': 1, 'False': 2}
    if c.dec:
        c.room(1)
        b = c.bytes(1)[0]
        s = c.st.f.simp(and_(b, 15))
        limit(c, s, c.P.slots - 1, 'slot_id')
        c.variant('content_changed', codes, term=c.st.f.simp(and_(shr(b, 4), 3)))
        if c.mode == 'ok':
            x = c.at('slot_id').num()
            c.want('field', 'slot_id', eq_holds(c.st, x, s), 'slot_id is altered', any_taint(x))
        signed = c.sizes['signature_requested']
        signed = c.st.f.simp(signed)
        if signed.k != 'c':
            raise Fork([eq(signed, ZERO), eq(signed, ONE)])
        signed = bool(signed.a)
    else:
        cc = codes[c.sel('content_changed')]
        signed = c.sel('signature') == 'Some'
        s = c.at('slot_id').num()
        c.assume(le(s, C(c.P.slots - 1)))
        if not signed:
            # only used for signatures
            c.put([C(cc << 4)])
        else:
            c.put([c.st.f.simp(add(s, C(cc << 4)))])
    c.elem('MeasurementBlocks', 'blocks')
    nonce(c, 'nonce')
    opaque(c, 'opaque_data', 1024)
    w = None if c.mode == 'wf' else c.at('signature')
    if signed:
        if c.mode == 'ok':
            c.want('field', 'signature', w.variant() == 'Some' if w.variant() else None, 'the signature is lost', any_taint(w.disc()))
        c.raw('signature?', c.sizes['signature_size'] if c.dec else None)
    elif c.mode == 'ok':
        c.want('field', 'signature', w.variant() == 'None' if w.variant() else None, 'a signature that was not sent appears', any_taint(w.disc()))


ERRORS = {'InvalidRequest': 1, 'Busy': 3, 'UnexpectedRequest': 4, 'Unspecified': 5, 'DecryptError': 6, 'UnsupportedRequest': 7, 'RequestInFlight': 8,
          'InvalidResponseCode': 9, 'SessionLimitExceeded': 10, 'SessionRequired': 11, 'ResetRequired': 12, 'ResponseTooLarge': 13, 'RequestTooLarge': 14,
          'LargeResponse': 15, 'MessageLost': 16, 'VersionMismatch': 0x41, 'ResponseNotReady': 0x42, 'RequestResynch': 0x43, 'VendorDefined': 0xff}


def error(c):
    name = c.variant('', ERRORS, what='error code')
    if name == 'UnsupportedRequest':
        c.u('@UnsupportedRequest')
    elif name == 'VendorDefined':
        reg = c.variant('@VendorDefined', {k: v[0] for k, v in REGISTRY.items()}, what='vendor registry')
        if c.dec:
            c.room(1)
            b = c.bytes(1)[0]
            n = c.pick(b, [0, 2, 4], 'vendor id length')
            vendor(c, '@VendorDefined#1.vendor_id', n)
            if c.mode == 'ok':
                return
            # any opaque data may follow
            c.cur = c.st.f.simp(rlen(c.buf))
        else:
            n = {v: k for k, v in VENDOR.items()}[c.sel('@VendorDefined#1.vendor_id')]
            c.put([C(n)])
            vendor(c, '@VendorDefined#1.vendor_id', n)
            prefix(c, '@VendorDefined#1.opaque_error_data', c.at('@VendorDefined#1.opaque_len').num())
    else:
        c.free(0, 'error data')
        if name == 'ResponseTooLarge':
            c.u('@ResponseTooLarge', 4)
        elif name == 'LargeResponse':
            c.u('@LargeResponse')
        elif name == 'ResponseNotReady':
            for f in ('rdt_exponent', 'request_code', 'token', 'rdtm'):
                c.u('@ResponseNotReady.' + f)


# message -> (version byte, code byte, description)
MESSAGES = {
    'GetVersion': (0x10, 0x84, get_version),
    'Version': (0x10, 0x04, version),
    'GetCapabilities': (0x11, 0xE1, capabilities(0x1ffc6)),
    'Capabilities': (0x11, 0x61, capabilities(0x1ffff)),
    'NegotiateAlgorithms': (0x11, 0xE3, negotiate_algorithms),
    'Algorithms': (0x11, 0x63, algorithms),
    'GetDigests': (0x11, 0x81, get_digests),
    'Digests': (0x11, 0x01, digests),
    'GetCertificate': (0x11, 0x82, get_certificate),
    'Certificate': (0x11, 0x02, certificate),
    'Challenge': (0x11, 0x83, challenge),
    'ChallengeAuth': (0x11, 0x03, challenge_auth),
    'GetMeasurements': (0x12, 0xE0, get_measurements),
    'Measurements': (0x12, 0x60, measurements),
    'Error': (0x12, 0x7F, error),
}
ELEMENTS = {
    'AlgorithmRequest': algorithm_request,
    'OpaqueElement': opaque_element,
    'OpaqueData': opaque_data,
    'MeasurementBlock': measurement_block,
    'MeasurementBlocks': measurement_blocks,
}
