"""Models of library operations the interpreter does not follow into their bodies."""
from interp import *

PANICS = ('core::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
          'core::slice::index::slice_', 'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::str::slice_error_fail',
          'core::cell::panic_', 'core::slice::<impl [T]>::copy_from_slice::len_mismatch', 'core::num::int_log10::panic',
          'core::array::iter::panic')


def need(c, why):
    if not c:
        raise Give(why)


def slref(I, st, r):
    """(object, path, start, len) of a slice or array reference"""
    need(isinstance(r, Ref), 'slice operand %r' % (r,))
    if r.rg is not None:
        return r.o, r.p, st.f.simp(r.rg[0]), st.f.simp(r.rg[1])
    v = I.deref(st, r)
    if isinstance(v, Bytes):
        return r.o, r.p, ZERO, st.f.simp(rlen(v.r))
    if isinstance(v, Arr):
        return r.o, r.p, ZERO, C(len(v.e))
    if isinstance(v, Ref):
        return slref(I, st, v)
    raise Give('slice operand %r' % (v,))


def bytes_of(I, st, v):
    """the bytes of an impl AsRef<[u8]> value"""
    n = 0
    while isinstance(v, Ref):
        v = I.deref(st, v)
        n += 1
        need(n < 6, 'as_ref')
    if isinstance(v, Agg):
        # wrapper with a length: not known here
        raise Give('bytes of a structure')
    need(isinstance(v, Bytes), 'bytes of %r' % type(v).__name__)
    return rnorm(v.r, st.f)


def opt(I, c, v=None):
    ty = c.destty
    if v is None:
        return Enum(ZERO, {0: ()}, ty)
    return Enum(ONE, {1: (v,)}, ty)


def m_len(I, st, a, c):
    return [(st, slref(I, st, a[0])[3])]


def m_is_empty(I, st, a, c):
    return [(st, st.f.simp(eq(slref(I, st, a[0])[3], ZERO)))]


def fails(I, st, cond, kind):
    """report when cond may be true; the remaining state has cond false (None if none)"""
    I.note_site(kind)
    r = st.f.decide(cond)
    if r is False:
        return st
    if r is True:
        I.panic(st, kind, cond)
        return None
    s2 = st.clone()
    if s2.f.ok(cond):
        I.panic(s2, kind, cond)
    if st.f.ok(cond, False):
        return st
    return None


def rng_bounds(I, st, kind, rv, n):
    if kind == 'Range':
        return rv.f[0], rv.f[1]
    if kind == 'RangeTo':
        return ZERO, rv.f[0]
    if kind == 'RangeFrom':
        return rv.f[0], n
    if kind == 'RangeFull':
        return ZERO, n
    if kind == 'RangeInclusive':
        return rv.f[0], add(rv.f[1], ONE)
    if kind == 'RangeToInclusive':
        return ZERO, add(rv.f[0], ONE)
    raise Give('range kind ' + kind)


def m_index(kind, get):
    def f(I, st, a, c):
        o, p, s, n = slref(I, st, a[1])
        if kind == 'usize':
            i = st.f.simp(a[0])
            if get:
                r = st.f.decide(lt(i, n))
                if r is None:
                    raise Split([lt(i, n), le(n, i)], 'get')
                if not r:
                    return [(st, opt(I, c))]
                return [(st, opt(I, c, Ref(o, p + (('i', st.f.simp(add(s, i))),))))]
            st = fails(I, st, le(n, i), 'BoundsCheck')
            if st is None:
                return []
            return [(st, Ref(o, p + (('i', st.f.simp(add(s, i))),)))]
        lo, hi = rng_bounds(I, st, kind, a[0], n)
        lo, hi = st.f.simp(lo), st.f.simp(hi)
        if get:
            for cnd in (le(lo, hi), le(hi, n)):
                r = st.f.decide(cnd)
                if r is None:
                    raise Split([cnd, not_(cnd)], 'get range')
                if not r:
                    return [(st, opt(I, c))]
            return [(st, opt(I, c, Ref(o, p, (st.f.simp(add(s, lo)), st.f.simp(sub(hi, lo))))))]
        st = fails(I, st, lt(hi, lo), 'slice index start > end')
        if st is None:
            return []
        st = fails(I, st, lt(n, hi), 'slice index end > len')
        if st is None:
            return []
        return [(st, Ref(o, p, (st.f.simp(add(s, lo)), st.f.simp(sub(hi, lo)))))]
    return f


def m_copy_from_slice(I, st, a, c):
    o, p, s, n = slref(I, st, a[0])
    o2, p2, s2, n2 = slref(I, st, a[1])
    st = fails(I, st, not_(eq(n, n2)), 'copy_from_slice length')
    if st is None:
        return []
    v = I.read(st, o2, p2, (s2, n2))
    if isinstance(v, Bytes):
        v = Bytes(rnorm(v.r, st.f))
    I.write(st, o, p, (s, st.f.simp(n)), v)
    return [(st, Agg(()))]


def m_fill(I, st, a, c):
    o, p, s, n = slref(I, st, a[0])
    need(isinstance(a[1], T), 'fill')
    I.write(st, o, p, (s, n), Bytes((('f', a[1], n),)))
    return [(st, Agg(()))]


def m_split_at(I, st, a, c):
    o, p, s, n = slref(I, st, a[0])
    mid = st.f.simp(a[1])
    st = fails(I, st, lt(n, mid), 'split_at')
    if st is None:
        return []
    return [(st, Agg((Ref(o, p, (s, mid)), Ref(o, p, (st.f.simp(add(s, mid)), st.f.simp(sub(n, mid)))))))]


def m_split_at_checked(I, st, a, c):
    o, p, s, n = slref(I, st, a[0])
    mid = st.f.simp(a[1])
    r = st.f.decide(le(mid, n))
    if r is None:
        raise Split([le(mid, n), lt(n, mid)], 'split_at')
    if not r:
        return [(st, opt(I, c))]
    return [(st, opt(I, c, Agg((Ref(o, p, (s, mid)), Ref(o, p, (st.f.simp(add(s, mid)), st.f.simp(sub(n, mid))))))))]


def m_first(last):
    def f(I, st, a, c):
        o, p, s, n = slref(I, st, a[0])
        r = st.f.decide(eq(n, ZERO))
        if r is None:
            raise Split([eq(n, ZERO), ge(n, ONE)], 'first')
        if r:
            return [(st, opt(I, c))]
        i = st.f.simp(sub(add(s, n), ONE)) if last else s
        return [(st, opt(I, c, Ref(o, p + (('i', i),))))]
    return f


def m_starts(end, strip=False):
    def f(I, st, a, c):
        x, y = I.deref(st, a[0]), I.deref(st, a[1])
        need(isinstance(x, Bytes) and isinstance(y, Bytes), 'starts_with')
        n, m = st.f.simp(rlen(x.r)), st.f.simp(rlen(y.r))
        r = st.f.decide(le(m, n))
        if r is None:
            raise Split([le(m, n), lt(n, m)], 'starts_with')
        if not r:
            return [(st, opt(I, c) if strip else ZERO)]
        b = st.f.simp(bytes_eq(I, st, rslice(st.f, x.r, sub(n, m) if end else ZERO, m), y.r))
        if not strip:
            return [(st, b)]
        if b.k != 'c':
            raise Split([b, not_(b)], 'strip')
        if b is ZERO:
            return [(st, opt(I, c))]
        o, p, s, _ = slref(I, st, a[0])
        return [(st, opt(I, c, Ref(o, p, (s if end else st.f.simp(add(s, m)), st.f.simp(sub(n, m))))))]
    return f


def m_split_first(last):
    def f(I, st, a, c):
        o, p, s, n = slref(I, st, a[0])
        r = st.f.decide(eq(n, ZERO))
        if r is None:
            raise Split([eq(n, ZERO), ge(n, ONE)], 'split_first')
        if r:
            return [(st, opt(I, c))]
        n1 = st.f.simp(sub(n, ONE))
        i = st.f.simp(add(s, n1)) if last else s
        return [(st, opt(I, c, Agg((Ref(o, p + (('i', i),)), Ref(o, p, (s if last else st.f.simp(add(s, ONE)), n1))))))]
    return f


def m_swap(I, st, a, c):
    o, p, s, n = slref(I, st, a[0])
    for i in (a[1], a[2]):
        st = fails(I, st, le(n, i), 'BoundsCheck')
        if st is None:
            return []
    x = I.read(st, o, p + (('i', st.f.simp(add(s, a[1]))),))
    y = I.read(st, o, p + (('i', st.f.simp(add(s, a[2]))),))
    I.write(st, o, p + (('i', st.f.simp(add(s, a[1]))),), None, y)
    I.write(st, o, p + (('i', st.f.simp(add(s, a[2]))),), None, x)
    return [(st, Agg(()))]


def m_iter(kind):
    def f(I, st, a, c):
        o, p, s, n = slref(I, st, a[0])
        k = None
        if kind in ('chunks', 'chunks_exact', 'windows'):
            k = st.f.simp(a[1])
            need(k.k == 'c' and k.a > 0, 'chunk size')
            k = k.a
        return [(st, It(kind, Ref(o, p, (s, n)), k))]
    return f


def it_next(I, st, it, back=False):
    """(iterator after, item or None); raises Split"""
    need(isinstance(it, It) and isinstance(it.ref, Ref), 'iterator value %r' % (it,))
    o, p = it.ref.o, it.ref.p
    s, n = st.f.simp(it.ref.rg[0]), st.f.simp(it.ref.rg[1])
    k = it.n or 1
    if it.kind in ('iter', 'iter_mut', 'chunks'):
        e = st.f.decide(eq(n, ZERO))
        if e is None:
            raise Split([eq(n, ZERO), ge(n, ONE)], 'iterator end')
        if e:
            return it, None
        if it.kind == 'chunks':
            full = st.f.decide(ge(n, C(k)))
            if full is None:
                raise Split([ge(n, C(k)), lt(n, C(k))], 'chunk')
            l = C(k) if full else n
            need(not back, 'chunks back')
            return It(it.kind, Ref(o, p, (st.f.simp(add(s, l)), st.f.simp(sub(n, l)))), it.n), Ref(o, p, (s, l))
        if back:
            return It(it.kind, Ref(o, p, (s, st.f.simp(sub(n, ONE)))), it.n), Ref(o, p + (('i', st.f.simp(sub(add(s, n), ONE))),))
        return It(it.kind, Ref(o, p, (st.f.simp(add(s, ONE)), st.f.simp(sub(n, ONE)))), it.n), Ref(o, p + (('i', s),))
    need(not back, 'back')
    e = st.f.decide(ge(n, C(k)))
    if e is None:
        raise Split([ge(n, C(k)), lt(n, C(k))], 'iterator end')
    if not e:
        return it, None
    step = k if it.kind == 'chunks_exact' else 1
    return It(it.kind, Ref(o, p, (st.f.simp(add(s, C(step))), st.f.simp(sub(n, C(step))))), it.n), Ref(o, p, (s, C(k)))


def m_next(back=False):
    def f(I, st, a, c):
        r = a[0]
        it = I.deref(st, r)
        nx, item = it_next(I, st, it, back)
        if item is None:
            return [(st, opt(I, c))]
        I.write(st, r.o, r.p, r.rg, nx)
        return [(st, opt(I, c, item))]
    return f


def each(I, st, it, step, acc, limit=4096, back=False):
    """drive an iterator; step(st, acc, item) -> [(st, acc, stop?)]; returns [(st, it, acc, stopped)]"""
    out = []
    work = [(st, it, acc, 0)]
    while work:
        st, it, acc, n = work.pop()
        if n > limit:
            raise Abort('iterator does not end')
        try:
            nx, item = it_next(I, st, it, back)
        except Split as e:
            for cnd in e.conds:
                s2 = st.clone()
                if s2.f.ok(cnd):
                    if s2.f.decide(cnd) is None:
                        raise Give('end of the iterator')
                    work.append((s2, it, acc, n))
            continue
        if item is None:
            out.append((st, it, acc, False))
            continue
        for s2, a2, stop in retry(I, st, lambda s: step(s, acc, item)):
            if stop:
                out.append((s2, nx, a2, True))
            else:
                work.append((s2, nx, a2, n + 1))
    return out


def retry(I, st, f):
    out = []
    work = [st]
    while work:
        s = work.pop()
        try:
            out.extend(f(s.clone()))
        except Split as e:
            for cnd in e.conds:
                s2 = s.clone()
                if s2.f.ok(cnd):
                    if s2.f.decide(cnd) is None:
                        raise Give('case distinction without effect')
                    work.append(s2)
        except Contra:
            pass
    return out


def itarg(I, st, a0):
    """the iterator behind `self` or `&mut self`"""
    if isinstance(a0, Ref):
        return I.deref(st, a0), a0
    return a0, None


def iter_fold(I, st, a, c):
    it, ref = itarg(I, st, a[0])
    need(isinstance(it, It), 'fold')
    call = I.cell(st, a[2], c.argtys[2], c.d)

    def step(s, acc, item):
        return [(s2, v, False) for s2, v in call(s, [acc, item], c.destty, c.d)]
    return [(s, acc) for s, _, acc, _ in each(I, st, it, step, a[1])]


def iter_for_each(I, st, a, c):
    it, ref = itarg(I, st, a[0])
    need(isinstance(it, It), 'for_each')
    call = I.cell(st, a[1], c.argtys[1], c.d)

    def step(s, acc, item):
        return [(s2, acc, False) for s2, v in call(s, [item], c.destty, c.d)]
    return [(s, Agg(())) for s, _, acc, _ in each(I, st, it, step, None)]


def branch(I, st, v):
    """decide a boolean result: [(state, bool)]"""
    r = st.f.decide(v)
    if r is not None:
        return [(st, r)]
    out = []
    s2 = st.clone()
    if s2.f.ok(v):
        out.append((s2, True))
    if st.f.ok(v, False):
        out.append((st, False))
    return out


def iter_search(kind):
    def f(I, st, a, c):
        it, ref = itarg(I, st, a[0])
        need(isinstance(it, It), kind)
        call = I.cell(st, a[1], c.argtys[1], c.d)

        def step(s, acc, item):
            out = []
            arg = item
            if kind == 'find':
                I.heap_n += 1
                key = (c.d, 'it%d' % I.heap_n)
                s.o[key] = item
                arg = Ref(key)
            for s2, v in call(s, [arg], c.destty, c.d):
                if kind == 'find_map':
                    need(isinstance(v, Enum), 'find_map')
                    for s3, b in branch(I, s2, eq(s2.f.simp(v.d), ONE)):
                        out.append((s3, v if b else acc, b))
                    continue
                for s3, b in branch(I, s2, v):
                    if kind == 'position':
                        out.append((s3, acc if b else add(acc, ONE), b))
                    elif kind == 'any':
                        out.append((s3, acc, b))
                    elif kind == 'all':
                        out.append((s3, acc, not b))
                    elif kind == 'find':
                        out.append((s3, item if b else acc, b))
            return out
        res = []
        init = ZERO if kind == 'position' else None
        for s, nx, acc, stopped in each(I, st, it, step, init):
            if ref is not None:
                I.write(s, ref.o, ref.p, ref.rg, nx)
            if kind == 'position':
                res.append((s, opt(I, c, acc) if stopped else opt(I, c)))
            elif kind == 'any':
                res.append((s, ONE if stopped else ZERO))
            elif kind == 'all':
                res.append((s, ZERO if stopped else ONE))
            elif kind == 'find':
                res.append((s, opt(I, c, acc) if stopped else opt(I, c)))
            elif kind == 'find_map':
                res.append((s, acc if stopped else opt(I, c)))
        return res
    return f


def iter_count(I, st, a, c):
    it, ref = itarg(I, st, a[0])
    need(isinstance(it, It) and it.kind in ('iter', 'iter_mut'), 'count')
    return [(st, st.f.simp(it.ref.rg[1]))]


def iter_len(I, st, a, c):
    it, ref = itarg(I, st, a[0])
    need(isinstance(it, It), 'len')
    n = st.f.simp(it.ref.rg[1])
    if it.kind in ('iter', 'iter_mut'):
        return [(st, n)]
    if it.kind == 'chunks_exact':
        return [(st, div(n, it.n))]
    raise Give('iterator len')


def iter_size_hint(I, st, a, c):
    [(st, n)] = iter_len(I, st, a, c)
    t = I.P.types[c.destty]
    return [(st, Agg((n, Enum(ONE, {1: (n,)}, t['fields'][1]))))]


def iter_nth(back=False):
    def f(I, st, a, c):
        it, ref = itarg(I, st, a[0])
        need(isinstance(it, It) and it.kind in ('iter', 'iter_mut') and ref is not None, 'nth')
        s, n = st.f.simp(it.ref.rg[0]), st.f.simp(it.ref.rg[1])
        k = st.f.simp(a[1])
        d = st.f.decide(lt(k, n))
        if d is None:
            raise Split([lt(k, n), le(n, k)], 'nth')
        o, p = it.ref.o, it.ref.p
        if not d:
            I.write(st, ref.o, ref.p, ref.rg, It(it.kind, Ref(o, p, (s if back else add(s, n), ZERO)), it.n))
            return [(st, opt(I, c))]
        left = st.f.simp(sub(sub(n, k), ONE))
        I.write(st, ref.o, ref.p, ref.rg, It(it.kind, Ref(o, p, (s if back else st.f.simp(add(add(s, k), ONE)), left)), it.n))
        at = add(s, left) if back else add(s, k)
        return [(st, opt(I, c, Ref(o, p + (('i', st.f.simp(at)),))))]
    return f


def iter_advance(back=False):
    def f(I, st, a, c):
        it, ref = itarg(I, st, a[0])
        need(isinstance(it, It) and it.kind in ('iter', 'iter_mut') and ref is not None, 'advance_by')
        s, n = st.f.simp(it.ref.rg[0]), st.f.simp(it.ref.rg[1])
        k = st.f.simp(a[1])
        d = st.f.decide(le(k, n))
        if d is None:
            raise Split([le(k, n), lt(n, k)], 'advance')
        m = k if d else n
        I.write(st, ref.o, ref.p, ref.rg, It(it.kind, Ref(it.ref.o, it.ref.p, (s if back else st.f.simp(add(s, m)), st.f.simp(sub(n, m)))), it.n))
        t = I.P.types[c.destty]
        if d:
            return [(st, Enum(ZERO, {0: (Agg(()),)}, c.destty))]
        left = st.f.simp(sub(k, n))
        ft = t['variants'][1]['fields'][0][1]
        v = left
        while I.P.types[ft]['k'] == 'adt':      # NonZero<usize>
            ft = I.P.types[ft]['variants'][0]['fields'][0][1]
            v = Agg((v,))
        return [(st, Enum(ONE, {1: (v,)}, c.destty))]
    return f


def iter_last(I, st, a, c):
    it, ref = itarg(I, st, a[0])
    need(isinstance(it, It) and it.kind in ('iter', 'iter_mut'), 'last')
    _, item = it_next(I, st, it, True)
    return [(st, opt(I, c) if item is None else opt(I, c, item))]


def iter_rposition(I, st, a, c):
    it, ref = itarg(I, st, a[0])
    need(isinstance(it, It) and it.kind in ('iter', 'iter_mut'), 'rposition')
    call = I.cell(st, a[1], c.argtys[1], c.d)
    n = st.f.simp(it.ref.rg[1])

    def step(s, acc, item):
        out = []
        acc = s.f.simp(sub(acc, ONE))
        for s2, v in call(s, [item], c.destty, c.d):
            for s3, b in branch(I, s2, v):
                out.append((s3, acc, b))
        return out
    res = []
    for s, nx, acc, stopped in each(I, st, it, step, n, back=True):
        if ref is not None:
            I.write(s, ref.o, ref.p, ref.rg, nx)
        res.append((s, opt(I, c, acc) if stopped else opt(I, c)))
    return res


def iter_get_unchecked(I, st, a, c):
    it = I.deref(st, a[0])
    need(isinstance(it, It) and it.kind in ('iter', 'iter_mut'), 'get_unchecked')
    return [(st, Ref(it.ref.o, it.ref.p + (('i', st.f.simp(add(it.ref.rg[0], a[1]))),)))]


def m_range_next(I, st, a, c):
    r = a[0]
    v = I.deref(st, r)
    need(isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], T), 'range')
    s, e = st.f.simp(v.f[0]), st.f.simp(v.f[1])
    d = st.f.decide(lt(s, e))
    if d is None:
        raise Split([lt(s, e), le(e, s)], 'range end')
    if not d:
        return [(st, opt(I, c))]
    I.write(st, r.o, r.p + (('f', 0),), None, st.f.simp(add(s, ONE)))
    return [(st, opt(I, c, s))]


def m_range_next_back(I, st, a, c):
    r = a[0]
    v = I.deref(st, r)
    need(isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], T), 'range')
    s, e = st.f.simp(v.f[0]), st.f.simp(v.f[1])
    d = st.f.decide(lt(s, e))
    if d is None:
        raise Split([lt(s, e), le(e, s)], 'range end')
    if not d:
        return [(st, opt(I, c))]
    e = st.f.simp(sub(e, ONE))
    I.write(st, r.o, r.p + (('f', 1),), None, e)
    return [(st, opt(I, c, e))]


def m_rangeincl_next(I, st, a, c):
    r = a[0]
    v = I.deref(st, r)
    need(isinstance(v, Agg) and len(v.f) == 3 and isinstance(v.f[0], T), 'range inclusive')
    s, e, ex = st.f.simp(v.f[0]), st.f.simp(v.f[1]), st.f.simp(v.f[2])
    x = st.f.decide(ex)
    if x is None:
        raise Split([ex, not_(ex)], 'range end')
    if x:
        return [(st, opt(I, c))]
    d = st.f.decide(lt(s, e))
    if d is None:
        raise Split([lt(s, e), le(e, s)], 'range end')
    if d:
        I.write(st, r.o, r.p + (('f', 0),), None, st.f.simp(add(s, ONE)))
        return [(st, opt(I, c, s))]
    q = st.f.decide(eq(s, e))
    if q is None:
        raise Split([eq(s, e), lt(e, s)], 'range end')
    if not q:
        return [(st, opt(I, c))]
    I.write(st, r.o, r.p + (('f', 2),), None, ONE)
    return [(st, opt(I, c, s))]


def bytes_eq(I, st, x, y):
    """boolean term: two ropes are equal"""
    r = req_(st.f, x, y)
    if r is True:
        return ONE
    if r is False:
        return ZERO
    x, y = rnorm(x, st.f), rnorm(y, st.f)
    lx, ly = rlen(x), rlen(y)
    le_ = st.f.decide(eq(lx, ly))
    if le_ is None:
        raise Split([eq(lx, ly), not_(eq(lx, ly))], 'length')
    if le_ is False:
        return ZERO
    # explicit bytes: conjunction
    n = st.f.simp(lx)
    if n.k == 'c' and n.a <= 16:
        xs = [rget(st.f, x, C(i)) for i in range(n.a)]
        ys = [rget(st.f, y, C(i)) for i in range(n.a)]
        if n.a == 1:
            return eq(xs[0], ys[0])
        # compare as one integer
        return eq(from_le(xs), from_le(ys))
    if (x, y) > (y, x) if False else hash_order(y, x):
        x, y = y, x
    return mk('o', ('ropeeq', x, y), 0, 1)


def hash_order(x, y):
    return rope_id(x) < rope_id(y)


def rope_id(r):
    return tuple(tuple((z.id if isinstance(z, (T, Base)) else tuple(w.id for w in z) if isinstance(z, tuple) else z) for z in p) for p in r)


def both(I, st, a):
    out = []
    for v in a[:2]:
        n = 0
        while isinstance(v, Ref):
            v = I.deref(st, v)
            n += 1
            need(n < 6, 'eq')
        out.append(v)
    return out


def m_bytes_eq(neg):
    def f(I, st, a, c):
        x, y = both(I, st, a)
        if isinstance(x, Bytes) and isinstance(y, Bytes):
            r = st.f.simp(bytes_eq(I, st, x.r, y.r))
            return [(st, not_(r) if neg else r)]
        return None
    return f


def m_ident(I, st, a, c):
    return [(st, a[0])]


def m_unit(I, st, a, c):
    return [(st, Agg(()))]


def m_array_try_from(I, st, a, c):
    """TryFrom<&[T]> for [T; N]"""
    ty = I.P.types[c.destty]
    okty = ty['variants'][0]['fields'][0][1]
    t = I.P.types[okty]
    byref = t['k'] == 'ref'
    if byref:
        t = I.P.types[t['to']]
    need(t['k'] == 'array', 'try_from')
    N = t['len']
    o, p, s, n = slref(I, st, a[0])
    r = st.f.decide(eq(n, C(N)))
    if r is None:
        raise Split([eq(n, C(N)), not_(eq(n, C(N)))], 'array length')
    if not r:
        ety = ty['variants'][1]['fields'][0][1]
        return [(st, Enum(ONE, {1: (I.zst(ety),)}, c.destty))]
    if byref:
        return [(st, Enum(ZERO, {0: (Ref(o, p, (s, C(N))),)}, c.destty))]
    v = I.read(st, o, p, (s, C(N)))
    if isinstance(v, Bytes):
        v = Bytes(rnorm(v.r, st.f))
    return [(st, Enum(ZERO, {0: (v,)}, c.destty))]


def m_array_clone(I, st, a, c):
    v = a[0]
    n = 0
    while isinstance(v, Ref):
        v = I.deref(st, v)
        n += 1
        need(n < 4, 'clone')
    if isinstance(v, Bytes):
        return [(st, Bytes(rnorm(v.r, st.f)))]
    return None


def m_try_from_fn(I, st, a, c):
    t = I.P.types[c.destty]
    # NeverShortCircuit<[T; N]> or [T; N]
    wrap = 0
    while t['k'] == 'adt' and t['kind'] == 'struct':
        t = I.P.types[t['variants'][0]['fields'][0][1]]
        wrap += 1
    need(t['k'] == 'array' and wrap <= 1, 'try_from_fn')
    N = t['len']
    fty = c.argtys[0]
    I.heap_n += 1
    key = (c.d, 'fn%d' % I.heap_n)
    st.o[key] = a[0]
    cl = I.P.types[fty]
    work = [(st, [])]
    for i in range(N):
        nxt = []
        for s, acc in work:
            if cl['k'] == 'closure':
                res = I.call_closure(s, Ref(key), fty, [C(i)], c.d, byref=True)
            else:
                res = I.call_value(s, a[0], fty, [C(i)], c.destty, c.d)
            for s2, v in res:
                if wrap:
                    v = v.f[0]
                nxt.append((s2, acc + [v]))
        work = nxt
    out = []
    for s, acc in work:
        if I.P.is_u8(t['elem']):
            v = Bytes((('b', tuple(acc)),) if acc else ())
        else:
            v = Arr(tuple(acc))
        out.append((s, Agg((v,)) if wrap else v))
    return out


def m_array_eq(neg):
    def f(I, st, a, c):
        x, y = both(I, st, a)
        if isinstance(x, Bytes) and isinstance(y, Bytes):
            r = st.f.simp(bytes_eq(I, st, x.r, y.r))
            return [(st, not_(r) if neg else r)]
        return None
    return f


def i_ctpop(I, st, a, c):
    return [(st, st.f.simp(popc(a[0])))]


def i_cttz(I, st, a, c):
    bits = I.P.bits(c.targs[0])[0] if c.targs else 64
    return [(st, st.f.simp(ctz(a[0], bits)))]


def i_ctlz(I, st, a, c):
    bits = I.P.bits(c.targs[0])[0] if c.targs else 64
    v = a[0]
    if v.k == 'c':
        return [(st, C(bits - v.a.bit_length()))]
    need(v.lo >= 0, 'leading zeros')
    lo, hi = st.f.rng(v)
    if lo > 0 and int(lo).bit_length() == int(hi).bit_length():
        return [(st, C(bits - int(hi).bit_length()))]
    # from the top: the first bit that is set
    p = P(v)
    for k in reversed(range(min(bits, int(hi).bit_length()))):
        if p >> k & 1:
            z = eq(st.f.simp(and_(v, 1 << k)), ZERO)
            d = st.f.decide(z)
            if d is None:
                raise Split([not_(z), z], 'leading zeros')
            if d is False:
                return [(st, C(bits - 1 - k))]
    return [(st, C(bits))]


def i_bswap(I, st, a, c):
    bits = I.P.bits(c.targs[0])[0]
    n = bits // 8
    v = a[0]
    return [(st, st.f.simp(from_le([byte(n - 1 - i, v) for i in range(n)])))]


def i_sat(op):
    def f(I, st, a, c):
        bits, s = I.P.bits(c.targs[0])
        need(not s, 'signed saturating')
        r = add(a[0], a[1]) if op == 'add' else sub(a[0], a[1])
        r = st.f.simp(r)
        cnd = ge(r, ZERO) if op == 'sub' else le(r, C((1 << bits) - 1))
        d = st.f.decide(cnd)
        if d is None:
            raise Split([cnd, not_(cnd)], 'saturating')
        return [(st, r if d else (ZERO if op == 'sub' else C((1 << bits) - 1)))]
    return f


def i_minmax(lo):
    def f(I, st, a, c):
        x, y = a
        need(isinstance(x, T) and isinstance(y, T), 'minimum')
        d = st.f.decide(le(x, y))
        if d is None:
            raise Split([le(x, y), lt(y, x)], 'minimum')
        return [(st, x if d == lo else y)]
    return f


def i_select(I, st, a, c):
    d = st.f.decide(a[0])
    if d is None:
        raise Split([a[0], not_(a[0])], 'select')
    return [(st, a[1] if d else a[2])]


def i_raw_eq(I, st, a, c):
    return m_bytes_eq(False)(I, st, a, c)


def i_compare_bytes(I, st, a, c):
    raise Give('compare_bytes')


def panic_model(I, st, a, c):
    p = c.callee.get('rpath') or c.callee['path']
    kind = p.split('::')[-1]
    if 'unwrap_failed' in p or 'expect_failed' in p:
        kind = p.replace('core::', '')
    I.note_site(kind)
    I.panic(st, kind)
    return []


# -------------------------------------------------------- hashing and randomness

def adt_of(I, ty):
    t = I.P.types[ty]
    while t['k'] in ('ref', 'ptr'):
        t = I.P.types[t['to']]
    return t


def d_new(I, st, a, c):
    t = I.P.types[c.destty]
    return [(st, Opq('hasher', (t['name'], ())))]


def d_update(I, st, a, c):
    h = I.deref(st, a[0])
    need(isinstance(h, Opq) and h.k == 'hasher', 'hasher')
    r = bytes_of(I, st, a[1])
    I.write(st, a[0].o, a[0].p, a[0].rg, Opq('hasher', (h.v[0], rnorm(h.v[1] + r, st.f))))
    return [(st, Agg(()))]


def hash_base(name, rope, n):
    key = (name, rope)
    b = mkbase('hash', key, 'H<%s>(%s)' % (name.split('::')[-1], showrope(rope)[:60]), C(n))
    return b


def d_finalize(I, st, a, c):
    h = a[0]
    need(isinstance(h, Opq) and h.k == 'hasher', 'hasher')
    size = I.P.types[c.destty].get('size')
    need(size is not None, 'digest size')
    b = hash_base(h.v[0], rnorm(h.v[1], st.f), size)
    return [(st, Bytes((('s', b, ZERO, C(size)),)))]


def d_oneshot(I, st, a, c):
    # <D as Digest>::digest(data)
    name = I.P.types[c.targs[0]]['name']
    size = I.P.types[c.destty].get('size')
    b = hash_base(name, bytes_of(I, st, a[0]), size)
    return [(st, Bytes((('s', b, ZERO, C(size)),)))]


def ga_as_slice(I, st, a, c):
    o, p, s, n = slref(I, st, a[0])
    return [(st, Ref(o, p, (s, n)))]


_rnd = [0]


def fill_bytes(I, st, a, c):
    o, p, s, n = slref(I, st, a[1])
    _rnd[0] += 1
    b = mkbase('rand', _rnd[0], 'rand#%d' % _rnd[0], n)
    I.write(st, o, p, (s, n), Bytes((('s', b, ZERO, n),)))
    st.ev = st.ev + (('rand', b),)
    return [(st, Agg(()))]


EXACT = {
    'core::slice::<impl [T]>::len': m_len,
    'core::slice::<impl [T]>::is_empty': m_is_empty,
    'core::str::<impl str>::len': m_len,
    'core::str::<impl str>::is_empty': m_is_empty,
    'core::str::<impl str>::as_bytes': m_ident,
    'core::slice::<impl [T]>::copy_from_slice': m_copy_from_slice,
    'core::slice::<impl [T]>::clone_from_slice': m_copy_from_slice,
    'core::slice::<impl [T]>::fill': m_fill,
    'core::slice::<impl [T]>::split_at': m_split_at,
    'core::slice::<impl [T]>::split_at_mut': m_split_at,
    'core::slice::<impl [T]>::split_at_checked': m_split_at_checked,
    'core::slice::<impl [T]>::split_at_mut_checked': m_split_at_checked,
    'core::slice::<impl [T]>::first': m_first(False),
    'core::slice::<impl [T]>::first_mut': m_first(False),
    'core::slice::<impl [T]>::last': m_first(True),
    'core::slice::<impl [T]>::last_mut': m_first(True),
    'core::slice::<impl [T]>::swap': m_swap,
    'core::slice::<impl [T]>::starts_with': m_starts(False),
    'core::slice::<impl [T]>::ends_with': m_starts(True),
    'core::slice::<impl [T]>::strip_prefix': m_starts(False, True),
    'core::slice::<impl [T]>::strip_suffix': m_starts(True, True),
    'core::slice::<impl [T]>::split_first': m_split_first(False),
    'core::slice::<impl [T]>::split_first_mut': m_split_first(False),
    'core::slice::<impl [T]>::split_last': m_split_first(True),
    'core::slice::<impl [T]>::split_last_mut': m_split_first(True),
    'core::slice::<impl [T]>::iter': m_iter('iter'),
    'core::slice::<impl [T]>::iter_mut': m_iter('iter_mut'),
    'core::slice::<impl [T]>::chunks': m_iter('chunks'),
    'core::slice::<impl [T]>::chunks_mut': m_iter('chunks'),
    'core::slice::<impl [T]>::chunks_exact': m_iter('chunks_exact'),
    'core::slice::<impl [T]>::chunks_exact_mut': m_iter('chunks_exact'),
    'core::slice::<impl [T]>::windows': m_iter('windows'),
    'core::slice::Iter::<\'a, T>::new': m_iter('iter'),
    'core::slice::iter::<impl core::iter::IntoIterator for &\'a [T]>::into_iter': m_iter('iter'),
    'core::slice::iter::<impl core::iter::IntoIterator for &\'a mut [T]>::into_iter': m_iter('iter_mut'),
    'core::slice::IterMut::<\'a, T>::new': m_iter('iter_mut'),
    'core::array::try_from_fn': m_try_from_fn,
    'core::array::from_fn': m_try_from_fn,
    'core::str::traits::<impl core::cmp::PartialEq for str>::eq': m_bytes_eq(False),
    'core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq': m_bytes_eq(False),
    'core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::ne': m_bytes_eq(True),
    'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq': m_bytes_eq(False),
    'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::ne': m_bytes_eq(True),
    'core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>::eq': m_bytes_eq(False),
    'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T]>::eq': m_bytes_eq(False),
    'core::array::equality::<impl core::cmp::PartialEq<&[U]> for [T; N]>::eq': m_bytes_eq(False),
    'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for &[T]>::eq': m_bytes_eq(False),
    'core::array::<impl core::clone::Clone for [T; N]>::clone': m_array_clone,
    'core::array::<impl core::convert::TryFrom<&[T]> for [T; N]>::try_from': m_array_try_from,
    'core::array::<impl core::convert::TryFrom<&\'a [T]> for &\'a [T; N]>::try_from': m_array_try_from,
    'core::array::<impl core::convert::TryFrom<&mut [T]> for [T; N]>::try_from': m_array_try_from,
    'core::array::<impl core::convert::TryFrom<&\'a mut [T]> for &\'a mut [T; N]>::try_from': m_array_try_from,
    'core::slice::<impl [T]>::as_ptr': m_ident,
    'crypto::digest::Digest::new': d_new,
    'crypto::digest::Digest::update': d_update,
    'crypto::digest::Digest::finalize': d_finalize,
    'crypto::digest::Digest::digest': d_oneshot,
    'ring_compat::generic_array::GenericArray::<T, N>::as_slice': ga_as_slice,
    'rand::RngCore::fill_bytes': fill_bytes,
    'core::hint::black_box': m_ident,
}

INTR = {
    'ctpop': i_ctpop, 'cttz': i_cttz, 'cttz_nonzero': i_cttz, 'ctlz': i_ctlz, 'bswap': i_bswap,
    'saturating_add': i_sat('add'), 'saturating_sub': i_sat('sub'),
    'integer_min': i_minmax(True), 'integer_max': i_minmax(False), 'select_unpredictable': i_select,
    'raw_eq': i_raw_eq, 'assert_inhabited': m_unit, 'assert_zero_valid': m_unit, 'cold_path': m_unit,
    'likely': m_ident, 'unlikely': m_ident, 'black_box': m_ident,
}

ITERFN = {'fold': iter_fold, 'for_each': iter_for_each, 'position': iter_search('position'), 'any': iter_search('any'),
          'all': iter_search('all'), 'find': iter_search('find'), 'find_map': iter_search('find_map'), 'count': iter_count,
          'nth': iter_nth(), 'nth_back': iter_nth(True), 'advance_by': iter_advance(), 'advance_back_by': iter_advance(True),
          'last': iter_last, 'rposition': iter_rposition, 'next': m_next(), 'next_back': m_next(True), 'len': iter_len, 'size_hint': iter_size_hint,
          '__iterator_get_unchecked': iter_get_unchecked}

RANGES = ('Range', 'RangeTo', 'RangeFrom', 'RangeFull', 'RangeInclusive', 'RangeToInclusive')


class Models:
    def __init__(self):
        self.cache = {}
        self.extra = {}
        self.symhooks = {}

    def symtype(self, I, ty, name, st):
        h = self.symhooks.get(I.P.types[ty]['name']) or self.symhooks.get(I.P.types[ty].get('adt'))
        if h:
            return h(I, ty, name, st)
        return I.inv(I, ty, name, st) if I.inv is not None else None

    def lookup(self, callee, I):
        p = callee.get('rpath') or callee['path']
        k = (p, callee['kind'])
        if k in self.cache:
            return self.cache[k]
        m = self.find(callee, p)
        self.cache[k] = m
        return m

    def find(self, callee, p):
        if p in self.extra:
            return self.extra[p]
        path = callee['path']
        if callee['kind'] in ('external', 'unresolved', 'item', 'shim') and (p.startswith(PANICS) or path.startswith(PANICS)):
            return panic_model
        if callee['kind'] == 'intrinsic':
            return INTR.get(callee['name'])
        m = EXACT.get(p) or EXACT.get(path if callee['kind'] != 'item' else p)
        if m is not None:
            return m
        if p.endswith('::precondition_check') or p.endswith('::precondition_check::runtime'):
            return m_unit
        # <core::ops::Range<usize> as core::slice::SliceIndex<[T]>>::index
        if ' as core::slice::SliceIndex<' in p or ' as core::slice::index::SliceIndex<' in p:
            self_ = p[1:].split(' as ')[0]
            name = p.split('::')[-1]
            base = self_.split('<')[0].split('::')[-1]
            if base in RANGES or base == 'usize':
                if name in ('index', 'index_mut'):
                    return m_index(base, False)
                if name in ('get', 'get_mut'):
                    return m_index(base, True)
        if (p.startswith('<core::slice::Iter<') or p.startswith('<core::slice::IterMut<') or p.startswith('<core::slice::Chunks')
                or p.startswith('<core::slice::Windows')):
            name = p.split('::')[-1]
            return ITERFN.get(name)
        if 'for core::ops::Range<A>>::next' in p:
            return m_range_next_back if p.endswith('next_back') else m_range_next
        if 'for core::ops::RangeInclusive<A>>::next' in p and not p.endswith('back'):
            return m_rangeincl_next
        return None
