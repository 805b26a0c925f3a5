"""Hash and signature suites: the tables of the library and what it asks of the cryptographic crates."""
import re
from queries import query
from interp import *
from models import *
from view import V, Lost, rope, ropes_equal, any_taint
from proto import Call
from q_codec import Res, report, panics, settled
from q_der import local
import codec

# DSP0274: BaseHashAlgo / BaseAsymAlgo bits
HASHES = {1: ('SHA_256', 32), 2: ('SHA_384', 48), 4: ('SHA_512', 64), 8: ('SHA3_256', 32), 16: ('SHA3_384', 48), 32: ('SHA3_512', 64)}
SIGS = {1: ('RSASSA_2048', 256), 2: ('RSAPSS_2048', 256), 4: ('RSASSA_3072', 384), 8: ('RSAPSS_3072', 384), 16: ('ECDSA_ECC_NIST_P256', 64),
        32: ('RSASSA_4096', 512), 64: ('RSAPSS_4096', 512), 128: ('ECDSA_ECC_NIST_P384', 96), 256: ('ECDSA_ECC_NIST_P521', 132)}
HASHER = {'Sha256': (1, 32), 'Sha384': (2, 48), 'Sha512': (4, 64), 'Sha3_256': (8, 32), 'Sha3_384': (16, 48), 'Sha3_512': (32, 64)}
VERIFY = {'ECDSA_P256_SHA256': 16, 'ECDSA_P384_SHA384': 128, 'ECDSA_P256_SHA384': 0, 'ECDSA_P384_SHA256': 0, 'ED25519': 0,
          'RSA_PKCS1_2048_8192_SHA256': 1 | 4 | 32, 'RSA_PSS_2048_8192_SHA256_LEGACY_KEY': 2 | 8 | 64}
SIGN = {'ECDSA_P256_SHA256_ASN1_SIGNING': 0, 'ECDSA_P384_SHA384_ASN1_SIGNING': 0, 'ECDSA_P256_SHA256_FIXED_SIGNING': 16, 'ECDSA_P384_SHA384_FIXED_SIGNING': 128}


INTER = 3      # length of the list of intermediate certificates looked at


def static_name(v):
    return v.v[0].split('::')[-1] if isinstance(v, Opq) and v.k == 'static' else None


class Suite:
    def __init__(self, prog):
        self.P = prog
        self.I = None

    def fresh(self):
        h = {}
        for n in ('new', 'default'):
            h[n] = self.h_new
        h.update(update=self.h_update, finalize=self.h_final, digest=self.h_digest, chain=self.h_chain, chain_update=self.h_chain,
                 new_with_prefix=self.h_prefix)
        hooks = {}
        for n, f in h.items():
            for p in ('crypto::digest::Digest::' + n, '<D as crypto::digest::Digest>::' + n):
                hooks[p] = self.ext(f)
        hooks['core::default::Default::default'] = self.ext(self.h_new)
        for p in ('ring_compat::generic_array::GenericArray::<T, N>::as_slice', 'core::ops::Deref::deref', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow'):
            hooks[p] = self.ext(self.h_slice)
        for n in ('eq', 'ne'):
            hooks['core::cmp::PartialEq::' + n] = self.ext(self.h_eq)
        hooks.update({
            'webpki::EndEntityCert::<\'a>::verify_signature': self.w_sig,
            'webpki::EndEntityCert::<\'a>::verify_is_valid_tls_server_cert': self.w_chain('server'),
            'webpki::EndEntityCert::<\'a>::verify_is_valid_tls_client_cert': self.w_chain('client'),
            'webpki::TrustAnchor::<\'a>::try_from_cert_der': self.w_obj('anchor'),
            'webpki::Time::from_seconds_since_unix_epoch': self.w_time,
            'crypto::pki::bin_to_der': self.der,
            'ring::signature::EcdsaKeyPair::from_pkcs8': self.r_key,
            'ring::rand::SystemRandom::new': lambda I, st, a, c: [(st, Opq('sysrand'))],
            'ring::signature::EcdsaKeyPair::sign': self.r_sign,
        })
        A = codec.Alone(self.P, hooks)
        A.I.nomerge = True
        self.I = A.I
        return A

    # hashing --------------------------------------------------------------------------------
    def ext(self, f):
        def h(I, st, a, c):
            if c.callee.get('kind') != 'external' and c.callee.get('inst') is not None:
                return None
            return f(I, st, a, c)
        return h

    def alg(self, c):
        for t in c.targs:
            n = self.P.types[t]['name'].split('::')[-1].split('<')[0]
            if n in HASHER:
                return HASHER[n]
        raise Give('hash type')

    def h_new(self, I, st, a, c):
        if not c.targs or self.P.types[c.targs[0]]['name'].split('::')[-1] not in HASHER:
            return None
        return [(st, Opq('hasher', (self.alg(c), ())))]

    def hasher(self, I, st, v):
        v = I.deref(st, v) if isinstance(v, Ref) else v
        need(isinstance(v, Opq) and v.k == 'hasher', 'hasher')
        return v

    def h_update(self, I, st, a, c):
        v = self.hasher(I, st, a[0])
        I.write(st, a[0].o, a[0].p, None, Opq('hasher', (v.v[0], v.v[1] + rope(st, bytes_of(I, st, a[1])))))
        return [(st, Agg(()))]

    def h_chain(self, I, st, a, c):
        v = self.hasher(I, st, a[0])
        return [(st, Opq('hasher', (v.v[0], v.v[1] + rope(st, bytes_of(I, st, a[1])))))]

    def h_prefix(self, I, st, a, c):
        return [(st, Opq('hasher', (self.alg(c), rope(st, bytes_of(I, st, a[0])))))]

    def h_digest(self, I, st, a, c):
        return [(st, self.value(st, self.alg(c), rope(st, bytes_of(I, st, a[0]))))]

    def h_final(self, I, st, a, c):
        v = self.hasher(I, st, a[0])
        return [(st, self.value(st, v.v[0], v.v[1]))]

    def value(self, st, alg, r):
        r = rnorm(r, st.f)
        b = mkbase('digest', (C(alg[0]), r), 'H[%d](%s)' % (alg[0], showrope(r)[:60]), C(alg[1]))
        return Bytes((('s', b, ZERO, C(alg[1])),))

    def h_slice(self, I, st, a, c):
        if not (len(a) == 1 and isinstance(a[0], Ref) and a[0].rg is None):
            return None
        v = I.deref(st, a[0])
        if not isinstance(v, Bytes):
            return None
        return [(st, Ref(a[0].o, a[0].p, (ZERO, rlen(v.r))))]

    def h_eq(self, I, st, a, c):
        """comparison of values of external types: either way"""
        self.n = getattr(self, 'n', 0) + 1
        return [(st, nvar('exteq%d' % self.n, 0, 1))]

    # certificates ---------------------------------------------------------------------------
    def both(self, I, st, c, name, val, **d):
        """an external call that may fail: both outcomes, as events"""
        rt = self.P.types[c.destty]
        if rt.get('adt') != 'core::result::Result':
            return None
        e = st.clone()
        e.ev = e.ev + (Call(name + '!', name, **d),)
        st.ev = st.ev + (Call(name, name, **d),)
        err = I.sym(rt['variants'][1]['fields'][0][1], 'err:' + name, e)
        return [(e, Enum(ONE, {1: (err,)}, c.destty)), (st, Enum(ZERO, {0: (val,)}, c.destty))]

    def w_sig(self, I, st, a, c):
        return self.both(I, st, c, 'verify', Agg(()), cert=self.obj(I, st, a[0]), alg=static_name(self.obj(I, st, a[1])), msg=rope(st, bytes_of(I, st, a[2])), sig=rope(st, bytes_of(I, st, a[3])))

    def obj(self, I, st, v):
        while isinstance(v, Ref) and v.rg is None:
            v = I.deref(st, v)
        while isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
            while isinstance(v, Ref) and v.rg is None:
                v = I.deref(st, v)
        return v

    def items(self, I, st, v):
        v = self.obj(I, st, v)
        o, p, s0, n = slref(I, st, v)
        arr = I.read(st, o, p, None)
        need(isinstance(arr, Arr) and s0.k == 'c' and n.k == 'c', 'list')
        return [self.obj(I, st, x) for x in arr.e[s0.a:s0.a + n.a]]

    def w_chain(self, how):
        def h(I, st, a, c):
            o, p, s0, n = slref(I, st, a[3])
            arr = I.read(st, o, p, None)
            return self.both(I, st, c, 'chain', Agg(()), cert=self.obj(I, st, a[0]), algs=[static_name(x) for x in self.items(I, st, a[1])],
                             anchors=self.items(I, st, a[2]), inter=(arr, s0, n), time=a[4], how=how)
        return h

    def w_obj(self, kind):
        def h(I, st, a, c):
            r = rope(st, bytes_of(I, st, a[0]))
            return self.both(I, st, c, kind, Opq(kind, (r,)), data=r)
        return h

    def w_time(self, I, st, a, c):
        return [(st, Opq('time', (a[0],)))]

    def der(self, I, st, a, c):
        """bin_to_der, by the property about it: the DER of the signature at the front of the buffer"""
        sig = rope(st, bytes_of(I, st, a[0]))
        o, p, s0, n = slref(I, st, a[1])
        b = mkbase('der', sig, 'DER(%s)' % showrope(sig)[:60], nvar('derlen', 8, 139))
        if not st.f.ok(le(b.len, n)):
            return []
        junk = mkbase('enc', ('derpad', sig), 'pad', sub(n, b.len))
        I.write(st, o, p, (s0, n), Bytes((('s', b, ZERO, b.len), ('s', junk, ZERO, sub(n, b.len)))))
        return [(st, b.len)]

    def r_key(self, I, st, a, c):
        alg, r = static_name(self.obj(I, st, a[0])), rope(st, bytes_of(I, st, a[1]))
        return self.both(I, st, c, 'key', Opq('key', (alg, r)), alg=alg, data=r)

    def r_sign(self, I, st, a, c):
        k = self.obj(I, st, a[0])
        need(isinstance(k, Opq) and k.k == 'key', 'key')
        return self.both(I, st, c, 'sign', Opq('signature', (k, rope(st, bytes_of(I, st, a[2])))), key=k, msg=rope(st, bytes_of(I, st, a[2])), rng=self.obj(I, st, a[1]))


def flag(prog, ty, v):
    """a value of a one-scalar struct type"""
    t = prog.types[ty]
    if t['k'] == 'ref':
        raise Lost('flag by reference')
    x = C(v)
    while t['k'] == 'adt' and t['kind'] == 'struct':
        fs = t['variants'][0]['fields']
        if len(fs) != 1:
            raise Lost('flag type')
        x = Agg((x,))
        t = prog.types[fs[0][1]]
    return x


def scalar(st, v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if not isinstance(v, T):
        raise Lost('scalar expected')
    return st.f.simp(v)


def run(S, res, fi, mk, body, *a, need=True):
    """analyse one call and hand each outcome to body; returns the number of outcomes. Without need, a call that never returns is fine"""
    A = S.fresh()
    first = len(res.obl)
    try:
        st = State()
        f = S.P.insts[fi]
        args = mk(A.I, st, f['locals'][1:f['argc'] + 1])
        outs = A.I.run(fi, args, st, 0)
        for s, r in outs:
            s, r = settled(s, r)
            if s is not None:
                res.outcomes += 1
                body(A.I, s, args, r, *a)
    except (Lost, Abort, Split, Give, KeyError, AttributeError, TypeError, IndexError) as e:
        res.want('suite', 'analysis', None, '%s: %s' % (type(e).__name__, e), True)
        outs = []
    res.sites += sum(A.I.sites.values()) if A.I.sites else 0
    und = [str(k) for k in A.I.undecided] + [str(k) for k in A.I.unmodelled]
    if not outs and not need and len(res.obl) == first:
        und = []
    res.und += und
    if und:
        # something was not followed: what is missing proves nothing
        res.obl[first:] = [(c, w, None if r is False else r, x, t) for c, w, r, x, t in res.obl[first:]]
    return A, len(outs)


def hash_suite(S, R):
    P = S.P
    fm = local(P, 'crypto::ring::digest::ProvidedDigests::supported_algorithms')
    if fm is None:
        R.und('supported hashes', 'ProvidedDigests::supported_algorithms was not found')
        return
    mask = [None]
    r0 = Res('supported hashes')
    r0.fn = fm
    run(S, r0, fm, lambda I, st, tys: [], lambda I, st, a, r: mask.__setitem__(0, scalar(st, r)))
    if mask[0] is None or mask[0].k != 'c':
        R.und('supported hashes', 'the set of supported hashes was not determined')
        return
    mask = mask[0].a
    fam = [('digest', [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.match(r'<crypto::ring::digest::\w+ as crypto::digest::Digests>::digest$', x['path'])]),
           ('try_from', [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.match(r'<crypto::ring::digest::\w+ as core::convert::TryFrom<.*BaseHashAlgo>>::try_from$', x['path'])])]
    up = [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.match(r'<crypto::ring::digest::\w+ as crypto::digest::Digests>::update$', x['path'])]
    fin = [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.match(r'<crypto::ring::digest::\w+ as crypto::digest::Digests>::finalize$', x['path'])]
    for n, l in fam:
        if not l:
            R.und(n, 'no %s of the digest provider was found' % n)
    for fi in fam[0][1]:
        res = Res('digest')
        res.fn = fi
        data = [None]

        def mk(v):
            def go(I, st, tys):
                d = I.sym(tys[1], 'data', st)
                data[0] = rope(st, bytes_of(I, st, d))
                return [flag(P, tys[0], v), d]
            return go

        def body(I, st, a, r, v):
            n = HASHES.get(v)
            if n is None or not v & mask:
                res.want('hash', 'unsupported', False, 'a digest is produced for unsupported algorithm %#x' % v)
                return
            got = V(I, st, P.insts[fi]['locals'][0], r).bytes()
            want = rope(st, S.value(st, (v, n[1]), data[0]).r)
            e = ropes_equal(st, got, want)
            if e is None and not any_taint(got):
                e = False if all(x[0] == 's' and x[1].kind == 'digest' for x in got) else None
            res.want('hash', n[0], e, 'hashing with %s gives %s, not %s' % (n[0], showrope(got), showrope(want)), any_taint(got))
        for v in range(64):
            A, k = run(S, res, fi, mk(v), body, v, need=v in HASHES and bool(v & mask))
            if v in HASHES and v & mask:
                res.want('hash', '%s works' % HASHES[v][0], k > 0, 'hashing with supported %s never returns' % HASHES[v][0], bool(A.I.undecided or A.I.unmodelled))
                for key, p in A.I.panics.items():
                    res.panics[key] = p
        report(R, res, ('hash', 'suite'))
        panics(R, res)
    for fi in fam[1][1]:
        res = Res('digest selection')
        res.fn = fi
        made = {}

        def okbody(I, st, a, r, v):
            if not isinstance(r, Enum):
                raise Lost('result')
            d = st.f.simp(r.d)
            if d.k != 'c':
                raise Lost('result')
            sup = v in HASHES and bool(v & mask)
            if d.a == 0 and not sup:
                res.want('hash', 'unsupported', False, 'unsupported algorithm %#x is accepted' % v)
            elif d.a == 1 and sup:
                res.want('hash', HASHES[v][0], False, 'supported %s is refused' % HASHES[v][0])
            else:
                res.want('hash', 'selection', True)
                if d.a == 0:
                    made[v] = (st, r.pl[0][0])
        for v in range(64):
            run(S, res, fi, lambda I, st, tys: [flag(P, tys[0], v)], okbody, v)
        # incremental: two updates, then the result
        for v, (st0, x) in sorted(made.items()):
            for u in up:
                for w in fin:
                    A = S.fresh()
                    I = A.I
                    try:
                        st = st0.clone()
                        tys = P.insts[u]['locals'][1:3]
                        cell = I.sym(tys[0], 'self', st)
                        need(isinstance(cell, Ref), 'self')
                        I.write(st, cell.o, cell.p, None, x)
                        ds = [I.sym(tys[1], 'part%d' % i, st) for i in range(2)]
                        parts = rope(st, bytes_of(I, st, ds[0])) + rope(st, bytes_of(I, st, ds[1]))
                        cur = [st]
                        for d in ds:
                            cur = [s2 for s in cur for s2, _ in I.run(u, [cell, d], s, 0)]
                        outs = [o for s in cur for o in I.run(w, [I.deref(s, cell)], s, 0)]
                        res.want('hash', '%s incremental works' % HASHES[v][0], len(outs) > 0, 'incremental hashing never returns', bool(I.undecided or I.unmodelled))
                        for s, r in outs:
                            res.outcomes += 1
                            got = V(I, s, P.insts[w]['locals'][0], r).bytes()
                            want = rope(s, S.value(s, (v, HASHES[v][1]), parts).r)
                            e = ropes_equal(s, got, want)
                            if e is None and not any_taint(got):
                                e = False if all(q[0] == 's' and q[1].kind == 'digest' for q in got) else None
                            res.want('hash', '%s incremental' % HASHES[v][0], e, 'incremental %s gives %s, not %s' % (HASHES[v][0], showrope(got), showrope(want)), any_taint(got))
                    except (Lost, Abort, Split, Give, KeyError, AttributeError, TypeError, IndexError) as e:
                        res.want('suite', 'analysis', None, '%s: %s' % (type(e).__name__, e), True)
                    res.und += [str(k) for k in I.undecided] + [str(k) for k in I.unmodelled]
                    for key, p in I.panics.items():
                        res.panics[key] = p
        report(R, res, ('hash', 'suite'))
        panics(R, res)
    R.note('supported hash algorithms: ' + ', '.join(HASHES[b][0] for b in HASHES if b & mask))


def capacity(P, name):
    for t in P.types:
        if t['k'] == 'adt' and (t.get('adt') or '').endswith('::' + name) and t['kind'] == 'struct':
            for _, ft in t['variants'][0]['fields']:
                if P.types[ft]['k'] == 'array':
                    return P.types[ft]['len']
    return None


def size_table(S, R, path, table, what, buf):
    P = S.P
    cap = capacity(P, buf)
    l = [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.search(path, x['path'])]
    if not l:
        R.und(what, 'the table of sizes was not found')
    for fi in l:
        res = Res(what)
        res.fn = fi

        def mk(v):
            def go(I, st, tys):
                if P.types[tys[0]]['k'] == 'ref':
                    r = I.sym(tys[0], 'self', st)
                    I.write(st, r.o, r.p, None, flag(P, P.types[tys[0]]['to'], v))
                    return [r]
                return [flag(P, tys[0], v)]
            return go

        def body(I, st, a, r, v):
            n = scalar(st, r)
            res.want('size', table[v][0], st.f.decide(eq(n, C(table[v][1]))), 'the size for %s is %s, not %d' % (table[v][0], show(n), table[v][1]), any_taint(n))
        for v in table:
            A, k = run(S, res, fi, mk(v), body, v, need=cap is None or table[v][1] <= cap)
            if cap is not None and table[v][1] > cap:
                # larger than this configuration stores: there may be none
                continue
            res.want('size', table[v][0] + ' has one', k > 0, 'there is no size for %s' % table[v][0], bool(A.I.undecided or A.I.unmodelled))
            for key, p in A.I.panics.items():
                res.panics[key] = p
        report(R, res, ('size', 'suite'))
        panics(R, res)


def names(S, R, path, table, what):
    """the names configuration files use"""
    P = S.P
    for fi in [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.search(path, x['path'])]:
        res = Res(what)
        res.fn = fi

        def mk(s):
            def go(I, st, tys):
                r = I.sym(tys[0], 's', st)
                n = slref(I, st, r)
                b = s.encode()
                if not st.f.ok(eq(n[3], C(len(b)))):
                    raise Lost('string')
                I.write(st, n[0], n[1], (n[2], C(len(b))), Bytes(lit(b)))
                return [r]
            return go

        def body(I, st, a, r, v):
            d = st.f.simp(r.d)
            if d.k != 'c':
                raise Lost('result')
            if d.a:
                res.want('name', table[v][0], False, 'the name %s is not recognised' % table[v][0])
                return
            n = scalar(st, r.pl[0][0])
            res.want('name', table[v][0], st.f.decide(eq(n, C(v))), 'the name %s stands for %s' % (table[v][0], show(n)), any_taint(n))
        for v in table:
            run(S, res, fi, mk(table[v][0]), body, v)
        report(R, res, ('name', 'suite'))


def verify_suite(S, R):
    P = S.P
    fv = [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.match(r'<crypto::ring::pki::.* as crypto::pki::EndEntityCert<.*>>::verify_signature$', x['path'])]
    fc = [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.match(r'<crypto::ring::pki::.* as crypto::pki::EndEntityCert<.*>>::verify_chain_of_trust$', x['path'])]
    if not fv or not fc:
        R.und('verification', 'the certificate type was not found')
    usable = set()
    for fi in fv:
        res = Res('signature verification')
        res.fn = fi

        def mk(v):
            def go(I, st, tys):
                a = [I.sym(tys[0], 'self', st), flag(P, tys[1], v)] + [I.sym(tys[i], 'msg sig'.split()[i - 2], st) for i in (2, 3)]
                cert(I, st, a[0], tys[0])
                return a
            return go

        def body(I, st, a, r, v):
            ev = [e for e in st.ev if isinstance(e, Call) and e.kind in ('verify', 'verify!')]
            if not ev and st.f.decide(eq(scalar(st, r), ZERO)) is True:
                res.want('verify', 'unsupported', True)
                return
            if len(ev) != 1:
                res.want('verify', 'one verification', False if not ev else None, '%d verifications decide' % len(ev))
                return
            e = ev[0]
            usable.add(v)
            res.want('verify', 'algorithm', None if e.alg not in VERIFY else bool(VERIFY[e.alg] & v), '%s verifies %s' % (SIGS[v][0], e.alg))
            res.want('verify', 'certificate', isinstance(e.cert, Opq) and e.cert.k == 'eecert' or None, 'another certificate is used')
            msg, sig = rope(st, bytes_of(I, st, a[2])), rope(st, bytes_of(I, st, a[3]))
            res.want('verify', 'message', known(ropes_equal(st, e.msg, msg), e.msg), 'the message verified is %s' % showrope(e.msg), any_taint(e.msg))
            b = mkbase('der', sig, 'DER', nvar('derlen', 8, 139))
            want = rope(st, (('s', b, ZERO, b.len),))
            res.want('verify', 'signature', known(ropes_equal(st, e.sig, want), e.sig), 'the signature verified is %s' % showrope(e.sig), any_taint(e.sig))
            d = scalar(st, r)
            res.want('verify', 'verdict', st.f.decide(eq(d, ONE if e.kind == 'verify' else ZERO)), 'the verdict returned is %s' % show(d), any_taint(d))
        for v in SIGS:
            A, k = run(S, res, fi, mk(v), body, v, need=v == 16)
            if k:
                for key, p in A.I.panics.items():
                    res.panics[key] = p
        report(R, res, ('verify', 'suite'))
        panics(R, res)
        R.check(16 in usable, 'P256 verification', 'ECDSA P-256 signatures can be verified', 'ECDSA_ECC_NIST_P256 never returns a verdict', bool(res.und))
    for fi in fc:
        res = Res('chain verification')
        res.fn = fi

        def mk2(v):
            def go(I, st, tys):
                a = [I.sym(tys[0], 'self', st), flag(P, tys[1], v)] + [I.sym(tys[i], 'inter root time'.split()[i - 2], st) for i in (2, 3, 4)]
                cert(I, st, a[0], tys[0])
                el = P.types[P.types[tys[2]]['to']]['elem']
                o, p = a[2].o, a[2].p
                s0, n = a[2].rg or (ZERO, nvar('ninter', 0, INTER))
                a[2] = Ref(o, p, (s0, n))
                I.write(st, o, p, None, Arr(tuple(I.sym(el, 'inter%d' % i, st) for i in range(INTER))))
                st.f.ok(le(n, C(INTER)))
                return a
            return go

        def body2(I, st, a, r, v):
            d = st.f.simp(r.d)
            if d.k != 'c':
                raise Lost('result')
            ch = [e for e in st.ev if isinstance(e, Call) and e.kind in ('chain', 'chain!')]
            if d.a == 1:
                if v not in usable:
                    res.want('chain', 'unsupported', True)
                    return
                bad = [e for e in st.ev if isinstance(e, Call) and e.kind.endswith('!')]
                res.want('chain', 'refusal', bool(bad), 'a chain is refused that the verifier accepts')
                return
            if len(ch) != 1:
                res.want('chain', 'one verification', False if not ch else None, '%d verifications decide' % len(ch))
                return
            e = ch[0]
            res.want('chain', 'verdict', e.kind == 'chain', 'a chain is accepted that the verifier refuses')
            algs = [VERIFY.get(x) for x in e.algs]
            res.want('chain', 'algorithm', None if None in algs else all(x & v for x in algs) and bool(algs), '%s accepts chains signed with %s' % (SIGS[v][0], e.algs))
            res.want('chain', 'certificate', isinstance(e.cert, Opq) and e.cert.k == 'eecert' or None, 'another certificate is used')
            root = rope(st, bytes_of(I, st, a[3]))
            res.want('chain', 'anchors', len(e.anchors) == 1 and all(isinstance(x, Opq) and x.k == 'anchor' and ropes_equal(st, x.v[0], root) is True for x in e.anchors), 'the trust anchors are %s' % e.anchors, False)
            o, p, s0, n = slref(I, st, a[2])
            arr = I.read(st, o, p, None)
            same = e.inter[0] == arr and st.f.decide(eq(e.inter[1], s0)) and st.f.decide(eq(e.inter[2], n))
            res.want('chain', 'intermediates', True if same is True else False if e.inter[0] == arr else None, 'not all intermediate certificates are passed')
            tm = e.time
            res.want('chain', 'time', st.f.decide(eq(tm.v[0], a[4])) if isinstance(tm, Opq) and tm.k == 'time' else None, 'another time is used')
        for v in SIGS:
            A, k = run(S, res, fi, mk2(v), body2, v, need=v in usable)
            if k and v in usable:
                for key, p in A.I.panics.items():
                    res.panics[key] = p
        report(R, res, ('chain', 'suite'))
        panics(R, res)
    return usable


def known(e, r):
    """ropes of named inputs that are not equal differ"""
    return e if e is not None else False if not any_taint(r) else None


def cert(I, st, ref, ty):
    """the certificate inside the library's wrapper"""
    to = I.P.types[ty]['to']
    t = I.P.types[to]
    n = 0
    while t['k'] == 'adt' and t['kind'] == 'struct' and 'webpki::' not in t['name'].split('<')[0] and len(t['variants'][0]['fields']) == 1:
        t = I.P.types[t['variants'][0]['fields'][0][1]]
        n += 1
    if n == 0:
        t = I.P.types[to]
        if t['k'] == 'adt' and t['kind'] == 'struct' and len(t['variants']) and len(t['variants'][0]['fields']) == 1:
            n = 1
    v = Opq('eecert', ('self',))
    for _ in range(n):
        v = Agg((v,))
    I.write(st, ref.o, ref.p, None, v)


def sign_suite(S, R):
    P = S.P
    fn = local(P, 'crypto::ring::signing::new_signer')
    fs = [i for i, x in enumerate(P.insts) if x['local'] and x['blocks'] and re.match(r'<crypto::ring::signing::.* as crypto::signing::Signer>::sign$', x['path'])]
    if fn is None or not fs:
        R.und('signing', 'the signer was not found')
        return set()
    usable = set()
    res = Res('signing')
    res.fn = fn

    def mk(v):
        return lambda I, st, tys: [flag(P, tys[0], v), I.sym(tys[1], 'pkcs8', st)]

    def body(I, st, a, r, v):
        d = st.f.simp(r.d)
        if d.k != 'c':
            raise Lost('result')
        ev = [e for e in st.ev if isinstance(e, Call) and e.kind in ('key', 'key!')]
        if d.a == 1:
            return
        if len(ev) != 1 or ev[0].kind != 'key':
            res.want('sign', 'key', False if not [e for e in ev if e.kind == 'key'] else None, 'a signer comes from a key that was not accepted')
            return
        usable.add(v)
        e = ev[0]
        res.want('sign', 'algorithm', None if e.alg not in SIGN else SIGN[e.alg] == v, '%s signs with %s' % (SIGS[v][0], e.alg))
        res.want('sign', 'key', known(ropes_equal(st, e.data, rope(st, bytes_of(I, st, a[1]))), e.data), 'the key is %s' % showrope(e.data))
        for f in fs:
            tys = P.insts[f]['locals'][1:3]
            st2 = st.clone()
            st2.ev = ()
            me = I.sym(tys[0], 'self', st2)
            I.write(st2, me.o, me.p, None, r.pl[0][0])
            m = I.sym(tys[1], 'tbs', st2)
            mr = rope(st2, bytes_of(I, st2, m))
            outs = I.run(f, [me, m], st2, 0)
            n = 0
            for s, o in outs:
                s, o = settled(s, o)
                if s is None:
                    continue
                res.outcomes += 1
                d = s.f.simp(o.d)
                if d.k != 'c':
                    raise Lost('result')
                ev = [x for x in s.ev if isinstance(x, Call) and x.kind in ('sign', 'sign!')]
                if d.a == 1:
                    res.want('sign', 'refusal', any(x.kind == 'sign!' for x in ev), 'signing fails although the key signs')
                    continue
                n += 1
                v2 = o.pl[0][0]
                ok = isinstance(v2, Opq) and v2.k == 'signature'
                res.want('sign', 'result', ok or None, 'the signature returned is %r' % (v2,))
                if ok:
                    res.want('sign', 'signer key', v2.v[0].v[0] == e.alg and v2.v[0].v[1] == e.data, 'another key signs')
                    res.want('sign', 'message', known(ropes_equal(s, v2.v[1], mr), v2.v[1]), 'the message signed is %s' % showrope(v2.v[1]))
            res.want('sign', 'returns', n > 0, 'signing never succeeds', bool(I.undecided or I.unmodelled))
    for v in SIGS:
        A, k = run(S, res, fn, mk(v), body, v, need=v == 16)
        if k:
            for key, p in A.I.panics.items():
                res.panics[key] = p
    report(R, res, ('sign', 'suite'))
    panics(R, res)
    R.check(16 in usable, 'P256 signing', 'ECDSA P-256 keys can sign', 'no signer for ECDSA_ECC_NIST_P256', bool(res.und))
    return usable


@query('C27', 'Abstract interpretation of the suite tables and of the ring back end on every algorithm value, recording what is asked of the '
              'cryptographic crates: the hash type and data of each digest and the length taken from it, the size tables, the verification and '
              'signing algorithm objects with their message, signature, key, anchors and intermediates, and the verdict passed on.',
       assume=['an algorithm value outside the defined single bits never reaches these functions (C16, C17, C29)'],
       trust=['the named algorithm objects of ring, ring_compat and webpki implement the algorithm in their name'])
def c27(C_, R):
    P = C_.prog('c')
    S = Suite(P)
    hash_suite(S, R)
    size_table(S, R, r'BaseHashAlgo::get_digest_size$', HASHES, 'digest sizes', 'DigestBuf')
    size_table(S, R, r'BaseAsymAlgo::get_signature_size$', SIGS, 'signature sizes', 'SignatureBuf')
    names(S, R, r'BaseHashAlgo as core::str::FromStr>::from_str$', HASHES, 'hash names')
    names(S, R, r'BaseAsymAlgo as core::str::FromStr>::from_str$', SIGS, 'signature algorithm names')
    v = verify_suite(S, R)
    s = sign_suite(S, R)
    if v is not None and s is not None:
        R.check(s <= v, 'sign and verify', 'every algorithm that can sign can be verified', 'signing %s, verifying %s' % (sorted(s), sorted(v)))
