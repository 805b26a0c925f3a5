"""Contracts used when the endpoints are analysed.

Decoders (`X::parse_body`, `CertificateChain::parse`) and encoders (`Msg::write`)
are replaced by contracts: a decoder yields an arbitrary error or an arbitrary
well-formed message; an encoder yields an arbitrary error or fills a prefix of the
buffer.  The decoders and encoders themselves are analysed on their own against the
message layouts (C09-C14).  Signing and signature checks are uninterpreted.
"""
from interp import *
from models import *


# messages whose encoding has one length (C12)
FIXED = {'GetVersion': 4}


class Call:
    """an event: a contract call"""
    __slots__ = ('kind', 'name', 'd')

    def __init__(self, kind, name, **d):
        self.kind, self.name, self.d = kind, name, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s:%s' % (self.kind, self.name)

    def key(self):
        return (self.kind, self.name)


def rescue(I, st, r):
    """the bytes a slice reference denotes"""
    v = I.deref(st, r)
    if isinstance(v, Bytes):
        return rnorm(v.r, st.f)
    return None


class Contracts:
    def __init__(self, I, inline=()):
        self.I = I
        self.P = I.P
        self.n = 0
        self.inline = set(inline)
        self.parse = {}
        self.slots = 0
        self.decoders = set()
        self.given = {}        # message -> function adding assumptions about a decoded message (case splits of queries)
        self.write_max = {}
        self.chains = {}       # encoding of a certificate chain -> (the chain, where it was)
        for i, x in enumerate(I.P.insts):
            if not x['local'] or not x['blocks']:
                continue
            p = x['path']
            if p.startswith('msgs::') and p.endswith('::parse_body') and x['impl_self'] and not x['impl_trait']:
                nm = x['impl_self'].split('::')[-1]
                if nm not in self.inline:
                    I.hooks[p] = self.mkparse(nm)
                    self.decoders.add(nm)
            elif p.endswith("CertificateChain::<'a>::parse") and 'CertificateChain' not in self.inline:
                I.hooks[p] = self.mkparse('CertificateChain')
            elif p.endswith("CertificateChain::<'a>::write") and 'CertificateChain' not in self.inline:
                I.hooks[p] = self.write_chain
        I.hooks['msgs::Msg::write'] = self.write
        self.codes = {}
        for c in I.P.consts:
            if c.get('trait') == 'msgs::Msg' and c['self'] and c['val'] and c['val'][0] == 'i':
                self.codes.setdefault(c['self'].split('::')[-1].split('<')[0], {})[c['path'].split('::')[-1]] = c['val'][1]
        if 'digest' not in self.inline:
            I.hooks['crypto::digest::Digests::digest'] = self.digest
        if 'pki' not in self.inline:
            I.hooks['crypto::ring::pki::new_end_entity_cert'] = self.eecert
            I.hooks['crypto::pki::EndEntityCert::verify_signature'] = self.verify_sig
            I.hooks['crypto::pki::EndEntityCert::verify_chain_of_trust'] = self.verify_chain
        for t in ('crypto::signing::Signer::sign',):
            I.hooks[t] = self.sign
        I.hooks['core::convert::AsRef::as_ref'] = self.as_ref

    def parse_names(self):
        """messages whose body has a decoder"""
        return self.decoders

    # a decoder
    def mkparse(self, nm):
        def h(I, st, a, c):
            t = I.P.types[c.destty]
            if t.get('adt') != 'core::result::Result':
                return None
            okty = t['variants'][0]['fields'][0][1]
            errty = t['variants'][1]['fields'][0][1]
            buf = None
            others = []
            for v, ty in zip(a, c.argtys):
                tt = I.P.types[ty]
                if tt['k'] == 'ref' and I.P.types[tt['to']]['k'] == 'slice':
                    buf = v
                else:
                    others.append(v)
            if buf is None:
                return None
            # named by what the path did before, so that the name is the same in another run
            k = sum(1 for x in st.ev if isinstance(x, Call) and x.kind in ('parse', 'parse_err'))
            rope = rescue(I, st, buf)
            e = st.clone()
            ev = I.sym(errty, 'err%d(%s)' % (k, nm), e)
            e.ev = e.ev + (Call('parse_err', nm, err=ev, buf=rope, args=others, ty=errty),)
            out = [(e, Enum(ONE, {1: (ev,)}, c.destty))]
            v = I.sym(okty, 'msg%d(%s)' % (k, nm), st)
            sizes = {}
            for w, ty in zip(a, c.argtys):
                ad = (I.P.types[ty].get('adt') or '').split('::')[-1]
                if ad in ('DigestSize', 'SignatureSize'):
                    sizes[ad.replace('Size', 'Buf')] = w
            v = self.wellformed(st, nm, okty, v, 'msg%d(%s)' % (k, nm), rope, sizes)
            if nm in self.given and not self.given[nm](st, okty, v):
                return out
            st.ev = st.ev + (Call('parse', nm, msg=v, buf=rope, args=others, ty=okty),)
            out.append((st, Enum(ZERO, {0: (v,)}, c.destty)))
            return out
        return h

    def wellformed(self, st, nm, ty, v, name, rope=None, sizes={}):
        """what the decoders guarantee beyond the type (established by C09 / C16)"""
        t = self.P.types[ty]
        if isinstance(v, Agg) and t['k'] == 'adt' and t['kind'] == 'struct':
            # digests and signatures have the size the decoder was given
            f = list(v.f)
            for i, (fn, ft) in enumerate(t['variants'][0]['fields']):
                ft = self.P.types[ft]
                ad = (ft.get('adt') or '').split('::')[-1]
                if ad in sizes and isinstance(f[i], Agg):
                    g = list(f[i].f)
                    for j, (gn, gt) in enumerate(ft['variants'][0]['fields']):
                        if self.P.types[gt]['k'] != 'array':
                            from inv import first_scalar
                            x = sizes[ad] if isinstance(sizes[ad], T) else first_scalar(sizes[ad])
                            if x is not None:
                                g[j] = x if isinstance(g[j], T) else Agg((x,))
                    f[i] = Agg(tuple(g))
            v = Agg(tuple(f))
            for (fn, ft), w in zip(t['variants'][0]['fields'], v.f):
                if nm == 'ChallengeAuth' and fn == 'slot' and isinstance(w, T) and self.slots:
                    st.f.ok(lt(w, C(self.slots)))
            n = self.minlen(self.I, st, t, v)
            if n is not None and rope is not None:
                # a decoded message with a signature contains it
                st.f.ok(ge(rlen(rope), sub(n, C(2))))
        if nm == 'Algorithms' and isinstance(v, Agg):
            vs = self.P.types[ty]['variants']
            f = list(v.f)
            for i, (fn, ft) in enumerate(vs[0]['fields']):
                m = self.I.inv.masks.get(self.P.types[ft].get('adt'))
                if m is not None and isinstance(f[i], Agg) and len(f[i].f) == 1:
                    # exactly one defined bit
                    f[i] = Agg((self.onebit(st, name + '.' + fn, m),))
            num = [w for (fn, ft), w in zip(vs[0]['fields'], f) if fn.startswith('num_')]
            for i, (fn, ft) in enumerate(vs[0]['fields']):
                if isinstance(f[i], Arr) and len(num) == 1 and isinstance(num[0], T):
                    et = self.P.types[self.P.types[ft]['elem']]
                    es = []
                    for j, e in enumerate(f[i].e):
                        if isinstance(e, Enum):
                            e = Enum(e.d, {k: self.struct_bits(st, '%s.%s[%d].%d' % (name, fn, j, k), et['variants'][k]['fields'], p, num[0], j) for k, p in e.pl.items()}, e.ty)
                        es.append(e)
                    f[i] = Arr(tuple(es))
            v = Agg(tuple(f))
        return v

    def struct_bits(self, st, name, fields, p, num, j):
        """payload of algorithm structure j: a single bit when the structure is present"""
        def go(ty, v, nm):
            t = self.P.types[ty]
            m = self.I.inv.masks.get(t.get('adt'))
            if m is not None and isinstance(v, Agg) and len(v.f) == 1:
                lo, hi = st.f.rng(st.f.simp(num))
                if hi > 16:
                    return v
                b = self.onebit(st, nm, m)
                return Agg((tab(st.f.simp(num), {k: (b if k > j else v.f[0]) for k in range(int(hi) + 1)}),))
            if isinstance(v, Agg) and t['k'] == 'adt' and t['kind'] == 'struct':
                return Agg(tuple(go(ft, w, '%s.%s' % (nm, fn)) for (fn, ft), w in zip(t['variants'][0]['fields'], v.f)))
            return v
        return tuple(go(ft, w, '%s.%s' % (name, fn)) for (fn, ft), w in zip(fields, p))

    def onebit(self, st, name, mask):
        bits = [b for b in range(64) if mask >> b & 1]
        if len(bits) == 1:
            return C(1 << bits[0])
        a = nvar(name + '!', 1 << bits[0], 1 << bits[-1])
        st.f.restrict(a, vals=[1 << b for b in bits])
        return a

    def digest(self, I, st, a, c):
        """Digests::digest(algorithm, data): the digest of data (C27 checks the implementation)"""
        if 'no_crypto' in (c.callee.get('rpath') or ''):
            return None
        alg = a[0].f[0] if isinstance(a[0], Agg) and len(a[0].f) == 1 else None
        need(isinstance(alg, T), 'digest algorithm')
        alg = st.f.simp(alg)
        t = I.P.types[c.destty]
        need(t['k'] == 'adt' and t['kind'] == 'struct', 'digest type')
        vals = st.f.values(alg, 16)
        need(vals is not None, 'digest algorithm values')
        sizes = self.hash_sizes()
        ok = [v for v in vals if v in sizes]
        if len(ok) != len(vals):
            bad = [v for v in vals if v not in sizes]
            I.note_site('unsupported hash algorithm')
            I.panic(st, 'unsupported hash algorithm', or_list([eq(alg, C(v)) for v in bad]))
            st.f.assume(in_set(alg, ok))
            if not ok:
                return []
        data = bytes_of(I, st, a[1])
        if len(ok) == 1:
            size = C(sizes[ok[0]])
        else:
            alg, size = self.piecewise(st, alg, {v: C(sizes[v]) for v in ok})
        b = mkbase('digest', (alg, data), 'H[%s](%s)' % (show(alg), showrope(data)[:80]), size)
        f = []
        for n, ft in t['variants'][0]['fields']:
            u = I.P.types[ft]
            if u['k'] == 'array':
                cap = C(u['len'])
                r = (('s', b, ZERO, size),)
                if st.f.simp(sub(cap, size)) != ZERO:
                    r = r + (('f', ZERO, sub(cap, size)),)
                f.append(Bytes(rnorm(r, st.f)))
            elif u['k'] == 'int':
                f.append(size)
            else:
                f.append(Agg((size,)))
        return [(st, Agg(tuple(f)))]

    def piecewise(self, st, t, m):
        if t.k == 'o' and t.a[0] == 'tab':
            t2 = st.f.simp(t)
            if t2.k == 'o' and t2.a[0] == 'tab':
                us = [u for _, u in t2.a[2]] + ([] if t2.a[3] is None else [t2.a[3]])
                if all(u.k == 'c' for u in us):
                    return t2, tabmap(t2, lambda u: m.get(u.a, ZERO))
        if t.k not in ('l', 'c') and not (t.k == 'o' and t.a[0] in ('tab', 'ltab')):
            return t, tab(t, m)
        raise Split([eq(t, C(v)) for v in m], 'algorithm')

    def hash_sizes(self):
        """digest length of each hash algorithm the provider supports"""
        if getattr(self, '_hs', None) is None:
            I = self.I
            std = {1: 32, 2: 48, 4: 64, 8: 32, 16: 48, 32: 64}
            self._hs = {}
            for i, x in enumerate(I.P.insts):
                if x['path'].endswith('ProvidedDigests::supported_algorithms') and x['blocks'] and 'no_crypto' not in x['path']:
                    for s, v in I.run(i, [], State(), 50):
                        for b in (s.f.values(v.f[0], 64) or ()):
                            for k, n in std.items():
                                if b & k:
                                    self._hs[k] = n
        return self._hs

    def eecert(self, I, st, a, c):
        rt = I.P.types[c.destty]
        if rt.get('adt') != 'core::result::Result':
            return None
        self.n += 1
        e = st.clone()
        ev = I.sym(rt['variants'][1]['fields'][0][1], 'pkierr%d' % self.n, e)
        r = rescue(I, st, a[0])
        out = [(e, Enum(ONE, {1: (ev,)}, c.destty))]
        out.append((st, Enum(ZERO, {0: (Opq('eecert', (r,)),)}, c.destty)))
        return out

    def cert_of(self, I, st, v):
        v = I.deref(st, v) if isinstance(v, Ref) else v
        return v.v[0] if isinstance(v, Opq) and v.k == 'eecert' else None

    def verify_sig(self, I, st, a, c):
        r = self.cert_of(I, st, a[0])
        if r is None:
            return None
        self.n += 1
        b = nvar('sigok%d' % self.n, 0, 1)
        st.ev = st.ev + (Call('verify_sig', 'verify_signature', cert=r, alg=a[1], msg=rescue(I, st, a[2]), sig=rescue(I, st, a[3]), res=b),)
        return [(st, b)]

    def verify_chain(self, I, st, a, c):
        r = self.cert_of(I, st, a[0])
        if r is None:
            return None
        rt = I.P.types[c.destty]
        self.n += 1
        o, p, s0, n = slref(I, st, a[2])
        arr = I.read(st, o, p, None)
        need(isinstance(arr, Arr), 'intermediates')
        inter = ([rescue(I, st, x) for x in arr.e], s0, n)
        d = dict(cert=r, alg=a[1], inter=inter, root=rescue(I, st, a[3]), time=a[4])
        e = st.clone()
        ev = I.sym(rt['variants'][1]['fields'][0][1], 'chainerr%d' % self.n, e)
        e.ev = e.ev + (Call('verify_chain_err', 'verify_chain_of_trust', **d),)
        out = [(e, Enum(ONE, {1: (ev,)}, c.destty))]
        st.ev = st.ev + (Call('verify_chain', 'verify_chain_of_trust', **d),)
        out.append((st, Enum(ZERO, {0: (Agg(()),)}, c.destty)))
        return out

    # an encoder
    def write(self, I, st, a, c):
        t = I.P.types[c.targs[0]] if c.targs else None
        nm = t['name'].split('::')[-1].split('<')[0] if t else '?'
        if nm in self.inline or t is None:
            return None
        rt = I.P.types[c.destty]
        if rt.get('adt') != 'core::result::Result':
            return None
        errty = rt['variants'][1]['fields'][0][1]
        self.n += 1
        k = self.n
        val = I.deref(st, a[0])
        o, p, s, n = slref(I, st, a[1])
        e = st.clone()
        ev = I.sym(errty, 'werr%d(%s)' % (k, nm), e)
        # a failed encoder may have scribbled over the buffer
        junk = mkbase('enc', ('junk', k), 'junk%d' % k, n)
        I.write(e, o, p, (s, n), Bytes((('s', junk, ZERO, n),)))
        e.ev = e.ev + (Call('enc_err', nm, msg=val, err=ev, ty=c.targs[0], ety=errty, room=n),)
        out = [(e, Enum(ONE, {1: (ev,)}, c.destty))]
        fix = FIXED.get(nm)
        m = C(fix) if fix else nvar('len%d(%s)' % (k, nm), 2, 1 << 16)
        if st.f.ok(le(m, n)):
            lo = self.minlen(I, st, t, val)
            if lo is not None and not st.f.ok(ge(m, lo)):
                return out
            b = mkbase('enc', (nm, k), 'enc%d(%s)' % (k, nm), m)
            # what follows the encoding is left as it was (C11); nothing here depends on that
            rest = mkbase('enc', ('rest', k), 'rest%d' % k, sub(n, m))
            I.write(st, o, p, (s, n), Bytes(rnorm(self.encoding(nm, b, m) + (('s', rest, ZERO, sub(n, m)),), st.f)))
            st.ev = st.ev + (Call('enc', nm, msg=val, base=b, size=m, obj=o, ty=c.targs[0]),)
            out.append((st, Enum(ZERO, {0: (m,)}, c.destty)))
        return out

    def encoding(self, nm, b, m):
        """an encoding starts with the version and the code of its message (C11)"""
        cs = self.codes.get(nm, {})
        h = [cs.get('SPDM_VERSION'), cs.get('SPDM_CODE')]
        if None in h:
            return (('s', b, ZERO, m),)
        return lit(bytes(h)) + (('s', b, C(2), sub(m, C(2))),)

    def minlen(self, I, st, t, val):
        """the encoding of a message ending in a signature is at least that long (C12)"""
        vs = t.get('variants')
        if not vs or t['kind'] != 'struct' or not isinstance(val, Agg):
            return None
        r = None
        for (fn, ft), v in zip(vs[0]['fields'], val.f):
            ft = I.P.types[ft]
            if (ft.get('adt') or '').endswith('SignatureBuf') and isinstance(v, Agg):
                for (gn, gt), w in zip(ft['variants'][0]['fields'], v.f):
                    if I.P.types[gt]['k'] != 'array':
                        from inv import first_scalar
                        r = first_scalar(w)
        return None if r is None else add(r, C(2))

    def write_chain(self, I, st, a, c):
        rt = I.P.types[c.destty]
        if rt.get('adt') != 'core::result::Result':
            return None
        errty = rt['variants'][1]['fields'][0][1]
        self.n += 1
        k = self.n
        chain = I.deref(st, a[0])
        w = I.deref(st, a[1])
        wt = I.P.types[I.P.types[c.argtys[1]]['to']]
        fs = [f[0] for f in wt['variants'][0]['fields']]
        bi, oi = fs.index('buf'), fs.index('offset')
        o, p, s, n = slref(I, st, w.f[bi])
        off = st.f.simp(w.f[oi])
        need(off.k == 'c' and off.a == 0, 'chain written at an offset')
        e = st.clone()
        ev = I.sym(errty, 'werr%d(CertificateChain)' % k, e)
        junk = mkbase('enc', ('junk', k), 'junk%d' % k, n)
        I.write(e, o, p, (s, n), Bytes((('s', junk, ZERO, n),)))
        e.ev = e.ev + (Call('enc_err', 'CertificateChain', msg=chain, err=ev),)
        out = [(e, Enum(ONE, {1: (ev,)}, c.destty))]
        # the encoding of a chain is a function of the chain
        key = repr(t_map(chain, st.f.simp))
        cap = st.f.simp(n)
        m = nvar('len(%s)' % key, 2, 1 << 16) if cap.k != 'c' else nvar('len@%d(%s)' % (cap.a, key), 2, cap.a)
        if st.f.ok(le(m, n)):
            b = mkbase('chain', key, 'chain(%s)' % key, m)
            self.chains[b] = (chain, a[0] if isinstance(a[0], Ref) else None)
            rest = mkbase('enc', ('rest', k), 'rest%d' % k, sub(n, m))
            I.write(st, o, p, (s, n), Bytes((('s', b, ZERO, m), ('s', rest, ZERO, sub(n, m)))))
            f = list(w.f)
            f[oi] = m
            I.write(st, a[1].o, a[1].p, a[1].rg, Agg(tuple(f)))
            out.append((st, Enum(ZERO, {0: (m,)}, c.destty)))
        return out

    def as_ref(self, I, st, a, c):
        v = I.deref(st, a[0]) if isinstance(a[0], Ref) else a[0]
        if isinstance(v, Opq) and v.k == 'signature':
            b, n = v.v
            key = ('sig', b.key)
            st.o[key] = Bytes((('s', b, ZERO, n),))
            return [(st, Ref(key, (), (ZERO, n)))]
        return None

    def sign(self, I, st, a, c):
        rt = I.P.types[c.destty]
        if rt.get('adt') != 'core::result::Result':
            return None
        okty = rt['variants'][0]['fields'][0][1]
        errty = rt['variants'][1]['fields'][0][1]
        self.n += 1
        k = self.n
        signer = rescue_signer(I, st, a[0])
        msg = rescue(I, st, a[1])
        e = st.clone()
        ev = I.havoc(errty, 'signerr%d' % k, e)
        e.ev = e.ev + (Call('sign_err', 'sign', signer=signer, msg=msg),)
        out = [(e, Enum(ONE, {1: (ev,)}, c.destty))]
        n = nvar('siglen%d' % k, 0, 1 << 16)
        b = mkbase('sig', (signer, msg, k), 'sig%d' % k, n)
        st.ev = st.ev + (Call('sign', 'sign', signer=signer, msg=msg, base=b, size=n, ref=(a[0].o, a[0].p) if isinstance(a[0], Ref) else None),)
        okv = Opq('signature', (b, n))
        out.append((st, Enum(ZERO, {0: (okv,)}, c.destty)))
        return out


def rescue_signer(I, st, r):
    if isinstance(r, Ref):
        return repr((r.o, r.p))
    return repr(r)


def or_list(bs):
    r = ZERO
    for b in bs:
        r = or_(r, b)
    return r
