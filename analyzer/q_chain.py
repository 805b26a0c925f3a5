"""Certificate chains: tiling of the input, DER headers, encoding."""
from queries import query
from interp import *
from models import *
from wire import *
from view import V, Lost, rope, any_taint, case
from proto import Call
from q_codec import Codec, Res, ctx, report, panics, settled, CODEC_ASSUME, ENC_ASSUME
import codec

NAME = 'CertificateChain'
ADT = 'msgs::certificates::CertificateChain'


def find(prog, name):
    for i, x in enumerate(prog.insts):
        if x['local'] and x['blocks'] and re.match(r'msgs::certificates::CertificateChain(::<.*>)?::%s$' % name, x['path']):
            return i
    return None


def header_hook(I, st, a, c):
    """read_cert_size: (content length, header size) of a minimal definite DER sequence header"""
    rt = I.P.types[c.destty]
    if rt.get('adt') != 'core::result::Result' or len(a) != 1:
        return None
    okty = rt['variants'][0]['fields'][0][1]
    t = I.P.types[okty]
    if t['k'] != 'tuple' or len(t['fields']) != 2 or any(I.P.types[x]['k'] != 'int' for x in t['fields']):
        return None
    rd = fields(I, st, a[0], c.argtys[0])
    if rd is None or st.f.decide(eq(rd['bit_offset'], ZERO)) is not True:
        return None
    o, p, s0, n = slref(I, st, rd['buf'])
    off = st.f.simp(rd['byte_offset'])
    out = []
    e = st.clone()
    nm = 'cert@%s' % show(off)
    eoff = var('off!' + nm, 0, 1 << 47)
    if e.f.ok(ge(eoff, off)) and e.f.ok(le(eoff, n)):
        setf(I, e, a[0], c.argtys[0], 'byte_offset', eoff)
        e.ev = e.ev + (Call('cert_err', nm, off=off),)
        out.append((e, Enum(ONE, {1: (I.sym(rt['variants'][1]['fields'][0][1], 'err:' + nm, e),)}, c.destty)))
    ln, hd = nvar('len:' + nm, 0, 65535), nvar('hdr:' + nm, 2, 4)
    if st.f.ok(le(add(off, hd), n)):
        setf(I, st, a[0], c.argtys[0], 'byte_offset', st.f.simp(add(off, hd)))
        st.ev = st.ev + (Call('cert', nm, off=off, len=ln, hdr=hd),)
        out.append((st, Enum(ZERO, {0: (Agg((ln, hd)),)}, c.destty)))
    return out


def skip_hook(I, st, a, c):
    """skip_ignored: n bytes further when they are there"""
    rt = I.P.types[c.destty]
    if rt.get('adt') != 'core::result::Result' or len(a) != 2 or not isinstance(a[1], T):
        return None
    rd = fields(I, st, a[0], c.argtys[0])
    if rd is None or st.f.decide(eq(rd['bit_offset'], ZERO)) is not True:
        return None
    o, p, s0, n = slref(I, st, rd['buf'])
    off, k = st.f.simp(rd['byte_offset']), st.f.simp(a[1])
    end = add(off, k)
    out = []
    e = st.clone()
    if e.f.ok(lt(n, end)):
        eoff = var('off!skip', 0, 1 << 47)
        if e.f.ok(ge(eoff, off)) and e.f.ok(le(eoff, n)):
            setf(I, e, a[0], c.argtys[0], 'byte_offset', eoff)
            out.append((e, Enum(ONE, {1: (I.sym(rt['variants'][1]['fields'][0][1], 'err:skip', e),)}, c.destty)))
    if st.f.ok(le(end, n)):
        setf(I, st, a[0], c.argtys[0], 'byte_offset', st.f.simp(end))
        out.append((st, Enum(ZERO, {0: (Agg(()),)}, c.destty)))
    return out


def chain(c):
    cap = c.P.elems.cap(ADT, 'intermediate_certs')
    if not c.dec:
        c.total(2, 0, 65535)
        c.z(2)
        c.raw('root_hash')
        n = c.at('num_intermediate_certs').num()
        if n.k != 'c':
            raise Fork([eq(n, C(i)) for i in range(cap + 1)])
        for i in range(n.a):
            c.raw('intermediate_certs[%d]' % i)
        c.raw('leaf_cert')
        return
    c.room(2)
    t = c.st.f.simp(from_le(c.bytes(2)))
    end = rlen(c.buf)
    if c.mode == 'ok':
        c.want('field', 'length', holds(c.st, eq(t, end)), 'a length field other than the length of the input is accepted', any_taint(t))
    else:
        c.assume(eq(t, end))
    c.z(2)
    c.raw('root_hash', c.sizes['digest_size'])
    evs = [e for e in c.st.ev if isinstance(e, Call) and e.kind in ('cert', 'cert_err')]
    certs = []
    for e in evs:
        if e.kind == 'cert_err':
            if c.mode == 'ok':
                raise Lost('a malformed header is tolerated')
            if c.st.f.decide(eq(e.off, c.cur)) is True:
                raise Excused()
            raise Lost('header at %s' % show(e.off))
        if c.mode == 'ok':
            c.want('field', 'next certificate', holds(c.st, eq(e.off, c.cur)), 'a certificate is taken at %s, the previous one ends at %s' % (show(e.off), show(c.cur)), any_taint(e.off))
        elif c.st.f.decide(eq(e.off, c.cur)) is not True:
            raise Lost('header at %s' % show(e.off))
        size = add(e.hdr, e.len)
        c.room(size)
        certs.append((c.cur, size))
        c.cur = c.st.f.simp(add(c.cur, size))
    if c.mode == 'ok':
        tile(c, certs, cap)
        return
    d = c.st.f.decide(eq(c.cur, end))
    if d is None:
        raise Fork([eq(c.cur, end), ge(end, add(c.cur, C(2)))])
    if d:
        if not certs or len(certs) - 1 > cap:
            raise Impossible()
        return
    c.assume(ge(end, add(c.cur, C(2))))
    if len(certs) - 1 >= cap:
        raise Impossible()
    c.cur = end


def tile(c, certs, cap):
    end = rlen(c.buf)
    if not certs:
        raise Lost('no certificate header is read')
    c.want('length', 'tiling', holds(c.st, eq(c.cur, end)), 'the certificates end at %s of %s' % (show(c.cur), show(end)), any_taint(c.cur))
    c.want('range', 'depth', len(certs) - 1 <= cap, 'more certificates than the depth supported')
    n = c.at('num_intermediate_certs').num()
    c.want('field', 'intermediate certificates', eq_holds(c.st, n, C(len(certs) - 1)), '%s intermediate certificates of %d' % (show(n), len(certs) - 1), any_taint(n))
    for i, (off, size) in enumerate(certs):
        path = 'leaf_cert' if i == len(certs) - 1 else 'intermediate_certs[%d]' % i
        w = rslice(c.st.f, c.buf, off, c.st.f.simp(size))
        x = c.at(path).bytes()
        c.want('field', path, ropes_same(c.st, x, w), '%s is %s, the message has %s' % (path, showrope(x), showrope(w)), any_taint(x) or any_taint(w))


def der(c, certs=None):
    """the certificates of a result, without a contract of the header reader: consecutive DER sequences"""
    cap = c.P.elems.cap(ADT, 'intermediate_certs')
    c.room(2)
    t = c.st.f.simp(from_le(c.bytes(2)))
    end = rlen(c.buf)
    c.want('field', 'length', holds(c.st, eq(t, end)), 'a length field other than the length of the input is accepted', any_taint(t))
    c.z(2)
    c.raw('root_hash', c.sizes['digest_size'])
    n = c.at('num_intermediate_certs').num()
    if n.k != 'c':
        raise Fork([eq(n, C(i)) for i in range(cap + 1)])
    for i in range(n.a + 1):
        path = 'leaf_cert' if i == n.a else 'intermediate_certs[%d]' % i
        b = [rget(c.st.f, c.buf, add(c.cur, C(k))) for k in range(2)]
        c.want('der', 'tag', eq_holds(c.st, b[0], C(0x30)), 'a certificate that is no DER sequence is accepted', any_taint(b[0]))
        form = c.st.f.simp(b[1])
        lt128 = c.st.f.decide(lt(form, C(128)))
        if lt128 is None:
            raise Fork([lt(form, C(128)), eq(form, C(0x81)), eq(form, C(0x82)), and2b(ge(form, C(128)), not_(in_set(form, [0x81, 0x82])))])
        if lt128:
            size = add(form, C(2))
        elif form.k != 'c':
            c.want('der', 'length form', False if real(c.st) else None, 'an unsupported length form is accepted', any_taint(form))
            return
        else:
            k = form.a - 0x80
            bs = [rget(c.st.f, c.buf, add(c.cur, C(2 + j))) for j in range(k)]
            v = c.st.f.simp(from_le(bs[::-1]))
            lo = 128 if k == 1 else 256
            c.want('der', 'minimal length', holds(c.st, ge(v, C(lo))), 'a length that is not minimal is accepted', any_taint(v))
            size = addn(v, C(2 + k))
        w = rslice(c.st.f, c.buf, c.cur, c.st.f.simp(size))
        x = c.at(path).bytes()
        c.want('field', path, ropes_same(c.st, x, w), '%s is %s, the message has %s' % (path, showrope(x), showrope(w)), any_taint(x) or any_taint(w))
        c.cur = c.st.f.simp(add(c.cur, size))
    c.want('length', 'tiling', holds(c.st, eq(c.cur, end)), 'the certificates end at %s of %s' % (show(c.cur), show(end)), any_taint(c.cur))


class Chain(Codec):
    """the codec analysis for certificate chains"""

    def __init__(self, C_, cfg):
        Codec.__init__(self, C_, cfg)
        self.hdr = find(self.prog, 'read_cert_size')
        self.contract = False
        self.skip = [i for i, x in enumerate(self.prog.insts) if x['local'] and x['blocks'] and re.match(r'msgs::encoding::Reader(::<.*>)?::skip_ignored$', x['path'])]
        self.skips = len(self.skip) == 1 and self.skip_ok(self.skip[0])

    def skip_ok(self, fi):
        """the contract of skip_ignored, established on its own"""
        A = codec.Alone(self.prog)
        A.I.nomerge = True
        f = self.prog.insts[fi]
        st = State()
        try:
            if f['argc'] != 2:
                return False
            a = [A.I.sym(ty, 'arg%d' % j, st) for j, ty in enumerate(f['locals'][1:3])]
            rd = fields(A.I, st, a[0], f['locals'][1])
            st.f.ok(eq(rd['bit_offset'], ZERO))
            off, n = st.f.simp(rd['byte_offset']), rlen(rescue(A.I, st, rd['buf']))
            end = add(off, a[1])
            for s, r in A.I.run(fi, a, st, 0):
                d = s.f.simp(r.d)
                r2 = fields(A.I, s, a[0], f['locals'][1])
                if d.k != 'c' or any_taint(r2['byte_offset']) or s.taint:
                    return False
                if d.a == 0:
                    if s.f.decide(eq(r2['byte_offset'], end)) is not True or s.f.decide(le(end, n)) is not True or s.f.decide(eq(r2['bit_offset'], ZERO)) is not True:
                        return False
                elif case(s, le(end, n)) is not None or s.f.decide(ge(r2['byte_offset'], off)) is not True or s.f.decide(le(r2['byte_offset'], n)) is not True or s.f.decide(eq(r2['bit_offset'], ZERO)) is not True:
                    return False
        except (Lost, Abort, Split, Give, KeyError, AttributeError, TypeError):
            return False
        return not A.I.panics and not A.I.undecided

    def decoder(self, name):
        return find(self.prog, 'parse')

    def encoder(self, name):
        i = find(self.prog, 'write')
        return None if i is None else (i, 2)

    def new(self, but=(), merge=None):
        A = Codec.new(self, but, merge)
        if self.skips:
            A.I.hooks[self.prog.insts[self.skip[0]]['path']] = skip_hook
        if self.contract:
            A.I.hooks[self.prog.insts[self.hdr]['path']] = header_hook
        return A

    def esplit(self, name):
        cap = self.elems.cap(ADT, 'intermediate_certs')
        return [(lambda m: lambda v: [eq(v.f('num_intermediate_certs').num(), C(m))])(m) for m in range(cap + 1)]

    def wellformed(self, name, msg, st):
        pass

    # -- the header reader
    def header(self, name=None):
        if 'hdr' not in self.memo:
            self.memo['hdr'] = self._hdr()
        return self.memo['hdr']

    def _hdr(self):
        res = Res('certificate header-%s' % self.cfg)
        res.fn = self.hdr
        if self.hdr is None:
            return res
        A = Codec.new(self)
        f = self.prog.insts[self.hdr]
        st = State()
        try:
            a = [A.I.sym(ty, 'arg%d' % j, st) for j, ty in enumerate(f['locals'][1:f['argc'] + 1])]
            rd = fields(A.I, st, a[0], f['locals'][1])
            st.f.ok(eq(rd['bit_offset'], ZERO))
            buf, start = rescue(A.I, st, rd['buf']), st.f.simp(rd['byte_offset'])
            outs = A.I.run(self.hdr, a, st, 0)
        except (Lost, Abort, Split, Give, KeyError, AttributeError, TypeError) as e:
            res.want('der', 'analysis', None, '%s: %s' % (type(e).__name__, e), True)
            return res
        self.panics(A, res)
        for s, r in outs:
            res.outcomes += 1
            s, r = settled(s, r)
            if s is not None:
                self.hdr_case(res, A.I, s, r, buf, start, a[0], f['locals'][1])
        return res

    def hdr_case(self, res, I, s, r, buf, start, reader, rty):
        n = rlen(buf)

        def cases(st, qs):
            """the cases of a header; None: malformed"""
            for what, conds in qs:
                x = case(st, *conds)
                if x is not None:
                    yield what, x
        d = s.f.simp(r.d)
        if d.k != 'c':
            for v in (0, 1):
                x = case(s, eq(d, C(v)))
                if x is not None:
                    self.hdr_case(res, I, x, Enum(C(v), r.pl, r.ty), buf, start, reader, rty)
            return

        def at(k):
            return rget(s.f, buf, add(start, C(k)))

        def room(k):
            return ge(n, add(start, C(k)))
        try:
            b = [at(k) for k in range(4)]
        except (Split, Give) as e:
            res.want('der', 'bytes', None, str(e), True)
            return
        v2 = add(mulc(b[2], 256), b[3])
        seq = eq(b[0], C(0x30))
        good = [((2, b[1]), [room(2), seq, lt(b[1], C(128))]),
                ((3, b[2]), [room(3), seq, eq(b[1], C(0x81)), ge(b[2], C(128))]),
                ((4, v2), [room(4), seq, eq(b[1], C(0x82)), ge(v2, C(256))])]
        if d.a == 1:
            for what, x in cases(s, good):
                res.want('der', 'rejections', False if real(x) else None, 'a minimal length of %d header bytes is refused' % what[0], tainted(x))
            res.want('der', 'rejections', True)
            return
        bad = [('an input that ends within the header', [lt(n, add(start, C(2)))]),
               ('a tag that is no sequence', [room(2), not_(seq)]),
               ('an input that ends within the header', [room(2), seq, eq(b[1], C(0x81)), lt(n, add(start, C(3)))]),
               ('an input that ends within the header', [room(2), seq, eq(b[1], C(0x82)), lt(n, add(start, C(4)))]),
               ('a length that is not minimal', [room(3), seq, eq(b[1], C(0x81)), lt(b[2], C(128))]),
               ('a length that is not minimal', [room(4), seq, eq(b[1], C(0x82)), lt(v2, C(256))]),
               ('an unsupported length form', [room(2), seq, ge(b[1], C(128)), not_(in_set(b[1], [0x81, 0x82]))])]
        for what, x in cases(s, bad):
            res.want('der', what, False if real(x) else None, '%s is accepted' % what, tainted(x))
        for what in {w for w, _ in bad}:
            res.want('der', what, True)
        for (h, v), x in cases(s, good):
            pr = r.pl[0][0]
            rd = fields(I, x, reader, rty)
            if not isinstance(pr, Agg) or len(pr.f) != 2:
                res.want('contract', 'shape', None, 'another result', True)
                continue
            res.want('contract', 'length', eq_holds(x, pr.f[0], v), 'the length is %s, not %s' % (show(pr.f[0]), show(v)), any_taint(pr))
            res.want('contract', 'header size', eq_holds(x, pr.f[1], C(h)), 'the header size is %s, not %d' % (show(pr.f[1]), h), any_taint(pr))
            res.want('contract', 'position', holds(x, and2b(eq(rd['byte_offset'], add(start, C(h))), eq(rd['bit_offset'], ZERO))),
                     'the reader is left at %s' % show(rd['byte_offset']), any_taint(rd['byte_offset']))

    def run_all(self):
        if 'all' in self.memo:
            return self.memo['all']
        hdr = self.header()
        cs = [o for o in hdr.obl if o[0] == 'contract']
        self.contract = bool(cs) and all(o[2] is True for o in cs) and not any(o[1] == 'analysis' for o in hdr.obl)
        if self.contract:
            MESSAGES[NAME] = (None, None, chain)
        else:
            MESSAGES[NAME] = (None, None, lambda c: der(c) if c.mode == 'ok' else (_ for _ in ()).throw(Lost('rejections are not judged')) if c.dec else chain(c))
        try:
            dec, enc = self.decode(NAME), self.encode(NAME)
        finally:
            del MESSAGES[NAME]
        self.memo['all'] = (hdr, dec, enc)
        return hdr, dec, enc


def tainted(st):
    return bool(st.taint)


def chains(C_, cfg):
    if not hasattr(C_, '_chain'):
        C_._chain = {}
    if cfg not in C_._chain:
        C_._chain[cfg] = Chain(C_, cfg)
    return C_._chain[cfg]


@query('C21', 'Dataflow over the type-checked MIR of the chain decoder and encoder: the header reader accepts exactly the minimal '
              'definite DER sequence headers; on every accepting path the length field equals the input length and root hash, '
              'intermediate and leaf slices tile the input in order; well-formed chains within the depth are never rejected; the '
              'encoder writes the same layout.', assume=ENC_ASSUME)
def c21(C, R):
    for cfg in ('c', 'n'):
        K = chains(C, cfg)
        hdr, dec, enc = K.run_all()
        report(R, hdr, ('der',))
        report(R, dec, ('field', 'length', 'range', 'zero', 'complete', 'der'))
        report(R, enc, ('enc', 'zero', 'room'))
