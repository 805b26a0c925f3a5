"""Message decoders and encoders, analysed on their own against the wire layouts."""
import time
from queries import query
from interp import *
from models import *
from view import V, Lost, rope, ropes_equal, any_taint, case
from wire import *
import codec
import wire
from q_endpoint import pkey

NEG = ['GetVersion', 'Version', 'GetCapabilities', 'Capabilities', 'NegotiateAlgorithms', 'Algorithms']
ID = ['GetDigests', 'Digests', 'GetCertificate', 'Certificate', 'Challenge', 'ChallengeAuth']
MEAS = ['GetMeasurements', 'Measurements', 'Error']
USES = {'NegotiateAlgorithms': ['AlgorithmRequest'], 'Algorithms': ['AlgorithmRequest'], 'ChallengeAuth': ['OpaqueData', 'OpaqueElement'],
        'Measurements': ['MeasurementBlocks', 'MeasurementBlock', 'OpaqueData', 'OpaqueElement'],
        'OpaqueData': ['OpaqueElement'], 'MeasurementBlocks': ['MeasurementBlock']}


class Res:
    """what the analysis of one function established"""

    def __init__(self, label):
        self.label = label
        self.obl = []           # (cat, what, res, detail, taint)
        self.panics = {}
        self.sites = 0
        self.und = []
        self.outcomes = 0
        self.c11 = []
        self.fn = None
        self.invmiss = set()

    def want(self, cat, what, res, detail=None, taint=False):
        self.obl.append((cat, what, res, detail, taint))


class Codec:
    def __init__(self, C_, cfg):
        self.prog = C_.prog(cfg)
        self.cfg = cfg
        self.elems = Elems(self.prog)
        self.slots = self.elems.cap('msgs::digest::Digests', 'digests')
        self.nonce = self.noncelen()
        self.memo = {}

    def noncelen(self):
        for t in self.prog.types:
            if t['k'] == 'adt' and (t.get('adt') or '').endswith('nonce::Nonce') and t['kind'] == 'struct':
                fs = t['variants'][0]['fields']
                if fs and self.prog.types[fs[0][1]]['k'] == 'array':
                    return self.prog.types[fs[0][1]]['len']
        return 0

    def decoder(self, name):
        for i, x in enumerate(self.prog.insts):
            if x['local'] and x['blocks'] and x['path'].startswith('msgs::') and x['path'].endswith('::%s::parse_body' % name):
                return i
        return None

    def encoder(self, name):
        best = None
        for i, x in enumerate(self.prog.insts):
            if not x['local'] or not x['blocks'] or x['argc'] != 2:
                continue
            if x['name'] == 'write' and x['path'] == 'msgs::Msg::write':
                t = self.prog.types[x['locals'][1]]
                if t['k'] == 'ref' and self.prog.types[t['to']]['name'].split('::')[-1] == name:
                    return i, 0
            if x['name'] == 'write_body':
                t = self.prog.types[x['locals'][1]]
                if t['k'] == 'ref' and self.prog.types[t['to']]['name'].split('::')[-1] == name:
                    best = (i, 2)
        return best

    def new(self, but=(), merge=None):
        A = codec.Alone(self.prog)
        A.I.nomerge = merge or True
        A.I.MAXSTATES = 4000
        self.elems.install(A.I, but)
        return A

    def panics(self, A, res):
        for k, p in A.I.panics.items():
            res.panics[k] = p
        res.sites += sum(A.I.sites.values()) if A.I.sites else 0
        res.und += [str(k) for k in A.I.undecided]
        res.invmiss |= set(A.I.inv.missing)

    # -- decoders
    def decode(self, name):
        k = ('dec', name)
        if k not in self.memo:
            self.memo[k] = self._decode(name)
        return self.memo[k]

    def _decode(self, name):
        res = Res('decode %s-%s' % (name, self.cfg))
        elem = name in ELEMENTS
        if elem:
            fi = self.elems.fns.get((name, 'read'), (None,))[0]
        else:
            fi = self.decoder(name)
        res.fn = fi
        if fi is None:
            res.want('field', 'function', None, 'no decoder of %s found' % name, True)
            return res
        desc = ELEMENTS[name] if elem else MESSAGES[name][2]
        for pre in self.presplit(name):
            A = self.new((name,))
            f = self.prog.insts[fi]
            st = State()
            args, sizes, buf, start, reader = [], {}, None, ZERO, None
            try:
                for j, ty in enumerate(f['locals'][1:f['argc'] + 1]):
                    t = self.prog.types[ty]
                    v = A.I.sym(ty, 'arg%d' % j, st)
                    args.append(v)
                    ad = (t.get('adt') or '').split('::')[-1]
                    if t['k'] == 'ref' and self.prog.types[t['to']]['k'] == 'slice':
                        buf = v
                    elif t['k'] == 'ref' and (self.prog.types[t['to']].get('adt') or '').endswith('::Reader'):
                        reader = (v, ty)
                        rd = fields(A.I, st, v, ty)
                        buf, start = rd['buf'], st.f.simp(rd['byte_offset'])
                    elif ad == 'DigestSize':
                        sizes['digest_size'] = st.f.simp(v.f[0])
                    elif ad == 'SignatureSize':
                        sizes['signature_size'] = st.f.simp(v.f[0])
                    elif t['k'] == 'bool':
                        sizes['signature_requested'] = v
                if buf is None:
                    raise Lost('buffer argument')
                rbuf = rescue(A.I, st, buf)
                pre = pre(st, rbuf) if callable(pre) else pre
                if pre is not None and any(not st.f.ok(q) for q in pre):
                    continue
                outs = A.I.run(fi, args, st, 0)
            except (Lost, Abort, Split, Give, KeyError, AttributeError) as e:
                res.want('field', 'analysis', None, '%s: %s' % (type(e).__name__, e), True)
                self.panics(A, res)
                continue
            self.panics(A, res)
            for n, (s, r) in enumerate(outs):
                res.outcomes += 1
                s0, r = settled(s, r)
                if s0 is None:
                    continue
                self.decoded(res, A.I, f, s0, r, desc, rbuf, start, sizes, reader)
        return res

    def presplit(self, name):
        if name != 'Digests':
            return [None]

        def mk(m):
            def f(st, b):
                try:
                    return [ge(rlen(b), C(2)), eq(rget(st.f, b, ONE), C(m))]
                except (Split, Give):
                    return []
            return f

        def short(st, b):
            return [lt(rlen(b), C(2))]
        return [short] + [mk(m) for m in range(256)]

    def decoded(self, res, I, f, s, r, desc, rbuf, start, sizes, reader):
        rt = self.prog.types[f['locals'][0]]
        d = s.f.simp(r.d)
        if d.k != 'c':
            for v in (0, 1):
                x = case(s, eq(d, C(v)))
                if x is not None:
                    self.decoded(res, I, f, x, Enum(C(v), r.pl, r.ty), desc, rbuf, start, sizes, reader)
            return
        ok = d.a == 0
        if ok:
            okty = rt['variants'][0]['fields'][0][1]
            view = V(I, s, okty, r.pl[0][0])

        def mk(st):
            c = Coder(self, I, st, 'ok' if ok else 'wf', view.at(st) if ok else None, rbuf, start)
            c.sizes = sizes
            return c
        for c, pb in walk(mk, desc, s):
            for o in (c.obl if c else []):
                res.obl.append(o)
            if ok:
                if isinstance(pb, Lost):
                    res.want('field', 'layout', None, 'not determined: %s' % pb, True)
                elif pb is None and reader is not None:
                    rd = fields(I, c.st, reader[0], reader[1])
                    e = holds(c.st, both2(eq(rd['byte_offset'], c.cur), eq(rd['bit_offset'], ZERO)))
                    res.want('field', 'consumed', e, 'the reader is left at %s, not at %s' % (show(c.st.f.simp(rd['byte_offset'])), show(c.cur)), any_taint(rd['byte_offset']))
                    lo, hi = self.elems.bounds(res.label.split()[1].split('-')[0])
                    sz = sub(c.cur, start)
                    res.want('field', 'size', all3([holds(c.st, ge(sz, C(lo))), holds(c.st, le(sz, C(hi)))]), 'size outside %d..%d' % (lo, hi), any_taint(sz))
            else:
                if pb == 'impossible' or pb == 'excused':
                    res.want('complete', 'rejections', True)
                elif isinstance(pb, Lost):
                    res.want('complete', 'rejections', None, 'not determined: %s' % pb, True)
                else:
                    # the layout ended: a body of exactly that length is well-formed
                    x = case(c.st, eq(c.cur, rlen(rbuf))) if reader is None else case(c.st, le(c.cur, rlen(rbuf)))
                    tn = tainted_state(c.st)
                    res.want('complete', 'rejections', True if x is None else (False if real(x) else None), 'a well-formed message is rejected with %s' % showerr(I, rt, r), tn)

    # -- encoders
    def encode(self, name):
        k = ('enc', name)
        if k not in self.memo:
            self.memo[k] = self._encode(name)
        return self.memo[k]

    def _encode(self, name):
        res = Res('encode %s-%s' % (name, self.cfg))
        elem = name in ELEMENTS
        if elem:
            fi, head = self.elems.fns.get((name, 'write'), (None,))[0], 2
        else:
            fi, head = self.encoder(name) or (None, 0)
        res.fn = fi
        if fi is None:
            res.want('enc', 'function', None, 'no encoder of %s found' % name, True)
            return res
        desc = ELEMENTS[name] if elem else MESSAGES[name][2]
        ver, code = (None, None) if elem else MESSAGES[name][:2]
        for pre in self.esplit(name):
            A = self.new((name,), 'err' if 'Algorithms' in name else None)
            f = self.prog.insts[fi]
            st = State()
            try:
                a = [A.I.sym(ty, 'arg%d' % j, st) for j, ty in enumerate(f['locals'][1:3])]
                mt = self.prog.types[f['locals'][1]]['to']
                msg = V(A.I, st, f['locals'][1], a[0])
                w = None
                if head == 2:
                    w = (a[1], f['locals'][2])
                    wf = fields(A.I, st, a[1], f['locals'][2])
                    buf, start = wf['buf'], st.f.simp(wf['offset'])
                else:
                    buf, start = a[1], ZERO
                before = rescue(A.I, st, buf)
                ps = pre(msg) if pre else []
                if any(not st.f.ok(q) for q in ps):
                    continue
                self.wellformed(name, msg, st)
                outs = A.I.run(fi, a, st, 0)
            except (Lost, Abort, Split, Give, KeyError, AttributeError) as e:
                res.want('enc', 'analysis', None, '%s: %s' % (type(e).__name__, e), True)
                self.panics(A, res)
                continue
            self.panics(A, res)
            for s, r in outs:
                res.outcomes += 1
                s0, r = settled(s, r)
                if s0 is not None:
                    self.encoded(res, A.I, f, s0, r, desc, msg, buf, before, start, w, ver, code, head)
        return res

    def wellformed(self, name, msg, st):
        """documented preconditions of plain message data that an encoder unwraps"""
        if name == 'Digests':
            # a digest is stored for every slot of the mask (the mask is fixed by the case)
            m = msg.at(st).f('slot_mask').num()
            if m.k == 'c':
                for i in range(self.slots):
                    if m.a >> i & 1:
                        w = msg.at(st).f('digests').item(i)
                        st.f.ok(eq(w.disc(), C(w.index('Some'))))
        if name == 'MeasurementBlocks':
            n = msg.at(st).f('len').num()
            for i in range(self.elems.cap('msgs::measurements::MeasurementBlocks', 'blocks')):
                if n.k == 'c' and i < n.a:
                    w = msg.at(st).f('blocks').item(i)
                    st.f.ok(eq(w.disc(), C(w.index('Some'))))
        if name == 'GetMeasurements':
            # private fields: a nonce exists when a signature is requested
            a = msg.at(st).f('attributes').f('signature_requested').num()
            w = msg.at(st).f('nonce')
            st.f.ok(le(a, eq(w.disc(), C(w.index('Some')))))

    def esplit(self, name):
        if name == 'Digests':
            return [(lambda m: lambda v: [eq(v.f('slot_mask').num(), C(m))])(m) for m in range(256)]
        if name in ('NegotiateAlgorithms', 'Algorithms'):
            fs = {'NegotiateAlgorithms': ('num_algorithm_requests', 'algorithm_requests'), 'Algorithms': ('num_algorithm_responses', 'algorithm_responses')}[name]
            cap = self.elems.cap('msgs::algorithms::' + name, fs[1])
            return [(lambda m: lambda v: [eq(v.f(fs[0]).num(), C(m))])(m) for m in range(cap + 1)]
        if name == 'MeasurementBlocks':
            cap = self.elems.cap('msgs::measurements::MeasurementBlocks', 'blocks')
            return [(lambda m: lambda v: [eq(v.f('len').num(), C(m))])(m) for m in range(cap + 1)]
        if name == 'GetMeasurements':
            return [(lambda m: lambda v: [eq(v.f('attributes').f('signature_requested').num(), C(m))])(m) for m in (0, 1)]
        return [None]

    def encoded(self, res, I, f, s, r, desc, msg, buf, before, start, w, ver, code, head):
        rt = self.prog.types[f['locals'][0]]
        d = s.f.simp(r.d)
        if d.k != 'c':
            for v in (0, 1):
                x = case(s, eq(d, C(v)))
                if x is not None:
                    self.encoded(res, I, f, x, Enum(C(v), r.pl, r.ty), desc, msg, buf, before, start, w, ver, code, head)
            return
        ok = d.a == 0
        o, p, s0, n = slref(I, s, buf)
        after = rescue(I, s, buf)
        ret = None
        if ok:
            okty = self.prog.types[rt['variants'][0]['fields'][0][1]]
            if okty['k'] == 'int':
                ret = s.f.simp(r.pl[0][0])
        if ok and head == 0:
            self.prefix(res, s, after, before, ret, n, ver, code)
        if not ok and any(isinstance(e, Call) and e.kind == 'elem_bad' for e in s.ev):
            return

        def mk(st):
            c = Coder(self, I, st, 'enc', msg.at(st), None, start)
            c.sizes = {}
            if head == 0:
                c.put([C(ver), C(code)])
            return c
        for c, pb in walk(mk, desc, s):
            if isinstance(pb, Lost):
                res.want('enc', 'layout', None, 'not determined: %s' % pb, True)
                continue
            if pb is not None:
                continue
            st = c.st
            size = st.f.simp(sub(c.cur, start))
            if not ok:
                x = case(st, ge(n, c.cur))
                res.want('room', 'errors', True if x is None else (False if real(x) else None), 'a well-formed message is refused although it fits: %s' % showerr(I, rt, r), tainted_state(st))
                continue
            if ret is not None:
                res.c11.append(('trunc', 'nothing is left out', holds(st, ge(ret, c.cur)), 'success after %s of %s bytes' % (show(ret), show(c.cur)), any_taint(ret)))
                res.want('enc', 'returned length', holds(st, eq(ret, c.cur)), 'returned %s for %s bytes' % (show(ret), show(c.cur)), any_taint(ret))
            try:
                got = rslice(st.f, rope(st, after), start, size) if size is not ZERO else ()
                r_ = ropes_same(st, got, rope(st, c.out))
                det = 'written %s, the layout has %s' % (showrope(rope(st, got))[:300], showrope(rope(st, c.out))[:300])
            except (Split, Give) as e:
                r_, got, det = None, (), 'not determined: %s' % e
            res.want('enc', 'bytes', r_, det, any_taint(got) or r_ is None and not got)
            if w is not None:
                wf = fields(I, st, w[0], w[1])
                res.c11.append(('trunc', 'nothing is left out', holds(st, ge(wf['offset'], c.cur)), 'success with the writer at %s of %s' % (show(st.f.simp(wf['offset'])), show(c.cur)), any_taint(wf['offset'])))
                res.want('enc', 'written', holds(st, eq(wf['offset'], c.cur)), 'the writer is left at %s, not %s' % (show(st.f.simp(wf['offset'])), show(c.cur)), any_taint(wf['offset']))
                try:
                    a1 = rslice(st.f, rope(st, after), ZERO, start)
                    b1 = rslice(st.f, before, ZERO, start)
                    e = st.f.simp(add(start, size))
                    a2 = rslice(st.f, rope(st, after), e, st.f.simp(sub(n, e)))
                    b2 = rslice(st.f, before, e, st.f.simp(sub(n, e)))
                    q = all3([ropes_same(st, a1, b1), ropes_same(st, a2, b2)])
                except (Split, Give):
                    q = None
                res.c11.append(('rest', 'bytes outside the structure', q, 'bytes outside the structure are changed', q is None))
            self.zeros(res, st, c, after)

    def zeros(self, res, st, c, after):
        """the reserved bytes of the layout are zero in what was written"""
        for off, k in c.zero_at:
            try:
                x = rget(st.f, rope(st, after), off)
            except (Split, Give):
                res.want('zero', 'encoder reserved bytes', None, 'not determined', True)
                continue
            res.want('zero', 'encoder reserved bytes', eq_holds(st, x, ZERO), '%s is written into reserved byte %d' % (show(x), k), any_taint(x))

    def prefix(self, res, s, after, before, n, room, ver, code):
        q = res.c11
        q.append(('in', 'length', holds(s, le(n, room)), 'the returned length %s may exceed the buffer' % show(n), any_taint(n)))
        try:
            got = rslice(s.f, rope(s, after), ZERO, n)
            rest = rslice(s.f, rope(s, after), n, s.f.simp(sub(room, n)))
            was = rslice(s.f, before, n, s.f.simp(sub(room, n)))
            h = [rget(s.f, got, C(i)) for i in range(2)]
        except (Split, Give) as e:
            q.append(('prefix', 'prefix', None, 'not determined: %s' % e, True))
            return
        old = {p[1] for p in before if p[0] == 's'}
        left = [p for p in got if p[0] == 's' and p[1] in old]
        q.append(('prefix', 'written', not left, 'bytes below the returned length are not written: %s' % showrope(got)[:200], any_taint(got)))
        q.append(('rest', 'untouched', ropes_same(s, rest, was), 'bytes past the returned length are changed: %s' % showrope(rest)[:200], any_taint(rest)))
        for x, v, nm in ((h[0], ver, 'version'), (h[1], code, 'code')):
            q.append(('head', nm, eq_holds(s, x, C(v)), '%s byte is %s, not %#x' % (nm, show(x), v), any_taint(x)))

    # -- headers
    def header(self, name):
        k = ('hdr', name)
        if k not in self.memo:
            self.memo[k] = self._header(name)
        return self.memo[k]

    def _header(self, name):
        res = Res('header %s-%s' % (name, self.cfg))
        ver, code = MESSAGES[name][:2]
        fi = None
        for i, x in enumerate(self.prog.insts):
            if x['path'] == 'msgs::Msg::parse_header' and x['blocks'] and x['targs'] and self.prog.types[x['targs'][0]]['name'].split('::')[-1] == name:
                fi = i
        res.fn = fi
        if fi is None:
            return res
        A = codec.Alone(self.prog)
        A.I.nomerge = True
        try:
            pre, a, outs = A.run(fi)
        except (Abort, Split, Give) as e:
            res.want('head', 'analysis', None, str(e), True)
            return res
        self.panics(A, res)
        b = rescue(A.I, pre, a[0])
        for s, r in outs:
            for lo, c1, c0, want in ((1, None, None, 'err'), (0, False, None, 'false'), (0, True, True, 'true'), (0, True, False, 'err')):
                qs = [lt(rlen(b), C(2))] if lo else [ge(rlen(b), C(2))]
                if c1 is not None:
                    e = eq(rget(s.f, b, ONE), C(code))
                    qs.append(e if c1 else not_(e))
                if c0 is not None:
                    e = eq(rget(s.f, b, ZERO), C(ver))
                    qs.append(e if c0 else not_(e))
                x = case(s, *qs)
                if x is None:
                    continue
                d = x.f.simp(r.d)
                got = None
                if d.k == 'c':
                    if d.a == 1:
                        got = 'err'
                    else:
                        t = x.f.simp(r.pl[0][0])
                        got = {0: 'false', 1: 'true'}.get(t.a) if t.k == 'c' else None
                res.want('head', 'header %s' % want, None if got is None else got == want,
                         'header with %s is answered %s, not %s' % ('too few bytes' if lo else 'code %s, version %s' % (c1, c0), got, want), any_taint(r))
        return res


def tainted_state(st):
    return bool(st.taint)


def settled(s, r):
    x = case(s)
    return x, r


def showerr(I, rt, r):
    try:
        e = r.pl[1][0]
        if isinstance(e, Enum):
            t = I.P.types[e.ty]
            d = e.d
            if d.k == 'c':
                return t['variants'][d.a]['name']
        return repr(e)[:80]
    except Exception:
        return 'an error'


def all3(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def ctx(C_, cfg):
    if not hasattr(C_, '_codec'):
        C_._codec = {}
    if cfg not in C_._codec:
        C_._codec[cfg] = Codec(C_, cfg)
    return C_._codec[cfg]


def expand(names):
    out = []
    for n in names:
        for x in [n] + USES.get(n, []):
            if x not in out:
                out.append(x)
    return out


def report(R, res, cats, key=''):
    for cat, what, r, det, taint in res.obl:
        if cat in cats:
            R.check(r, '%s %s %s' % (res.label, cat, what), '%s: %s' % (res.label, what), det, taint)
    R.count('functions analysed')
    R.count('outcomes', res.outcomes)
    if res.und:
        R.und('%s analysis' % res.label, 'parts of the function were not followed', res.und[:3])
    if res.invmiss:
        R.und('%s invariants' % res.label, 'type invariants no longer match', sorted(res.invmiss))


def layout(C_, R, names, cats=('field', 'length', 'range', 'onebit', 'complete', 'enc', 'room', 'head')):
    for cfg in ('c', 'n'):
        K = ctx(C_, cfg)
        for n in expand(names):
            report(R, K.decode(n), cats)
            report(R, K.encode(n), cats)
            if n in MESSAGES:
                report(R, K.header(n), cats)


ALONE = [m for m in MESSAGES]
CODEC_ASSUME = ['no slice is longer than 2^47 bytes (an address-space bound)']
CODEC_TRUST = ['the wire descriptions in analyzer/wire.py (transcribed from DSP0274 and the limits the crate documents)']
ENC_ASSUME = CODEC_ASSUME + ['messages passed to an encoder satisfy their documented shape: counts within their arrays, version nibbles below 16, flag '
                             'fields within the defined bits, a digest / measurement block for every slot / index counted, slot < NUM_SLOTS, '
                             'a nonce in GET_MEASUREMENTS when a signature is requested']


def panics(R, res):
    for k, p in res.panics.items():
        st = p.get('state')
        ok = real(st) if st is not None else True
        R.check(False if ok else None, '%s panic %s' % (res.label, pkey(k)), '%s: a reachable panic' % res.label,
                'call chain %s, condition %s' % (p.get('chain'), p.get('cond')), bool(p.get('taint')))
    R.count('panic sites reached and discharged', res.sites)
    if not res.panics:
        if res.und:
            R.und('%s panics' % res.label, 'parts of the function were not followed', res.und[:3])
        else:
            R.ok('%s panics' % res.label, 'no panic')
    for cat, what, r, det, taint in res.obl:
        if what == 'analysis':
            R.und('%s analysis' % res.label, 'the function could not be followed', det)


@query('C12', 'Dataflow over the type-checked MIR of each encoder and decoder with symbolic bytes: every field read from and '
              'written to exactly the bits the layout assigns, on every path; well-formed messages are never rejected.',
       assume=ENC_ASSUME, trust=CODEC_TRUST)
def c12(C, R):
    layout(C, R, NEG)


@query('C13', 'Dataflow over the type-checked MIR of each encoder and decoder with symbolic bytes: every field read from and '
              'written to exactly the bits the layout assigns, on every path; well-formed messages are never rejected.',
       assume=ENC_ASSUME, trust=CODEC_TRUST)
def c13(C, R):
    layout(C, R, ID)


@query('C14', 'Dataflow over the type-checked MIR of each encoder and decoder with symbolic bytes: every field read from and '
              'written to exactly the bits the layout assigns, on every path; well-formed messages are never rejected.',
       assume=ENC_ASSUME, trust=CODEC_TRUST)
def c14(C, R):
    layout(C, R, MEAS)


@query('C29', 'Dataflow over the type-checked MIR of each decoder with symbolic bytes: on every accepting path the reserved bytes are '
              'proved zero, undefined bits clear and enumerated values in their defined set; on every path of an encoder the '
              'reserved bytes are proved zero.', assume=ENC_ASSUME, trust=CODEC_TRUST)
def c29(C, R):
    layout(C, R, NEG + ID + MEAS, ('zero', 'undef', 'onebit'))


@query('C09', 'Abstract interpretation of every decoder, header check and sub-structure reader over an arbitrary byte string: every '
              'reachable panic site (bounds, overflow, unwrap, assertion, slice copy) is proved unreachable.', assume=CODEC_ASSUME)
def c09(C, R):
    for cfg in ('c', 'n'):
        K = ctx(C, cfg)
        for n in expand(NEG + ID + MEAS):
            panics(R, K.decode(n))
            if n in MESSAGES:
                panics(R, K.header(n))
            R.count('functions analysed')
        from q_chain import chains
        hdr, dec, enc = chains(C, cfg).run_all()
        panics(R, hdr)
        panics(R, dec)


@query('C11', 'Abstract interpretation of every encoder over an arbitrary message and a buffer of arbitrary length and content: no '
              'reachable panic; on success the returned length lies within the buffer and nothing of the layout is left out, exactly that prefix is written and starts with '
              'version and code, the rest is untouched; a buffer-full error only when the layout does not fit.',
       assume=ENC_ASSUME, trust=CODEC_TRUST)
def c11(C, R):
    for cfg in ('c', 'n'):
        K = ctx(C, cfg)
        for n in expand(NEG + ID + MEAS):
            res = K.encode(n)
            panics(R, res)
            report(R, res, ('room',))
            for cat, what, r, det, taint in res.c11:
                R.check(r, '%s %s %s' % (res.label, cat, what), '%s: %s' % (res.label, what), det, taint)
        from q_chain import chains
        res = chains(C, cfg).run_all()[2]
        panics(R, res)
        report(R, res, ('room',))
        for cat, what, r, det, taint in res.c11:
            R.check(r, '%s %s %s' % (res.label, cat, what), '%s: %s' % (res.label, what), det, taint)
