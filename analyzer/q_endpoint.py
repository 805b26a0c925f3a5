"""Endpoint queries: over the outcomes of every entry point from every reachable phase."""
import os, re
from queries import query
from view import *
import proto, endp
from interp import Abort

CFG = {'c': 'crypto', 'n': 'no-crypto'}
TRUST_PRIM = ['the certificate and signature primitives (webpki, ring) are replaced by arbitrary verdicts',
              'decoders and encoders are replaced by contracts that the codec checks (C09, C11-C14, C16, C21, C29) establish']
PEER = ['the public state fields of an endpoint are only set by the library itself',
        'the slots and the root certificate passed to the constructor are arbitrary']

# message -> (version byte, code byte): DSP0274
CODE = {'GetVersion': (0x10, 0x84), 'Version': (0x10, 0x04), 'GetCapabilities': (0x11, 0xE1), 'Capabilities': (0x11, 0x61),
        'NegotiateAlgorithms': (0x11, 0xE3), 'Algorithms': (0x11, 0x63), 'GetDigests': (0x11, 0x81), 'Digests': (0x11, 0x01),
        'GetCertificate': (0x11, 0x82), 'Certificate': (0x11, 0x02), 'Challenge': (0x11, 0x83), 'ChallengeAuth': (0x11, 0x03),
        'GetMeasurements': (0x12, 0xE0), 'Measurements': (0x12, 0x60), 'Error': (0x12, 0x7F)}
NAME = {v: k for k, v in CODE.items()}
REPLY = {'GetVersion': 'Version', 'GetCapabilities': 'Capabilities', 'NegotiateAlgorithms': 'Algorithms', 'GetDigests': 'Digests',
         'GetCertificate': 'Certificate', 'Challenge': 'ChallengeAuth'}
# responder phase -> admitted request -> next phase
ADMIT = {'Version': {'GetVersion': 'Capabilities'},
         'Capabilities': {'GetVersion': 'Capabilities', 'GetCapabilities': 'Algorithms'},
         'Algorithms': {'GetVersion': 'Capabilities', 'NegotiateAlgorithms': 'IdAuth'},
         'IdAuth': {'GetVersion': 'Capabilities', 'GetDigests': 'IdAuth', 'GetCertificate': 'Challenge'},
         'Challenge': {'GetVersion': 'Capabilities', 'Challenge': 'Challenge'},
         'Error': {}}
CERT_BIT, CHAL_BIT, MUT_AUTH_BIT = 1 << 1, 1 << 2, 1 << 8


# ------------------------------------------------------------------ helpers
class Oc:
    """an outcome with typed views"""

    def __init__(self, E, key, entry, o):
        self.E, self.key, self.entry, self.o = E, key, entry, o
        self.st, self.f, self.I = o.st, o.st.f, E.I
        self.taint = bool(o.taint)
        i = E.fn[entry]
        self.rty = E.P.insts[i]['locals'][0]
        self.ret = V(E.I, o.st, self.rty, o.ret)

    # which result
    def result(self):
        """view of the Result"""
        if self.entry == 'handle_msg' and self.E.role == 'responder':
            t = self.ret.t
            return V(self.I, self.st, t['fields'][1], self.o.ret.f[1])
        return self.ret

    def reply(self):
        t = self.ret.t
        return V(self.I, self.st, t['fields'][0], self.o.ret.f[0])

    def ok(self):
        """'Ok' / 'Err' / None"""
        return self.result().variant()

    def phase(self):
        return self.o.phase[0] if self.o.phase else None

    # messages
    def header(self, nm):
        """possible header bytes of the message received"""
        r = self.st.o[('h', nm)].r
        return r, [self.f.values(self.f.simp(rget(self.f, r, C(i))), 300) for i in (0, 1)]

    def received(self, nm):
        """name of the message its header identifies, or a description of what else it may be"""
        r, (a, b) = self.header(nm)
        if self.f.decide(ge(rlen(r), C(2))) is not True:
            return None, 'messages shorter than a header'
        if a is not None and b is not None and len(a) == len(b) == 1:
            k = (next(iter(a)), next(iter(b)))
            if k in NAME:
                return NAME[k], None
            return None, 'header %02x %02x' % k
        return None, 'headers %s / %s' % (sorted(a)[:6] if a is not None and len(a) < 200 else 'any', sorted(b)[:6] if b is not None and len(b) < 200 else 'any')

    def evs(self, kind=None, name=None):
        return [e for e in self.o.ev if isinstance(e, proto.Call) and (kind is None or e.kind == kind) and (name is None or e.name == name)]

    def evview(self, e, st=None):
        v, ty = e.msg, e.d.get('ty')
        return V(self.I, st or self.st, ty, v)

    def rands(self):
        return [e[1] for e in self.o.ev if isinstance(e, tuple) and e[0] == 'rand']

    # endpoint
    def root(self, pre=False, st=None):
        s = self.o.prest if pre else (st or self.st)
        return V(self.I, st or self.st, self.E.ty, s.o[self.E.key])

    def along(self, path, ty, pre=False, st=None):
        v = (self.o.prest if pre else (st or self.st)).o[self.E.key]
        for p in path:
            v = self.I.step(st or self.st, v, p)
        return V(self.I, st or self.st, ty, v)

    def prephase(self, st=None):
        """payload of the phase before, read under the facts of the outcome"""
        s = V(self.I, st or self.st, self.E.sty, self.E.phase_of(self.o.prest, self.o.prest.o[self.E.key])[1])
        return s.pay(self.key[0])

    def postphase(self, st=None):
        s = V(self.I, st or self.st, self.E.sty, self.E.phase_of(self.st, self.st.o[self.E.key])[1])
        return s.pay(self.o.phase[0])

    def tr(self, pre=False, st=None):
        if pre:
            return rope(st or self.st, self.E.transcript(self.o.prest))
        return rope(st or self.st, self.E.transcript(st or self.st))

    def slots(self, st=None):
        return self.along(*self.E.p_slots, pre=True, st=st)

    def label(self):
        w = self.E.role + ' ' + self.key[0]
        if len(self.key) > 1:
            w += ''.join('+' if x == 1 else '-' for x in self.key[1:])
        return w + '.' + self.entry


def tr_label(o):
    return ','.join('%s:%s' % (e.kind, e.name) if isinstance(e, proto.Call) else e[0] for e in o.o.ev) or 'no event'


def ready(C_, R, cfg, role):
    """explored endpoint; problems of the exploration itself are reported as undecided"""
    E = C_.endpoint(cfg, role)
    if E.lost:
        R.und('explore-%s-%s' % (cfg, role), 'a phase could not be determined')
    if E.I.inv.missing:
        R.und('invariants-%s' % cfg, 'types no longer match the invariant table: %s' % sorted(E.I.inv.missing))
    if E.I.undecided:
        R.und('undecided-%s-%s' % (cfg, role), 'paths were given up', str(list(E.I.undecided.items())[:3]))
    for k in E.I.unmodelled:
        R.note('%s %s: %s' % (cfg, role, k))
    return E


def outcomes(C_, R, cfg, role, entry=None):
    E = ready(C_, R, cfg, role)
    R.count('phases of the %s' % role, len(E.order))
    broken = bool(E.I.inv.missing)
    for key in E.order:
        outs = E.phases[key]['outs']
        for name, os in outs.items():
            if entry is not None and name != entry:
                continue
            for o in os:
                x = Oc(E, key, name, o)
                x.cfg = cfg
                if broken:
                    x.taint = True
                R.count('outcomes of %s %s' % (role, name))
                R.cur, R.st = (cfg, role, key), x.st
                yield x
                R.cur = R.st = None


def guarded(R, x, key, fn):
    """run part of a query; a construct that is not where it is expected makes it undecided"""
    try:
        fn()
    except (Lost, Split, Give, endp.Missing, KeyError, IndexError, AttributeError, TypeError) as e:
        R.und('%s %s' % (x.label() if x is not None else '', key), 'not decided: %s: %s' % (type(e).__name__, str(e)[:200]))


def result_known(R, x):
    k = x.ok()
    if k is None:
        R.und('%s result' % x.label(), 'result not determined', tr_label(x))
    return k


def det(x, extra=''):
    return '%s (%s configuration): events %s%s' % (x.label(), CFG[x.cfg], tr_label(x), ('; ' + extra) if extra else '')


def ropeshow(r):
    return showrope(r)[:300]


def one(R, x, evs, what):
    if len(evs) != 1:
        raise Lost('%d %s' % (len(evs), what))
    return evs[0]


# ------------------------------------------------------------------ C01
@query('C01', 'For every path of Responder::handle_msg that returns Ok, from every reachable phase: both header bytes are decided and '
              'belong to a request the phase admits, that request\'s body went through its decoder, the reply starts with the '
              'matching response header and the next phase is the one that follows.', assume=PEER, trust=TRUST_PRIM)
def c01(C_, R):
    for cfg in 'cn':
        seen = set()
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            k = result_known(R, x)
            if k != 'Ok':
                continue

            def go():
                ph = x.key[0]
                nm, why = x.received('req')
                lab = '%s %s' % (ph, cfg)
                if nm is None:
                    R.check(False, '%s accepts' % lab, 'phase %s succeeds on %s' % (ph, why), det(x), x.taint)
                    return
                adm = ADMIT.get(ph)
                if adm is None:
                    raise Lost('phase ' + ph)
                if not R.check(nm in adm, '%s accepts %s' % (lab, nm), 'phase %s admits %s' % (ph, nm), det(x), x.taint):
                    return
                seen.add((ph, nm))
                R.check(x.phase() == adm[nm], '%s %s next' % (lab, nm), 'after %s the phase is %s' % (nm, adm[nm]), det(x, 'next phase %s' % (x.o.phase,)), x.taint)
                want = CODE[REPLY[nm]]
                r = x.reply().bytes()
                n = x.f.decide(ge(rlen(r), C(2)))
                good = n is True and all(x.f.decide(eq(rget(x.f, r, C(i)), C(want[i]))) is True for i in (0, 1))
                R.check(good, '%s %s reply' % (lab, nm), 'the reply to %s is a %s' % (nm, REPLY[nm]), det(x, 'reply ' + ropeshow(r)), x.taint)
                if nm in x.E.K.parse_names():
                    body = rslice(x.f, x.st.o[('h', 'req')].r, C(2), sub(rlen(x.st.o[('h', 'req')].r), C(2)))
                    p = [e for e in x.evs('parse', nm) if ropes_equal(x.st, e.buf, body) is True]
                    R.check(bool(p), '%s %s decoded' % (lab, nm), 'the body of %s is decoded before it is acted upon' % nm, det(x), x.taint)
            guarded(R, x, 'Ok', go)
        for ph, adm in ADMIT.items():
            for nm in adm:
                if cfg == 'n' and nm in ('GetDigests', 'GetCertificate', 'Challenge'):
                    continue
                if (ph, nm) not in seen and not (cfg == 'n' and ph == 'Challenge'):
                    R.und('%s %s never handled-%s' % (ph, nm, cfg), 'no successful path for %s in phase %s' % (nm, ph))


# ------------------------------------------------------------------ C02
@query('C02', 'For every path of Responder::handle_msg on a GET_VERSION header from every live phase: a decoded GET_VERSION fails only if the '
              'reply or transcript does not fit; on success the transcript equals request ++ reply and the phase is the initial '
              'capabilities phase with every remembered value unset. Responder::reset yields the initial phase and an empty transcript.',
       assume=PEER, trust=TRUST_PRIM)
def c02(C_, R):
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'responder'):
            ph = x.key[0]
            if x.entry == 'reset':
                def go():
                    R.check(x.phase() == 'Version', '%s reset phase %s' % (ph, cfg), 'reset from %s returns to the initial phase' % ph, det(x, str(x.o.phase)), x.taint)
                    R.check(x.f.decide(eq(rlen(x.tr()), ZERO)) is True, '%s reset transcript %s' % (ph, cfg), 'reset from %s empties the transcript' % ph, det(x, ropeshow(x.tr())), x.taint)
                guarded(R, x, 'reset', go)
                continue
            if ph == 'Error':
                continue
            k = result_known(R, x)

            def go2():
                nm, why = x.received('req')
                lab = '%s %s' % (ph, cfg)
                if k == 'Ok':
                    if nm != 'GetVersion':
                        return
                    req = x.st.o[('h', 'req')].r
                    want = rnorm(tuple(req) + tuple(x.reply().bytes()), x.f)
                    got = x.tr()
                    R.check(ropes_equal(x.st, got, want) is True, '%s transcript' % lab, 'GET_VERSION in %s leaves request ++ reply in the transcript' % ph,
                            det(x, 'transcript ' + ropeshow(got)), x.taint or any_taint(got))
                    clean = x.o.phase is not None and x.o.phase[0] == 'Capabilities' and all(z == 0 for z in x.o.phase[1:])
                    R.check(clean, '%s forgotten' % lab, 'GET_VERSION in %s leads to the capabilities phase with nothing remembered' % ph, det(x, str(x.o.phase)), x.taint)
                    if clean:
                        p = x.postphase()
                        for fn in p.fields():
                            v = p.f(fn)
                            if v.t.get('adt') == 'core::option::Option':
                                continue
                            fixed = not any(a.k == 'v' for t in terms(v.v) for a in atoms_of(x.f.simp(t)))
                            R.check(fixed, '%s forgotten %s' % (lab, fn), 'field %s does not depend on the connection before' % fn, det(x), x.taint)
                elif k == 'Err' and nm == 'GetVersion' and x.evs('parse', 'GetVersion'):
                    if x.evs('enc_err', 'Version'):
                        R.ok('%s reply buffer too small' % lab, 'fails when VERSION does not fit')
                        return
                    e = x.evs('enc', 'Version')
                    n = rlen(x.st.o[('h', 'req')].r)
                    if e:
                        n = add(n, e[0].size)
                    full = x.f.decide(lt(C(cap(x)), n))
                    R.check(full is True, '%s refused' % lab, 'a decoded GET_VERSION in %s is refused only when it does not fit the transcript' % ph, det(x), x.taint)
            guarded(R, x, 'GetVersion', go2)


def cap(x):
    """capacity of the transcript"""
    t = x.E.P.types[x.E.p_tr[1]]
    for n, ft in t['variants'][0]['fields']:
        u = x.E.P.types[ft]
        if u['k'] == 'array':
            return u['len']
    raise Lost('transcript capacity')


def terms(v):
    if isinstance(v, T):
        yield v
    elif isinstance(v, Agg):
        for y in v.f:
            yield from terms(y)
    elif isinstance(v, Arr):
        for y in v.e:
            yield from terms(y)
    elif isinstance(v, Enum):
        yield v.d
        for p in v.pl.values():
            for y in p:
                yield from terms(y)


# ------------------------------------------------------------------ C03
def sends(x_key, names):
    """request the phase emits; names: the option fields of the phase, in order"""
    ph = x_key[0]
    if ph == 'IdAuth':
        st = dict(zip(names, x_key[1:]))
        if 'digests' not in st:
            raise Lost('digests')
        return {0: 'GetDigests', 1: 'GetCertificate'}.get(st['digests'])
    return {'Version': 'GetVersion', 'Capabilities': 'GetCapabilities', 'Algorithms': 'NegotiateAlgorithms', 'Challenge': 'Challenge'}.get(ph)


def optnames(E, ph):
    vi = E.variants.index(ph)
    out = []
    for n, ft in E.P.types[E.sty]['variants'][vi]['fields']:
        tt = E.P.types[ft]
        if tt['k'] == 'adt' and tt['kind'] == 'struct':
            out += [fn for fn, f2 in tt['variants'][0]['fields'] if E.P.types[f2].get('adt') == 'core::option::Option']
    return out


def bit(x, t, b):
    """True / False / None: bit b of t is set"""
    return x.f.decide(not_(eq(and_(x.f.simp(t), b), ZERO)))


def both_caps(x, st, b):
    """True if both sides advertise the capability, False if one does not, None otherwise"""
    ts = [x.f.simp(st.f(n).some().num()) for n in ('requester_cap', 'responder_cap')]
    s = x.st.clone()
    if not all(s.f.ok(not_(eq(and_(s.f.simp(t), b), ZERO))) for t in ts):
        return False
    for t in ts:
        s = x.st.clone()
        if s.f.ok(eq(and_(s.f.simp(t), b), ZERO)):
            return None
    return True


@query('C03', 'Requester automaton: from every reachable phase every path of next_request that returns Ok encodes exactly the request of that '
              'phase and returns that encoding; every path of handle_msg that returns Ok has both header bytes decided and equal to the '
              'response of the request just sent, decoded its body, and moves to the phase the capability flags of both sides require; '
              'Ok(true) is returned exactly on entering the completed phase, from which no request is emitted.', assume=PEER, trust=TRUST_PRIM)
def c03(C_, R):
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'requester'):
            ph = x.key[0]
            lab = '%s %s' % (x.label(), cfg)
            k = result_known(R, x)

            def go():
                want = sends(x.key, optnames(x.E, ph))
                if want is None and ph not in ('NewSession', 'Error'):
                    raise Lost('request of phase %s' % (x.key,))
                if x.entry == 'next_request':
                    if want is None:
                        R.check(k == 'Err', lab, 'no request is emitted in phase %s' % ph, det(x), x.taint)
                        if k == 'Err' and ph == 'NewSession':
                            R.check(x.result().pay('Err').variant() == 'InitializationComplete', lab + ' error', 'the error says that initialization is complete', det(x), x.taint)
                        return
                    if k != 'Ok':
                        return
                    es = x.evs('enc')
                    R.check(len(es) == 1 and es[0].name == want, lab, 'phase %s emits %s' % (ph, want), det(x), x.taint)
                    if len(es) == 1:
                        r = V(x.I, x.st, x.ret.t['variants'][0]['fields'][0][1], x.o.ret.pl[0][0]).bytes()
                        full = rnorm(x.E.K.encoding(es[0].name, es[0].base, es[0].size), x.f)
                        R.check(ropes_equal(x.st, r, full) is True, lab + ' bytes', 'the request returned is the encoded %s' % want, det(x, ropeshow(r)), x.taint or any_taint(r))
                    R.check(x.o.phase is not None and x.phase() == ph, lab + ' phase', 'emitting a request does not advance the phase', det(x, str(x.o.phase)), x.taint)
                    return
                if k != 'Ok':
                    return
                if want is None:
                    R.check(False, lab, 'no response is accepted in phase %s' % ph, det(x), x.taint)
                    return
                nm, why = x.received('msg')
                if not R.check(nm == REPLY[want], lab + ' accepts', 'only %s is accepted in phase %s' % (REPLY[want], ph), det(x, 'accepts %s' % (nm or why)), x.taint):
                    return
                body = rslice(x.f, x.st.o[('h', 'msg')].r, C(2), sub(rlen(x.st.o[('h', 'msg')].r), C(2)))
                p = [e for e in x.evs('parse', nm) if ropes_equal(x.st, e.buf, body) is True]
                R.check(bool(p), lab + ' decoded', 'the body of %s is decoded' % nm, det(x), x.taint)
                done = x.result().pay('Ok').num()
                d = x.f.decide(eq(done, ONE))
                R.check(d is not None and d == (x.phase() == 'NewSession'), lab + ' complete', 'Ok(true) exactly when initialization is complete', det(x, 'returns %s in %s' % (d, x.o.phase)), x.taint)
                pre = x.prephase()
                nxt = None
                if want == 'GetVersion':
                    nxt = ['Capabilities']
                elif want == 'GetCapabilities':
                    nxt = ['Algorithms']
                elif want == 'NegotiateAlgorithms':
                    c = both_caps(x, pre, CERT_BIT)
                    nxt = None if c is None else ['IdAuth'] if c else ['NewSession']
                elif want == 'GetDigests':
                    nxt = ['IdAuth']
                elif want == 'GetCertificate':
                    c = both_caps(x, pre, CHAL_BIT)
                    nxt = None if c is None else ['Challenge'] if c else ['NewSession']
                else:
                    nxt = ['NewSession']
                R.check(nxt is not None and x.phase() in nxt, '%s next %s' % (lab, x.phase()), 'after %s the requester continues as the capabilities of both sides require' % nm,
                        det(x, 'next %s, required %s' % (x.o.phase, nxt)), x.taint)
                if want == 'GetDigests' and x.phase() == 'IdAuth':
                    s = sends(x.o.phase, optnames(x.E, 'IdAuth'))
                    R.check(s == 'GetCertificate', lab + ' then', 'GET_CERTIFICATE follows DIGESTS', det(x, str(x.o.phase)), x.taint)
                if nxt in (['IdAuth'],) and want == 'NegotiateAlgorithms' and x.phase() == 'IdAuth':
                    s = sends(x.o.phase, optnames(x.E, 'IdAuth'))
                    R.check(s == 'GetDigests', lab + ' then', 'GET_DIGESTS comes first', det(x, str(x.o.phase)), x.taint)
            guarded(R, x, 'requester', go)


# ------------------------------------------------------------------ C04
@query('C04', 'On every path of the requester that returns Ok(true) for a CHALLENGE_AUTH, the facts of the path imply: the slot named is the slot '
              'challenged and is in the mask, the digest equals the negotiated hash of the retrieved chain, the chain parsed is that '
              'chain, the chain-of-trust check of its leaf with its intermediates against the configured root succeeded, and the '
              'signature check of the leaf over the hash of transcript ++ response-without-signature succeeded on the signature of the '
              'response. A path that misses one of the facts is reported.', assume=PEER, trust=TRUST_PRIM)
def c04(C_, R):
    n = 0
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'requester', 'handle_msg'):
            k = result_known(R, x)
            if x.key[0] == 'Challenge' and k == 'Err':
                R.check(x.phase() == 'Error', '%s failed %s' % (x.label(), cfg), 'a failed check ends in the failed phase', det(x, str(x.o.phase)), x.taint)
            if x.key[0] != 'Challenge' and x.phase() == 'NewSession' and k == 'Ok':
                def early():
                    c = both_caps(x, x.prephase(), CHAL_BIT)
                    d = both_caps(x, x.prephase(), CERT_BIT)
                    R.check(c is False or d is False, '%s completes %s' % (x.label(), cfg), 'completion without challenge only when a side does not support it', det(x), x.taint)
                guarded(R, x, 'early', early)
            if k != 'Ok' or x.key[0] != 'Challenge':
                continue
            n += 1

            def go():
                lab = '%s %s' % (x.label(), cfg)
                st, f = x.st, x.f

                def chk(cond, key, what, extra=''):
                    R.check(cond is True, lab + ' ' + key, what, det(x, extra), x.taint)
                pre = x.prephase()
                pes = x.evs('parse', 'ChallengeAuth')
                if not pes:
                    chk(False, 'decode', 'completes only on a decoded CHALLENGE_AUTH')
                    return
                m = x.evview(pes[-1])
                msg = st.o[('h', 'msg')].r
                slot = m.f('slot').num()
                chk(f.decide(eq(slot, pre.f('cert_slot').num())), 'slot', 'the response names the slot that was challenged')
                mask = m.f('slot_mask').num()
                good = True
                for i in range(8):
                    s = case(st, eq(slot, C(i)))
                    if s is None:
                        continue
                    if s.f.decide(not_(eq(and_(s.f.simp(mask), 1 << i), ZERO))) is not True:
                        good = False
                s = st.clone()
                if s.f.ok(ge(slot, C(8))):
                    good = False
                chk(good, 'mask', 'the slot challenged is in the slot mask')
                algs = pre.f('algorithms')
                ha = algs.f('base_hash_algo_selected').num()
                chain = rslice(f, pre.f('cert_chain').bytes(), ZERO, pre.f('cert_chain_size').num())

                def H(data):
                    c = Dig(x, ha, data)
                    return c
                chk(ropes_equal(st, m.f('cert_chain_hash').bytes(), H(chain)), 'digest', 'the response carries the negotiated hash of exactly the chain that was retrieved', ropeshow(H(chain)))
                chk(m.f('cert_chain_hash').f('size').num() is f.simp(H(chain)[0][3]) or f.decide(eq(m.f('cert_chain_hash').f('size').num(), H(chain)[0][3])), 'digest size', 'the digest compared is whole')
                cps = [e for e in x.evs('parse', 'CertificateChain') if ropes_equal(st, e.buf, chain) is True]
                chk(bool(cps), 'chain', 'the chain whose leaf is used is the chain that was retrieved')
                vcs, vss = x.evs('verify_chain'), x.evs('verify_sig')
                chk(bool(vcs), 'trust', 'the chain of trust was validated')
                chk(bool(vss), 'signature', 'the signature was verified')
                if not (cps and vcs and vss):
                    return
                cm = x.evview(cps[-1])
                leaf = cm.f('leaf_cert').bytes()
                root = find_root(x)
                good = False
                ninter = cm.f('num_intermediate_certs').num()
                for e in vcs:
                    arr, s0, ln = e.inter
                    same_i = f.decide(eq(s0, ZERO)) is True and f.decide(eq(ln, ninter)) is True
                    ic = cm.f('intermediate_certs')
                    same_i = same_i and all(ropes_equal(st, arr[i], ic.item(i).bytes()) is True for i in range(len(ic)))
                    if ropes_equal(st, e.cert, leaf) is True and ropes_equal(st, e.root, root) is True and same_i \
                            and same(x.I, st, e.alg, algs.f('base_asym_algo_selected').v) is True:
                        good = True
                chk(good, 'trust of', 'leaf, intermediates and configured root are the ones validated', str([(ropeshow(e.cert), ropeshow(e.root)) for e in vcs]))
                asz = m.f('signature').f('size').num()
                covered = rslice(f, msg, ZERO, sub(rlen(msg), asz))
                want = H(rnorm(tuple(x.tr(pre=True)) + tuple(covered), f))
                good = bad = False
                for e in vss:
                    if f.decide(e.res) is True and ropes_equal(st, e.cert, leaf) is True and ropes_equal(st, e.msg, want) is True \
                            and ropes_equal(st, e.sig, m.f('signature').bytes()) is True and same(x.I, st, e.alg, algs.f('base_asym_algo_selected').v) is True:
                        good = True
                chk(good, 'signature of', 'the leaf verified the response signature over the hash of transcript and response up to the signature',
                    str([(ropeshow(e.cert), ropeshow(e.msg), ropeshow(e.sig), show(e.res)) for e in vss]))
                # the size of the signature is the one of the negotiated algorithm
                ss = sig_sizes(x, algs.f('base_asym_algo_selected').num())
                chk(ss is not None and all(f_.decide(eq(f_.simp(asz), C(n_))) is True for f_, n_ in ss), 'signature size', 'the signature has the size of the negotiated algorithm')
            guarded(R, x, 'authenticated', go)
        if cfg == 'c' and not n:
            R.und('no completion', 'no path completes a challenge')


SIG = {1: 256, 2: 256, 4: 384, 8: 384, 16: 64, 32: 512, 64: 512, 128: 96, 256: 132}
DIG = {1: 32, 2: 48, 4: 64, 8: 32, 16: 48, 32: 64}


def sig_sizes(x, alg):
    """[(facts, size)] for every value the algorithm can have"""
    vs = x.f.values(alg, 64)
    if vs is None:
        return None
    out = []
    for v in vs:
        if v not in SIG:
            return None
        s = x.st.clone()
        if s.f.ok(eq(alg, C(v))):
            out.append((s.f, SIG[v]))
    return out


def Dig(x, alg, data):
    """rope of the digest of data under the algorithm"""
    f = x.f
    t, n = x.E.K.piecewise(x.st, f.simp(alg), {k: C(v) for k, v in DIG.items()}) if f.simp(alg).k != 'c' else (f.simp(alg), C(DIG.get(f.simp(alg).a, 0)))
    data = rope(x.st, data)
    b = mkbase('digest', (t, data), 'H[%s](%s)' % (show(t), showrope(data)[:80]), n)
    return rope(x.st, (('s', b, ZERO, n),))


def find_root(x):
    """the configured root certificate"""
    found = []

    def walk(v):
        if v.t['k'] == 'adt' and v.t['kind'] == 'struct' and v.t['local']:
            for n, (fn, ft) in zip(range(99), v.t['variants'][0]['fields']):
                u = x.E.P.types[ft]
                if u['k'] == 'ref' and x.E.P.types[u['to']]['k'] == 'slice':
                    found.append(v.f(fn).bytes())
                elif u['k'] == 'adt' and u['kind'] == 'struct':
                    walk(v.f(fn))
    walk(x.root(pre=True))
    if len(found) != 1:
        raise Lost('root certificate')
    return found[0]


# ------------------------------------------------------------------ C05, C06
@query('C05', 'On every path of the requester that emits a request or accepts a response, the byte string Transcript::get yields is computed '
              'symbolically and equals old ++ request, respectively old ++ request ++ response, with CHALLENGE_AUTH cut before its '
              'signature of the negotiated algorithm\'s size.', assume=PEER, trust=TRUST_PRIM)
def c05(C_, R):
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'requester'):
            if result_known(R, x) != 'Ok':
                continue

            def go():
                lab = '%s %s' % (x.label(), cfg)
                old = x.tr(pre=True)
                got = x.tr()
                if x.entry == 'next_request':
                    r = V(x.I, x.st, x.ret.t['variants'][0]['fields'][0][1], x.o.ret.pl[0][0]).bytes()
                    want = rnorm(tuple(old) + tuple(r), x.f)
                    good = ropes_equal(x.st, got, want) is True
                    if x.key[0] == 'Version' and not good:
                        want = r
                        good = ropes_equal(x.st, got, want) is True
                    R.check(good, lab, 'the transcript grows by exactly the request emitted', det(x, ropeshow(got)), x.taint or any_taint(got))
                    return
                msg = x.st.o[('h', 'msg')].r
                nm, why = x.received('msg')
                if nm == 'ChallengeAuth':
                    alg = x.prephase().f('algorithms').f('base_asym_algo_selected').num()
                    vs = x.f.values(alg, 64)
                    if vs is None or not vs <= set(SIG):
                        raise Lost('signature algorithm')
                    for v in vs:
                        s = case(x.st, eq(alg, C(v)))
                        if s is None:
                            continue
                        w = rslice(s.f, msg, ZERO, sub(rlen(msg), C(SIG[v])))
                        R.check(ropes_equal(s, x.tr(st=s), rnorm(tuple(rope(s, old)) + tuple(w), s.f)) is True, '%s alg %d' % (lab, v),
                                'the transcript grows by CHALLENGE_AUTH without its signature', det(x, ropeshow(got)), x.taint or any_taint(got))
                    return
                want = rnorm(tuple(old) + tuple(msg), x.f)
                R.check(ropes_equal(x.st, got, want) is True, '%s %s' % (lab, nm), 'the transcript grows by exactly the response accepted', det(x, ropeshow(got)), x.taint or any_taint(got))
            guarded(R, x, 'transcript', go)


@query('C06', 'On every path of the responder that returns Ok, the byte string Transcript::get yields is computed symbolically and equals '
              'old ++ request ++ reply (request ++ reply for GET_VERSION), with CHALLENGE_AUTH cut before its signature; the reply '
              'returned is exactly the encoded message, the trailing signature bytes apart.', assume=PEER, trust=TRUST_PRIM)
def c06(C_, R):
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            if result_known(R, x) != 'Ok':
                continue

            def go():
                nm, why = x.received('req')
                lab = '%s %s %s' % (x.label(), nm, cfg)
                if nm is None:
                    raise Lost('request: ' + why)
                old = () if nm == 'GetVersion' else tuple(x.tr(pre=True))
                req = tuple(x.st.o[('h', 'req')].r)
                rep = x.reply().bytes()
                got = x.tr()
                es = x.evs('enc')
                R.check(len(es) == 1, lab + ' one', 'exactly one message is encoded as reply', det(x), x.taint)
                if not es:
                    return
                e = es[-1]
                full = rnorm(x.E.K.encoding(e.name, e.base, e.size), x.f)
                if e.name == 'ChallengeAuth':
                    n = x.evview(e).f('signature').f('size').num()
                    head = rslice(x.f, rep, ZERO, sub(rlen(rep), n))
                    R.check(x.f.decide(eq(rlen(rep), e.size)) is True and ropes_equal(x.st, head, rslice(x.f, full, ZERO, sub(e.size, n))) is True,
                            lab + ' reply', 'the reply is the encoded message, its signature apart', det(x, ropeshow(rep)), x.taint or any_taint(rep))
                    # the signature size is the one of the negotiated algorithm
                    ss = sig_sizes(x, x.prephase().f('algorithms').f('base_asym_algo_selected').num())
                    R.check(ss is not None and all(f_.decide(eq(f_.simp(n), C(k))) is True for f_, k in ss), lab + ' size', 'the signature has the size of the negotiated algorithm', det(x), x.taint)
                    tail = head
                else:
                    R.check(ropes_equal(x.st, rep, full) is True, lab + ' reply', 'the reply is exactly the encoded message', det(x, ropeshow(rep)), x.taint or any_taint(rep))
                    tail = rep
                want = rnorm(old + req + tuple(tail), x.f)
                R.check(ropes_equal(x.st, got, want) is True, lab, 'the transcript grows by exactly the request and the reply', det(x, ropeshow(got)), x.taint or any_taint(got))
            guarded(R, x, 'transcript', go)


# ------------------------------------------------------------------ slots
def slot_cases(x, slot):
    """[(i, state)] for each slot number the term can be"""
    out = []
    n = len(x.slots())
    for i in range(n):
        s = case(x.st, eq(slot, C(i)))
        if s is not None:
            out.append((i, s))
    s = case(x.st, ge(slot, C(n)))
    if s is not None:
        out.append((None, s))
    return out


def population(x, st):
    """terms: slot i is populated (0/1)"""
    sl = x.slots(st)
    return [sl.item(i).disc() for i in range(len(sl))]


def mask_term(pop):
    m = ZERO
    for i, p in enumerate(pop):
        m = add(m, p, 1 << i)
    return m


def chain_of(x, st, i):
    return x.slots(st).item(i).pay('Some').f('cert_chain')


def is_chain(x, st, r, i):
    """the rope is the whole encoding of the chain in slot i"""
    r = rope(st, r)
    if len(r) != 1 or r[0][0] != 's' or r[0][1].kind != 'chain':
        return False if r and all(p[0] == 's' and p[1].kind in ('chain',) for p in r) else None if any_taint(r) else False
    b = r[0][1]
    if b not in x.E.K.chains:
        return None
    if st.f.decide(eq(r[0][2], ZERO)) is not True or st.f.decide(eq(r[0][3], b.len)) is not True:
        return False
    v, ref = x.E.K.chains[b]
    want = chain_of(x, st, i)
    a = t_map(v, st.f.simp)
    b_ = t_map(want.v, st.f.simp)
    return True if a == b_ else same(x.I, st, a, b_)


def is_digest_of_chain(x, st, r, alg, i):
    """the rope is the whole negotiated digest of the encoding of the chain in slot i"""
    r = rope(st, r)
    if len(r) != 1 or r[0][0] != 's' or r[0][1].kind != 'digest':
        return None if any_taint(r) else False
    b = r[0][1]
    if st.f.decide(eq(r[0][2], ZERO)) is not True or st.f.decide(eq(r[0][3], b.len)) is not True:
        return False
    if st.f.decide(eq(b.key[0], alg)) is not True:
        return False
    return is_chain(x, st, b.key[1], i)


@query('C07', 'On every responder path that returns Ok for a CHALLENGE, case by case over the slot number: the slot is populated, the encoded '
              'CHALLENGE_AUTH has that slot number, the mask of populated slots and the negotiated hash of the encoding of that slot\'s '
              'chain, and asks for mutual authentication exactly when both sides advertised it; the slot\'s own signer was called on the negotiated hash of old transcript ++ request ++ reply up to the signature, '
              'and its result fills exactly the last signature-size bytes of the reply.', assume=PEER, trust=TRUST_PRIM)
def c07(C_, R):
    n = 0
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            if result_known(R, x) != 'Ok' or not (x.evs('enc', 'ChallengeAuth') or x.evs('parse', 'Challenge')):
                continue
            n += 1

            def go():
                lab = '%s %s' % (x.label(), cfg)

                def chk(cond, key, what, extra=''):
                    R.check(cond is True, lab + ' ' + key, what, det(x, extra), x.taint)
                if not x.evs('parse', 'Challenge') or not x.evs('enc', 'ChallengeAuth'):
                    chk(False, 'reply', 'a CHALLENGE is answered with CHALLENGE_AUTH')
                    return
                rq = x.evview(x.evs('parse', 'Challenge')[-1])
                e = x.evs('enc', 'ChallengeAuth')[-1]
                slot = rq.f('slot').num()
                sg = x.evs('sign')
                chk(bool(sg), 'signed', 'the reply is signed')
                if not sg:
                    return
                alg0 = x.prephase().f('algorithms')
                for i, s in slot_cases(x, slot):
                    if i is None:
                        chk(False, 'range', 'an out-of-range slot is not served')
                        continue
                    pop = population(x, s)
                    chk(s.f.decide(eq(pop[i], ONE)), 'populated %d' % i, 'slot %d is served only when it is populated' % i)
                    m = x.evview(e, s)
                    chk(s.f.decide(eq(m.f('slot').num(), C(i))), 'number %d' % i, 'the reply names the slot requested', show(m.f('slot').num()))
                    got = m.f('slot_mask').num()
                    chk(s.f.decide(eq(got, mask_term(pop))), 'mask %d' % i, 'the reply carries the mask of populated slots', show(got))
                    want = both_mut_auth(x, s)
                    for v in (0, 1):
                        s2 = case(s, eq(want, C(v)))
                        if s2 is not None:
                            got = s2.f.simp(x.evview(e, s2).f('use_mutual_auth').num())
                            chk(s2.f.decide(eq(got, C(v))), 'mutual %d' % i, 'mutual authentication is asked for exactly when both sides advertised it', show(got))
                    ha = s.f.simp(alg0.f('base_hash_algo_selected').num())
                    h = m.f('cert_chain_hash').bytes()
                    chk(is_digest_of_chain(x, s, h, ha, i), 'chain %d' % i, 'the reply carries the digest of the chain of slot %d' % i, ropeshow(h))
                    # the signature
                    z = m.f('signature').f('size').num()
                    rep = x.reply().at(s).bytes()
                    full = rnorm(x.E.K.encoding('ChallengeAuth', e.base, e.size), s.f)
                    head = rslice(s.f, full, ZERO, sub(e.size, z))
                    want = Dig2(x, s, ha, rnorm(tuple(x.tr(pre=True, st=s)) + tuple(x.st.o[('h', 'req')].r) + tuple(head), s.f))
                    good = False
                    for g in sg:
                        tail = rslice(s.f, rep, sub(rlen(rep), z), z)
                        whole = rnorm((('s', g.base, ZERO, g.size),), s.f)
                        if ropes_equal(s, g.msg, want) is True and signer_slot(x, s, g) is True and s.f.decide(eq(g.size, z)) is True \
                                and ropes_equal(s, tail, whole) is True:
                            good = True
                    chk(good, 'signature %d' % i, 'the signature is made by the signer of slot %d over the transcript and ends the reply' % i,
                        str([(g.signer, ropeshow(g.msg)) for g in sg]) + ' want ' + ropeshow(want))
            guarded(R, x, 'challenge', go)
        if cfg == 'c' and not n:
            R.und('no challenge', 'no path answers a challenge')


MUT_AUTH_CAP = 1 << 8


def both_mut_auth(x, s):
    """1 if both sides advertised mutual authentication, else 0"""
    pre = x.prephase()
    ts = [not_(eq(and_(s.f.simp(pre.f(n).num()), MUT_AUTH_CAP), ZERO)) for n in ('requester_cap', 'responder_cap')]
    return s.f.simp(and2(s.f.simp(ts[0]), s.f.simp(ts[1])))


def Dig2(x, s, alg, data):
    class Y:
        pass
    y = Y()
    y.f, y.st, y.E = s.f, s, x.E
    return Dig(y, alg, data)


def signer_slot(x, s, g):
    """the signer used belongs to the slot this case is about"""
    sl = x.slots(s)
    o, p = g.ref
    # path: the slots array, an index, Some, slot fields
    base = tuple(x.E.p_slots[0])
    if o != x.E.key or tuple(p[:len(base)]) != base or len(p) <= len(base):
        return None
    ix = p[len(base)]
    if ix[0] != 'i':
        return None
    t = s.f.simp(ix[1]) if isinstance(ix[1], T) else C(ix[1])
    want = s.f.simp(x.evview(x.evs('parse', 'Challenge')[-1], s).f('slot').num())
    return s.f.decide(eq(t, want))


# ------------------------------------------------------------------ C08
@query('C08', 'Every path of handle_msg that returns Err ends in the failed phase; the responder returns with it either an empty slice or exactly '
              'the bytes of one successfully encoded ERROR message; the same for a response no request is outstanding for; from the failed phase every path of every entry point is Err and stays '
              'failed, Responder::reset excepted.', assume=PEER, trust=TRUST_PRIM)
def c08(C_, R):
    for cfg in 'cn':
        for role in ('responder', 'requester'):
            for x in outcomes(C_, R, cfg, role):
                if x.entry == 'reset':
                    continue
                k = result_known(R, x)
                lab = '%s %s' % (x.label(), cfg)

                def go():
                    if x.key[0] == 'Error':
                        R.check(k == 'Err', lab + ' failed', 'nothing succeeds in the failed phase', det(x), x.taint)
                        R.check(x.phase() == 'Error', lab + ' final', 'the failed phase is not left', det(x, str(x.o.phase)), x.taint)
                    if k != 'Err':
                        if x.entry == 'handle_msg':
                            R.check(x.phase() != 'Error', lab + ' ok', 'a success does not end in the failed phase', det(x), x.taint)
                        return
                    if x.entry == 'handle_msg':
                        R.check(x.phase() == 'Error', lab + ' %s' % evkey(x), 'a failure ends in the failed phase', det(x, str(x.o.phase)), x.taint)
                    if role == 'responder':
                        rep = x.reply().bytes()
                        es = x.evs('enc', 'Error')
                        if x.f.decide(eq(rlen(rep), ZERO)) is True:
                            R.check(not es, lab + ' empty %s' % evkey(x), 'the reply is empty only if the ERROR message does not fit', det(x), x.taint)
                            return
                        good = False
                        for e in es:
                            if ropes_equal(x.st, rep, rnorm(x.E.K.encoding('Error', e.base, e.size), x.f)) is True:
                                good = True
                        R.check(good, lab + ' reply %s' % evkey(x), 'the reply is one complete ERROR message', det(x, ropeshow(rep)), x.taint or any_taint(rep))
                guarded(R, x, 'failure', go)
        unsolicited_rule(C_, R, cfg)


def unsolicited_rule(C_, R, cfg):
    """a response handed to a requester that has no request outstanding: if it is refused, it
    is refused for good, like any other"""
    E = ready(C_, R, cfg, 'requester')
    broken = bool(E.I.inv.missing)
    for key in E.order:
        if key[0] in ('Error', 'NewSession'):
            continue
        R.cur = (cfg, 'requester', key)
        try:
            outs = E.unsolicited(key, E.phases[key]['D'])
        except (Lost, Split, Give, Abort, endp.Missing) as e:
            R.und('unsolicited %s %s' % (key, cfg), 'not decided: %s: %s' % (type(e).__name__, str(e)[:200]))
            continue
        for o in outs:
            x = Oc(E, key, 'handle_msg', o)
            x.cfg = cfg
            if broken:
                x.taint = True
            R.count('outcomes of unsolicited responses')
            R.cur, R.st = (cfg, 'requester', key), x.st

            def go():
                k = result_known(R, x)
                lab = '%s unsolicited %s' % (x.label(), cfg)
                if k == 'Err':
                    R.check(x.phase() == 'Error', lab + ' ' + evkey(x), 'refusing a response nobody asked for ends in the failed phase', det(x, str(x.o.phase)), x.taint)
                elif k == 'Ok' and x.phase() is not None:
                    R.check(x.phase() != 'Error', lab + ' ok', 'a success does not end in the failed phase', det(x), x.taint)
            guarded(R, x, 'unsolicited', go)
        R.cur = R.st = None


def evkey(x):
    return '/'.join('%s:%s' % (e.kind, e.name) for e in x.evs()) or 'header'


# ------------------------------------------------------------------ C28
@query('C28', 'Every path of RequesterInit::next_request that returns Err leaves the bytes Transcript::get yields and the kind of the phase '
              'unchanged, and next_request has a successful path from the resulting phase. Transcript::extend either fails leaving '
              'the contents unchanged or appends the whole argument, and the length never exceeds the capacity.',
       assume=PEER + ['the message prepared for emission may already be remembered when the transcript is full'], trust=TRUST_PRIM)
def c28(C_, R):
    for cfg in 'cn':
        oks = set()
        for x in outcomes(C_, R, cfg, 'requester', 'next_request'):
            if x.ok() == 'Ok':
                oks.add(x.key)
        for x in outcomes(C_, R, cfg, 'requester', 'next_request'):
            if result_known(R, x) != 'Err':
                continue

            def go():
                lab = '%s %s %s' % (x.label(), cfg, evkey(x))
                R.check(ropes_equal(x.st, x.tr(), x.tr(pre=True)) is True, lab + ' transcript', 'a request that cannot be emitted leaves the transcript unchanged',
                        det(x, ropeshow(x.tr())), x.taint)
                R.check(x.phase() == x.key[0], lab + ' phase', 'a request that cannot be emitted leaves the phase unchanged', det(x, str(x.o.phase)), x.taint)
                if x.key[0] not in ('NewSession', 'Error'):
                    R.check(x.o.phase in oks, lab + ' retry', 'the request can be emitted later', det(x, str(x.o.phase)), x.taint)
                    if x.key[0] == 'IdAuth':
                        n = optnames(x.E, 'IdAuth')
                        R.check(sends(x.o.phase, n) == sends(x.key, n), lab + ' same', 'the same request is due', det(x), x.taint)
                    pre, post = x.prephase(), x.postphase()
                    for fn in pre.fields():
                        a, b = pre.f(fn), post.f(fn)
                        if a.t.get('adt') == 'core::option::Option':
                            continue
                        R.check(a.same(b) is True, lab + ' ' + fn, 'field %s is unchanged' % fn, det(x), x.taint)
            guarded(R, x, 'failed emission', go)
        extend_rule(C_, R, cfg)


def extend_rule(C_, R, cfg):
    from interp import Interp
    P = C_.prog(cfg)
    is_ = P.find('transcript::Transcript::extend')
    gs = P.find('transcript::Transcript::get')
    if not is_ or not gs:
        R.und('extend-%s' % cfg, 'Transcript::extend not found')
        return
    I = Interp(P, Models())
    x = P.insts[is_[0]]
    st = State()
    tty = P.types[x['locals'][1]]['to']
    st.o[('h', 't')] = I.sym(tty, 't', st)
    dat = I.sym(x['locals'][2], 'd', st)
    capn = [P.types[ft]['len'] for n, ft in P.types[tty]['variants'][0]['fields'] if P.types[ft]['k'] == 'array']

    def get(s):
        s = s.clone()
        (s2, r), = I.run(gs[0], [Ref(('h', 't'))], s, 40)
        return rope(s2, I.deref(s2, r).r)
    old = get(st)
    d = rope(st, I.deref(st, dat).r)
    try:
        outs = I.run(is_[0], [Ref(('h', 't')), dat], st.clone(), 0)
        for i, (s, v) in enumerate(outs):
            r = V(I, s, x['locals'][0], v)
            k = r.variant()
            got = get(s)
            if k == 'Err':
                R.check(ropes_equal(s, got, old) is True, 'extend-%s failure' % cfg, 'a failed append leaves the transcript unchanged', ropeshow(got), bool(s.taint))
                R.check(len(capn) == 1 and s.f.decide(lt(C(capn[0]), add(rlen(old), rlen(d)))) is True, 'extend-%s fails' % cfg, 'an append fails only when it does not fit', None, bool(s.taint))
            elif k == 'Ok':
                R.check(ropes_equal(s, got, rnorm(tuple(old) + tuple(d), s.f)) is True, 'extend-%s success' % cfg, 'a successful append adds the whole argument', ropeshow(got), bool(s.taint))
                R.check(len(capn) == 1 and s.f.decide(le(rlen(got), C(capn[0]))) is True, 'extend-%s capacity' % cfg, 'the transcript never exceeds its capacity', None, bool(s.taint))
            else:
                R.und('extend-%s' % cfg, 'result of extend not determined')
        for k, p in I.panics.items():
            R.bad('extend-%s panic' % cfg, 'Transcript::extend can panic', str(k))
    except (Lost, Split, Give, ValueError) as e:
        R.und('extend-%s' % cfg, 'not decided: %s' % e)


# ------------------------------------------------------------------ C10
@query('C10', 'Reachability of panics: every assertion, bounds check, overflow check, unwrap and explicit panic met by abstract interpretation '
              'of the constructors and entry points of both endpoints, from every reachable phase with arbitrary arguments, is proved '
              'unreachable, in both configurations; the decoders and encoders the endpoints call are analysed on their own the same way.',
       assume=PEER + ['a requester alternates next_request and handle_msg'], trust=['the certificate and signature primitives (webpki, ring) do not panic'])
def c10(C_, R):
    for cfg in 'cn':
        for role in ('responder', 'requester'):
            E = ready(C_, R, cfg, role)
            panics_of(R, E.I, '%s %s' % (cfg, role))
            R.count('statements interpreted', E.I.nstmt)
            R.count('phases', len(E.order))
            R.count('panic sites met', sum(E.I.sites.values()) if E.I.sites else 0)


def panics_of(R, I, lab):
    for k, p in I.panics.items():
        R.check(False, '%s panic %s' % (lab, pkey(k)), 'a reachable panic: %s' % (pkey(k),), str(p)[:500], bool(p.get('taint')))
    R.ok('%s panics' % lab, 'every panic site met is unreachable (%s)' % (sum(I.sites.values()) if I.sites else 0))


def pkey(k):
    return ' '.join(str(z) for z in k) if isinstance(k, tuple) else str(k)
