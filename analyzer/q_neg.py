"""Queries about what is negotiated, advertised, served and reported."""
import os, re
from queries import query
from view import *
from q_endpoint import *
import proto, endp

REPO = os.environ.get('SPDM_REPO', '/repo')

# DSP0274 tables
REQ_CAP = {'CERT_CAP': 1, 'CHAL_CAP': 2, 'ENCRYPT_CAP': 6, 'MAC_CAP': 7, 'MUT_AUTH_CAP': 8, 'KEY_EX_CAP': 9, 'PSK_CAP': 10, 'ENCAP_CAP': 12,
           'HBEAT_CAP': 13, 'KEY_UPD_CAP': 14, 'HANDSHAKE_IN_THE_CLEAR_CAP': 15, 'PUB_KEY_ID_CAP': 16}
RSP_CAP = dict(REQ_CAP, CACHE_CAP=0, MEAS_FRESH_CAP=5)
ASYM = {'RSASSA_2048': 0, 'RSAPSS_2048': 1, 'RSASSA_3072': 2, 'RSAPSS_3072': 3, 'ECDSA_ECC_NIST_P256': 4, 'RSASSA_4096': 5, 'RSAPSS_4096': 6,
        'ECDSA_ECC_NIST_P384': 7, 'ECDSA_ECC_NIST_P521': 8}
HASH = {'SHA_256': 0, 'SHA_384': 1, 'SHA_512': 2, 'SHA3_256': 3, 'SHA3_384': 4, 'SHA3_512': 5}


def single(v):
    return v > 0 and v & (v - 1) == 0


def chosen(R, x, st, sel, offered, lab, what, supported=None):
    """the selection is exactly one bit out of those offered (and supported)"""
    f = st.f
    sel, offered = f.simp(sel), f.simp(offered)
    vs = f.values(sel, 600)
    if vs is None:
        # not enumerable: try to prove it directly
        R.check(None if any_taint(sel) else False, lab, what, det(x, 'selects %s of %s' % (show(sel), show(offered))), x.taint)
        return
    good, why = True, None
    for v in sorted(vs):
        s = case(st, eq(sel, C(v)))
        if s is None:
            continue
        if not single(v):
            good, why = False, 'selection %#x' % v
        elif s.f.decide(not_(eq(and_(s.f.simp(offered), v), ZERO))) is not True:
            good, why = False, 'selection %#x not known to be offered (%s)' % (v, show(offered))
        elif supported is not None and not v & supported:
            good, why = False, 'selection %#x not supported (%#x)' % (v, supported)
    R.check(good, lab, what, det(x, '%s: %s' % (why, show(sel))), x.taint or any_taint(sel))


def structs(x, st, arr, i):
    """(variants possible, view) of algorithm structure i"""
    return arr.at(st).item(i)


def supported_hashes(E):
    """hash algorithms the build claims to support"""
    r = 0
    n = 0
    for i in E.P.by_suffix('supported_algorithms') if hasattr(E.P, 'by_suffix') else [i for i, q in enumerate(E.P.insts) if q['path'].endswith('::supported_algorithms') and q['blocks'] and q['local']]:
        for s, v in E.I.run(i, [], State(), 50):
            t = V(E.I, s, E.P.insts[i]['locals'][0], v).num()
            vs = s.f.values(t, 4)
            if vs is None or len(vs) != 1:
                raise Lost('supported hash algorithms')
            r |= next(iter(vs))
            n += 1
    if not n:
        raise Lost('supported hash algorithms')
    return r


def config(cfg):
    """the shipped configuration a build is made from"""
    p = os.path.join(REPO, 'spdm-config-crypto.toml' if cfg == 'c' else 'spdm-config.toml')
    import tomllib
    with open(p, 'rb') as f:
        return tomllib.load(f)


def bits(names, table):
    r = 0
    for n in names:
        if n not in table:
            raise Lost('unknown name %s in the configuration' % n)
        r |= 1 << table[n]
    return r


# ------------------------------------------------------------------ C15
@query('C15', 'On every responder path that answers NEGOTIATE_ALGORITHMS with Ok, for every value each selection can take: it is a single bit, the '
              'facts of the path imply that the request offers it, and it is among the algorithms the build supports; structure i of the '
              'reply has the type of structure i of the request (case by case over number and types) and selects a single offered bit.',
       assume=PEER, trust=TRUST_PRIM)
def c15(C_, R):
    for cfg in 'cn':
        n = 0
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            if result_known(R, x) != 'Ok' or not (x.evs('enc', 'Algorithms') or x.evs('parse', 'NegotiateAlgorithms')):
                continue
            n += 1

            def go():
                lab = '%s %s' % (x.label(), cfg)
                p, e = x.evs('parse', 'NegotiateAlgorithms'), x.evs('enc', 'Algorithms')
                if not R.check(bool(p and e), lab + ' reply', 'NEGOTIATE_ALGORITHMS is answered with ALGORITHMS', det(x), x.taint):
                    return
                q, a = x.evview(p[-1]), x.evview(e[-1])
                hs = supported_hashes(x.E) if cfg == 'c' else None
                chosen(R, x, x.st, a.f('base_hash_algo_selected').num(), q.f('base_hash_algo').num(), lab + ' hash', 'one offered, supported hash algorithm is selected', hs)
                chosen(R, x, x.st, a.f('measurement_hash_algo_selected').num(), q.f('base_hash_algo').num(), lab + ' measurement hash', 'one offered, supported measurement hash algorithm is selected', hs)
                chosen(R, x, x.st, a.f('base_asym_algo_selected').num(), q.f('base_asym_algo').num(), lab + ' signature', 'one offered, configured signature algorithm is selected',
                       bits(config(cfg)['algorithms']['asymmetric_signing'], ASYM))
                nq, na = q.f('num_algorithm_requests').num(), a.f('num_algorithm_responses').num()
                R.check(x.f.decide(eq(nq, na)) is True, lab + ' number', 'as many structures as requested', det(x, show(na)), x.taint)
                qs, as_ = q.f('algorithm_requests'), a.f('algorithm_responses')
                vs = x.f.values(nq, 32)
                if vs is None:
                    raise Lost('number of structures')
                for k in sorted(vs):
                    s = case(x.st, eq(nq, C(k)))
                    if s is None:
                        continue
                    for i in range(k):
                        qi = qs.at(s).item(i)
                        for vn in qi.variants():
                            s2 = case(s, eq(qi.disc(), C(qi.index(vn))))
                            if s2 is None:
                                continue
                            q2, a2 = qs.at(s2).item(i), as_.at(s2).item(i)
                            if not R.check(a2.variants() == [vn], '%s structure %d %s type' % (lab, i, vn), 'structure %d has the type of the request' % i, det(x, str(a2.variants())), x.taint):
                                continue
                            chosen(R, x, s2, a2.pay(vn).num(), q2.pay(vn).num(), '%s structure %d %s' % (lab, i, vn), 'structure %d selects one offered algorithm' % i)
            guarded(R, x, 'selection', go)
        if not n:
            R.und('no selection %s' % cfg, 'no path answers NEGOTIATE_ALGORITHMS')


# ------------------------------------------------------------------ C16
@query('C16', 'On every requester path that accepts ALGORITHMS, for every value each selection can take: it is a single bit that the recorded '
              'request offers; the measurement specification equals the offered one; each structure, for every type it can have, selects a '
              'single bit the request offers for that type.', assume=PEER, trust=TRUST_PRIM)
def c16(C_, R):
    for cfg in 'cn':
        n = 0
        for x in outcomes(C_, R, cfg, 'requester', 'handle_msg'):
            if x.key[0] != 'Algorithms' or result_known(R, x) != 'Ok':
                continue
            n += 1

            def go():
                lab = '%s %s' % (x.label(), cfg)
                p = x.evs('parse', 'Algorithms')
                if not R.check(bool(p), lab + ' decoded', 'only a decoded ALGORITHMS is accepted', det(x), x.taint):
                    return
                a = x.evview(p[-1])
                ev0 = [e for e in x.o.ev0 if isinstance(e, proto.Call) and e.kind == 'enc' and e.name == 'NegotiateAlgorithms']
                if not ev0:
                    raise Lost('request sent')
                q = x.evview(ev0[-1])
                f = x.f
                R.check(f.decide(eq(a.f('measurement_spec_selected').num(), q.f('measurement_spec').num())) is True, lab + ' specification',
                        'the measurement specification is the offered one', det(x, show(a.f('measurement_spec_selected').num())), x.taint)
                chosen(R, x, x.st, a.f('base_hash_algo_selected').num(), q.f('base_hash_algo').num(), lab + ' hash', 'one offered hash algorithm is accepted')
                chosen(R, x, x.st, a.f('measurement_hash_algo_selected').num(), q.f('base_hash_algo').num(), lab + ' measurement hash', 'one offered measurement hash algorithm is accepted')
                chosen(R, x, x.st, a.f('base_asym_algo_selected').num(), q.f('base_asym_algo').num(), lab + ' signature', 'one offered signature algorithm is accepted')
                na = a.f('num_algorithm_responses').num()
                nq = f.values(q.f('num_algorithm_requests').num(), 32)
                vs = f.values(na, 32)
                if vs is None or nq is None or len(nq) != 1:
                    raise Lost('number of structures')
                nq = next(iter(nq))
                offered = {}
                for i in range(nq):
                    qi = q.f('algorithm_requests').item(i)
                    vn = qi.variant()
                    if vn is None:
                        raise Lost('requested structure')
                    w = f.values(qi.pay(vn).num(), 4)
                    if w is None or len(w) != 1:
                        raise Lost('requested algorithms')
                    offered[vn] = offered.get(vn, 0) | next(iter(w))
                for k in sorted(vs):
                    s = case(x.st, eq(na, C(k)))
                    if s is None:
                        continue
                    for i in range(k):
                        ai = a.f('algorithm_responses').at(s).item(i)
                        for vn in ai.variants():
                            s2 = case(s, eq(ai.disc(), C(ai.index(vn))))
                            if s2 is None:
                                continue
                            a2 = a.f('algorithm_responses').at(s2).item(i)
                            R.check(vn in offered, '%s structure %d %s type' % (lab, i, vn), 'a structure of a requested type', det(x), x.taint)
                            chosen(R, x, s2, a2.pay(vn).num(), C(offered.get(vn, 0)), '%s structure %d %s' % (lab, i, vn), 'structure %d selects one offered algorithm' % i)
            guarded(R, x, 'selection', go)
        if not n:
            R.und('no selection %s' % cfg, 'no path accepts ALGORITHMS')


# ------------------------------------------------------------------ C17
SUPPORTED = [(1, 0, 0, 0), (1, 1, 0, 0)]
VF = ('major', 'minor', 'update', 'alpha')


def entry_classes():
    """every version entry, as classes that compare alike with the supported ones"""
    per = []
    for i in range(4):
        cs = sorted({v[i] for v in SUPPORTED} | {0})
        iv, lo = [], 0
        for c in cs:
            if lo < c:
                iv.append((lo, c - 1))
            iv.append((c, c))
            lo = c + 1
        if lo <= 255:
            iv.append((lo, 255))
        per.append(iv)
    import itertools
    return list(itertools.product(*per))


@query('C17', 'On every requester path that accepts or rejects VERSION, case by case over the number of entries and the class of each entry '
              '(classes separate every entry that compares differently with the supported versions): the version recorded is the highest '
              'supported one among the entries, and a path with a common version does not report that there is none. Every VERSION encoded by the responder '
              'lists exactly the supported versions.', assume=PEER, trust=TRUST_PRIM)
def c17(C_, R):
    for cfg in 'cn':
        E = ready(C_, R, cfg, 'requester')
        try:
            accepted(C_, R, cfg, E)
        except (Lost, Split, Give, endp.Missing, KeyError, IndexError, TypeError) as e:
            R.und('version %s' % cfg, 'not decided: %s: %s' % (type(e).__name__, e))
        finally:
            E.K.given.pop('Version', None)
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            for e in x.evs('enc', 'Version'):
                def go2():
                    lab = '%s %s' % (x.label(), cfg)
                    m = x.evview(e)
                    good = x.f.decide(eq(m.f('num_entries').num(), C(len(SUPPORTED)))) is True
                    es = m.f('entries')
                    for i, v in enumerate(SUPPORTED):
                        good = good and all(x.f.decide(eq(es.item(i).f(z).num(), C(b))) is True for z, b in zip(VF, v))
                    R.check(good, lab + ' listed', 'VERSION lists exactly the supported versions', det(x, repr(m.v)[:200]), x.taint)
                guarded(R, x, 'listed', go2)


def accepted(C_, R, cfg, E):
    """the version a requester records, run case by case over the contents of VERSION"""
    cl = entry_classes()
    keys = [k for k in E.order if k[0] == 'Version']
    if not keys:
        raise Lost('version phase')
    import itertools
    vty = [i for i, t in enumerate(E.P.types) if (t.get('adt') or '').endswith('msgs::version::Version')]
    if not vty:
        raise Lost('Version type')
    ft = dict(E.P.types[vty[0]]['variants'][0]['fields'])
    cap_ = E.P.types[ft['entries']]['len']
    if cap_ > 2 or len(E.fn) == 0:
        raise Lost('%d version entries' % cap_)
    for k in range(cap_ + 1):
        for combo in itertools.product(cl, repeat=k):
            best = None
            for c in combo:
                v = tuple(lo for lo, hi in c) if all(lo == hi for lo, hi in c) else None
                if v in SUPPORTED:
                    best = v if best is None else max(best, v)

            def given_(st, ty, v):
                m = V(E.I, st, ty, v)
                if not st.f.ok(eq(m.f('num_entries').num(), C(k))):
                    return False
                for i, c in enumerate(combo):
                    for z, (lo, hi) in zip(VF, c):
                        t = m.f('entries').item(i).f(z).num()
                        for b in ([eq(t, C(lo))] if lo == hi else [ge(t, C(lo)), le(t, C(hi))]):
                            if not st.f.ok(b):
                                return False
                return True
            E.K.given['Version'] = given_
            st = E.build(keys[0], E.phases[keys[0]]['D'])
            R.count('cases of VERSION contents')
            for s, v in E.call('handle_msg', st, ['msg']):
                o = endp.Outcome(s, v)
                if not [e for e in o.ev if isinstance(e, proto.Call) and e.kind == 'parse' and e.name == 'Version']:
                    continue
                o.prest = st
                for o2 in E.cases(o):
                    x = Oc(E, keys[0], 'handle_msg', o2)
                    x.cfg = cfg
                    kk = x.ok()
                    lab = 'VERSION %s' % cfg
                    what = ' '.join('%s' % (c,) for c in combo)
                    if kk is None:
                        raise Lost('result')
                    if kk == 'Err':
                        ek = x.result().pay('Err').variants()
                        if 'NoSupportedVersions' in ek:
                            R.check(best is None, lab + ' rejected', 'a VERSION with a supported version is not rejected for lack of one', 'entries %s' % what, x.taint)
                        else:
                            R.check(best is not None, lab + ' reason', 'without a supported version the error says so', 'entries %s: %s' % (what, ek), x.taint)
                        continue
                    if not R.check(best is not None, lab + ' none', 'a VERSION without a supported version is rejected', 'entries %s' % what, x.taint):
                        continue
                    ph, pv = E.phase_of(o2.st, o2.st.o[E.key])
                    if isinstance(ph, tuple) or ph is None:
                        raise Lost('phase')
                    pv = V(E.I, o2.st, E.sty, pv).pay(ph).f('version')
                    good = all(o2.st.f.decide(eq(pv.f(z).num(), C(b))) is True for z, b in zip(VF, best))
                    R.check(good, '%s %d.%d' % (lab, best[0], best[1]), 'the highest common version is recorded', 'entries %s recorded %s' % (what, [show(pv.f(z).num()) for z in VF]), x.taint)


# ------------------------------------------------------------------ C18
def opt(v):
    """payload of a set option, or the value itself"""
    if v.t.get('adt') == 'core::option::Option':
        return v.pay('Some') if v.variant() == 'Some' else None
    return v


NEG = {  # message event -> {state field: message field (None: whole message)}
    'requester': {('enc', 'GetCapabilities'): {'requester_ct_exponent': 'ct_exponent', 'requester_cap': 'flags'},
                  ('parse', 'Capabilities'): {'responder_ct_exponent': 'ct_exponent', 'responder_cap': 'flags'},
                  ('parse', 'Algorithms'): {'algorithms': None},
                  ('parse', 'Certificate'): {'cert_slot': 'slot', 'cert_chain': 'cert_chain', 'cert_chain_size': 'portion_length'},
                  ('enc', 'NegotiateAlgorithms'): {'negotiate_algorithms': None}},
    'responder': {('parse', 'GetCapabilities'): {'requester_ct_exponent': 'ct_exponent', 'requester_cap': 'flags'},
                  ('enc', 'Capabilities'): {'responder_ct_exponent': 'ct_exponent', 'responder_cap': 'flags'},
                  ('enc', 'Algorithms'): {'algorithms': None}}}
KEEP = ('version', 'requester_ct_exponent', 'requester_cap', 'responder_ct_exponent', 'responder_cap', 'algorithms', 'cert_slot', 'cert_chain', 'cert_chain_size')


@query('C18', 'For every successful path of every entry point: each parameter field of the phase reached equals the field of the message just '
              'sent or received if that message carries it, otherwise the field of the same name in the phase before; the fields negotiated '
              'in the current exchange are set when the phase is left.', assume=PEER, trust=TRUST_PRIM)
def c18(C_, R):
    for cfg in 'cn':
        for role in ('requester', 'responder'):
            for x in outcomes(C_, R, cfg, role):
                if x.entry == 'reset' or result_known(R, x) != 'Ok':
                    continue

                def go():
                    lab = '%s %s %s' % (x.label(), cfg, evkey(x))
                    if x.phase() in ('NewSession', 'Error', 'Version') or x.o.phase is None:
                        if role == 'requester' and x.phase() == 'NewSession':
                            new_session(x, R, lab)
                        return
                    restart = role == 'responder' and bool(x.evs('parse', 'GetVersion'))
                    post = x.postphase()
                    pre = x.prephase() if x.E.P.types[x.E.sty]['variants'][x.E.variants.index(x.key[0])]['fields'] else None
                    src = {}
                    for e in x.evs():
                        for sf, mf in NEG[role].get((e.kind, e.name), {}).items():
                            m = x.evview(e)
                            src[sf] = m if mf is None else m.f(mf)
                    if role == 'requester' and x.entry == 'handle_msg':
                        for e in (x.o.ev0 or ()):
                            if isinstance(e, proto.Call):
                                for sf, mf in NEG[role].get((e.kind, e.name), {}).items():
                                    m = x.evview(e)
                                    src.setdefault(sf, m if mf is None else m.f(mf))
                    for fn in post.fields():
                        if fn not in KEEP and fn not in src:
                            continue
                        v = opt(post.f(fn))
                        if fn in src:
                            if v is None:
                                R.check(False, '%s %s' % (lab, fn), '%s is remembered' % fn, det(x), x.taint)
                                continue
                            want = src[fn]
                            if fn == 'cert_chain_size' or want.t['k'] == 'int':
                                c = x.f.decide(eq(v.num(), want.num()))
                            else:
                                c = v.same(want)
                            R.check(c is True, '%s %s' % (lab, fn), '%s is the value of the message' % fn, det(x, '%s vs %s' % (repr(v.v)[:120], repr(want.v)[:120])), x.taint)
                            continue
                        if restart or fn == 'version' and x.key[0] == 'Version':
                            continue
                        if pre is None or fn not in pre.fields():
                            if v is not None and fn != 'version':
                                raise Lost('origin of %s' % fn)
                            continue
                        old = opt(pre.f(fn))
                        if old is None and v is None:
                            R.ok('%s %s' % (lab, fn), '%s stays unset' % fn)
                            continue
                        if old is None or v is None:
                            R.check(False, '%s %s' % (lab, fn), '%s is neither lost nor invented' % fn, det(x), x.taint)
                            continue
                        R.check(v.same(old) is True, '%s %s' % (lab, fn), '%s is carried over unaltered' % fn, det(x, '%s vs %s' % (repr(v.v)[:120], repr(old.v)[:120])), x.taint)
                guarded(R, x, 'parameters', go)


def new_session(x, R, lab):
    pass


# ------------------------------------------------------------------ C19
def whole_nonce(x, n, fresh):
    """the byte string is one whole 32-byte draw of this very step"""
    r = rope(x.st, n.bytes())
    if len(r) != 1 or r[0][0] != 's' or r[0][1].kind != 'rand':
        return False, r
    b = r[0][1]
    return (any(z is b for z in fresh) and x.f.decide(eq(r[0][2], ZERO)) is True and x.f.decide(eq(r[0][3], C(32))) is True
            and x.f.decide(eq(b.len, C(32))) is True), r


@query('C19', 'Every path that encodes CHALLENGE or CHALLENGE_AUTH (and the constructor of a signed GET_MEASUREMENTS): the nonce encoded is a '
              'single whole 32-byte result of the operating-system generator, drawn on that very path and used once; the requester\'s '
              'recorded nonce is the one it encoded. Decided in the configuration with a generator.', assume=PEER, trust=TRUST_PRIM + ['OsRng fills the whole slice it is given'])
def c19(C_, R):
    for role, msg in (('requester', 'Challenge'), ('responder', 'ChallengeAuth')):
        n = 0
        for x in outcomes(C_, R, 'c', role):
            for e in x.evs('enc', msg) + x.evs('enc_err', msg):
                n += 1

                def go():
                    lab = '%s %s %s' % (x.label(), msg, x.ok())
                    g, r = whole_nonce(x, x.evview(e).f('nonce'), x.rands())
                    R.check(g, lab, 'the nonce of %s is one fresh draw of 32 bytes' % msg, det(x, ropeshow(r)), x.taint or any_taint(r))
                    if role == 'requester' and x.ok() == 'Ok':
                        v = opt(x.postphase().f('nonce'))
                        R.check(v is not None and v.same(x.evview(e).f('nonce')) is True, lab + ' recorded', 'the nonce sent is recorded', det(x), x.taint)
                guarded(R, x, 'nonce', go)
        if not n:
            R.und('no %s' % msg, 'no path encodes %s' % msg)
    measurements_nonce(C_, R)


def measurements_nonce(C_, R):
    from interp import Interp
    P = C_.prog('c')
    fs = [i for i in P.find('msgs::measurements::GetMeasurements::new') if P.insts[i]['blocks']]
    if not fs:
        R.und('measurements', 'GetMeasurements::new not found')
        return

    class X:
        pass
    I = Interp(P, Models())
    q = P.insts[fs[0]]
    st = State()
    args = [I.sym(ty, 'a%d' % k, st) for k, ty in enumerate(q['locals'][1:1 + q['argc']])]
    try:
        sig = [V(I, st, ty, v).f('signature_requested').num() for ty, v in zip(q['locals'][1:], args) if (P.types[ty].get('adt') or '').endswith('RequestAttributes')]
        for s, v in I.run(fs[0], args, st.clone(), 0):
            m = V(I, s, q['locals'][0], v)
            d = s.f.decide(eq(m.f('nonce').disc(), ONE))
            want = s.f.decide(eq(sig[0], ONE))
            if want is None:
                c = case(s, eq(sig[0], ONE))
                if c is not None:
                    want, s, m = True, c, m.at(c)
                    d = s.f.decide(eq(m.f('nonce').disc(), ONE))
            if want is not True:
                continue
            if not R.check(d is True, 'measurements set', 'a signed measurement request carries a nonce', None, bool(s.taint)):
                continue
            x = X()
            x.st, x.f = s, s.f
            g, r = whole_nonce(x, m.f('nonce').pay('Some'), [e[1] for e in s.ev if isinstance(e, tuple) and e[0] == 'rand'])
            R.check(g, 'measurements nonce', 'the nonce of a signed GET_MEASUREMENTS is one fresh draw of 32 bytes', ropeshow(r), bool(s.taint) or any_taint(r))
    except (Lost, Split, Give, KeyError, IndexError) as e:
        R.und('measurements', 'not decided: %s' % e)


# ------------------------------------------------------------------ C20
@query('C20', 'On every responder path that answers GET_DIGESTS, case by case over every slot population: the mask encoded is the population and '
              'digest i is set exactly for a populated slot, being the whole negotiated hash of the encoding of that slot\'s chain. On every path '
              'that answers GET_CERTIFICATE, case by case over slot number and population: slot number, portion, its length and a zero '
              'remainder; no path answers for a slot out of range.', assume=PEER, trust=TRUST_PRIM)
def c20(C_, R):
    seen = {'Digests': 0, 'Certificate': 0}
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            if result_known(R, x) != 'Ok':
                continue
            for e in x.evs('enc', 'Digests'):
                seen['Digests'] += 1
                guarded(R, x, 'digests', lambda: digests(R, x, e, cfg))
            for e in x.evs('enc', 'Certificate'):
                seen['Certificate'] += 1
                guarded(R, x, 'certificate', lambda: certificate(R, x, e, cfg))
    for k, n in seen.items():
        if not n:
            R.und('no ' + k, 'no path encodes %s' % k)


def digests(R, x, e, cfg):
    lab = '%s DIGESTS %s' % (x.label(), cfg)
    pop = population(x, x.st)
    m = x.evview(e)
    ha0 = x.prephase().f('algorithms').f('base_hash_algo_selected').num()
    dg = m.f('digests')
    ns, nd = len(pop), len(dg)
    if ns != nd:
        raise Lost('digest array')
    for mask in range(1 << ns):
        s = case(x.st, *[eq(p, C(mask >> i & 1)) for i, p in enumerate(pop)])
        if s is None:
            continue
        R.count('slot populations')
        R.check(s.f.decide(eq(s.f.simp(m.f('slot_mask').num()), C(mask))) is True, lab + ' mask', 'the mask is the set of populated slots',
                det(x, 'population %#x mask %s' % (mask, show(s.f.simp(m.f('slot_mask').num())))), x.taint)
        ha = s.f.simp(ha0)
        # digests in slot order, one per populated slot; the order of the array is the order on the wire
        want = [i for i in range(ns) if mask >> i & 1]
        got = []
        for i in range(nd):
            d = dg.at(s).item(i)
            on = s.f.decide(eq(d.disc(), ONE))
            if on is None:
                got = None
                break
            if on:
                got.append(i)
        if got is None:
            R.check(False, lab + ' set', 'digests are set exactly for populated slots', det(x, 'population %#x' % mask), x.taint)
            continue
        R.check(len(got) == len(want), lab + ' set', 'one digest per populated slot', det(x, 'population %#x digests %s' % (mask, got)), x.taint)
        for i, j in zip(got, want):
            r = dg.at(s).item(i).pay('Some').bytes()
            c = is_digest_of_chain(x, s, r, ha, j)
            R.check(c, '%s digest %d' % (lab, j), 'digest of slot %d is the negotiated hash of its chain' % j, det(x, 'population %#x: %s' % (mask, ropeshow(r))), x.taint)


def certificate(R, x, e, cfg):
    lab = '%s CERTIFICATE %s' % (x.label(), cfg)
    ps = x.evs('parse', 'GetCertificate')
    if not R.check(bool(ps), lab + ' request', 'a CERTIFICATE answers a decoded GET_CERTIFICATE', det(x), x.taint):
        return
    slot = x.evview(ps[-1]).f('slot').num()
    for i, s in slot_cases(x, slot):
        if i is None:
            R.check(False, lab + ' range', 'an out-of-range slot is not served', det(x), x.taint)
            continue
        pop = population(x, s)
        for on in (0, 1):
            s2 = case(s, eq(pop[i], C(on)))
            if s2 is None:
                continue
            lab2 = '%s slot %d %s' % (lab, i, 'populated' if on else 'empty')
            bad = portion(x, e, s2, i, on)
            if any(b[3] or not b[1] for b in bad):
                # what is served depends on the other slots: look at each population on its own
                bad2 = []
                for mask in range(1 << len(pop)):
                    s3 = case(s2, *[eq(p, C(mask >> j & 1)) for j, p in enumerate(pop)])
                    if s3 is not None:
                        R.count('slot populations')
                        bad2 += [(k, ok, 'population %#x: %s' % (mask, d), t, w) for k, ok, d, t, w in portion(x, e, s3, i, on)]
                bad = bad2
            seen = set()
            for k, ok, d, t, w in sorted(bad, key=lambda b: (b[0], bool(b[1]), bool(b[3]))):
                if k not in seen:
                    seen.add(k)
                    R.check(ok, '%s %s' % (lab2, k), w, det(x, d), x.taint or t)


def portion(x, e, s2, i, on):
    """[(key, holds, detail, tainted, what)]"""
    m = x.evview(e, s2)
    n = s2.f.simp(m.f('portion_length').num())
    out = [('number', s2.f.decide(eq(m.f('slot').num(), C(i))) is True, show(m.f('slot').num()), False, 'the slot number is the one requested'),
           ('remainder', s2.f.decide(eq(m.f('remainder_length').num(), ZERO)) is True, show(m.f('remainder_length').num()), False, 'nothing remains')]
    if not on:
        out.append(('portion', s2.f.decide(eq(n, ZERO)) is True, show(n), any_taint(n), 'an empty slot gives an empty portion'))
        return out
    r = rslice(s2.f, m.f('cert_chain').bytes(), ZERO, n)
    out.append(('portion', is_chain(x, s2, r, i), ropeshow(r), any_taint(r), 'the portion is the whole encoded chain of the slot'))
    return out


# ------------------------------------------------------------------ C24
@query('C24', 'In the configuration without a provider no panic, and hence no placeholder, is reachable from any entry point in any reachable '
              'phase. In both configurations every responder path that answers GET_DIGESTS, GET_CERTIFICATE or CHALLENGE with Ok has the facts '
              'implying that the responder\'s advertised flags contain the capability.', assume=PEER, trust=TRUST_PRIM)
def c24(C_, R):
    need_ = {'GetDigests': CERT_BIT, 'GetCertificate': CERT_BIT, 'Challenge': CHAL_BIT}
    for role in ('responder', 'requester'):
        E = ready(C_, R, 'n', role)
        panics_of(R, E.I, 'n ' + role)
        R.count('panic sites met', sum(E.I.sites.values()))
        # every placeholder the analysis entered
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            k = result_known(R, x)
            if k != 'Ok':
                continue

            def go():
                nm, why = x.received('req')
                for q, b in need_.items():
                    if nm == q or x.evs('parse', q) or x.evs('enc', REPLY[q]):
                        t = x.prephase().f('responder_cap').some().num()
                        R.check(bit(x, t, b) is True, '%s %s %s' % (x.label(), q, cfg), '%s is served only with the capability advertised' % q, det(x, show(t)), x.taint)
            guarded(R, x, 'capability', go)
    P = C_.prog('n')
    names = sorted({q['path'] for q in P.insts if 'no_crypto' in q['path'] and q['blocks']})
    R.count('placeholder functions in the program', len(names))
    entered = 0
    for role in ('responder', 'requester'):
        E = C_.endpoint('n', role)
        for (fn, kind), c in E.I.sites.items():
            if 'no_crypto' in str(fn):
                entered += c
    R.count('placeholder panic sites refuted', entered)


# ------------------------------------------------------------------ C25
NAMES = [('ReqFlags', REQ_CAP), ('RspFlags', RSP_CAP), ('BaseAsymAlgo', ASYM), ('BaseHashAlgo', HASH)]


@query('C25', 'Each FromStr implementation is interpreted on an arbitrary string: every path that returns Ok implies that the string is a name of '
              'the DSP0274 table and yields exactly its bit, every table name has such a path, and every other string is an error. On '
              'every path GET_CAPABILITIES and CAPABILITIES carry exactly the flags configured, and NEGOTIATE_ALGORITHMS exactly the configured '
              'signature algorithms and the provider\'s hash algorithms.', assume=PEER, trust=TRUST_PRIM)
def c25(C_, R):
    from interp import Interp
    for cfg in 'cn':
        P = C_.prog(cfg)
        for adt, table in NAMES:
            fs = [i for i, q in enumerate(P.insts) if q['blocks'] and (q['impl_trait'] or '').endswith('FromStr') and (q['impl_self'] or '').endswith(adt)]
            if not fs:
                if adt == 'BaseHashAlgo':
                    R.note('%s: names of %s are not used in this build' % (cfg, adt))
                else:
                    R.und('%s %s' % (adt, cfg), 'from_str of %s not found' % adt)
                continue
            try:
                names_of(R, P, fs[0], adt, table, cfg)
            except (Lost, Split, Give, KeyError, IndexError, TypeError) as e:
                R.und('%s %s' % (adt, cfg), 'not decided: %s: %s' % (type(e).__name__, e))
        cf = config(cfg)
        for role, msg, table in (('requester', 'GetCapabilities', REQ_CAP), ('responder', 'Capabilities', RSP_CAP)):
            n = 0
            for x in outcomes(C_, R, cfg, role):
                for e in x.evs('enc', msg):
                    n += 1

                    def go():
                        want = bits(cf['capabilities'], table)
                        t = x.evview(e).f('flags').num()
                        R.check(x.f.decide(eq(t, C(want))) is True, '%s %s flags %s' % (x.label(), msg, cfg), '%s advertises exactly the configured capabilities' % msg,
                                det(x, '%s, configured %#x' % (show(t), want)), x.taint or any_taint(t))
                    guarded(R, x, 'flags', go)
            if not n:
                R.und('no %s %s' % (msg, cfg), 'no path encodes %s' % msg)
        n = 0
        for x in outcomes(C_, R, cfg, 'requester'):
            for e in x.evs('enc', 'NegotiateAlgorithms'):
                n += 1

                def go3():
                    m = x.evview(e)
                    lab = '%s NEGOTIATE_ALGORITHMS %s' % (x.label(), cfg)
                    a, h = m.f('base_asym_algo').num(), m.f('base_hash_algo').num()
                    want = bits(cf['algorithms']['asymmetric_signing'], ASYM)
                    R.check(x.f.decide(eq(a, C(want))) is True, lab + ' signature', 'offers exactly the configured signature algorithms', det(x, show(a)), x.taint or any_taint(a))
                    hs = supported_hashes(x.E)
                    R.check(x.f.decide(eq(h, C(hs))) is True, lab + ' hash', 'offers exactly the hash algorithms of the provider', det(x, '%s, provider %#x' % (show(h), hs)), x.taint or any_taint(h))
                guarded(R, x, 'offer', go3)
        if not n:
            R.und('no NegotiateAlgorithms %s' % cfg, 'no path encodes NegotiateAlgorithms')


def names_of(R, P, i, adt, table, cfg):
    from interp import Interp
    I = Interp(P, Models())
    q = P.insts[i]
    st = State()
    arg = I.sym(q['locals'][1], 's', st)
    s_rope = I.deref(st, arg).r
    for n in sorted(table):
        n_ok = 0
        for s2 in given(st, s_rope, n):
            for n2 in table:
                if n2 != n and len(n2) == len(n):       # being one literal excludes the others
                    s2.f.ok(not_(s2.f.simp(bytes_eq(None, s2, s_rope, lit(n2.encode())))))
            for s, v in I.run(i, [arg], s2, 0):
                r = V(I, s, q['locals'][0], v)
                ks = r.variants()
                t = bool(s.taint)
                if 'Err' in ks:
                    R.check(False, '%s accepts %s %s' % (adt, n, cfg), '%s is accepted' % n, 'may be an error', t)
                if 'Ok' in ks:
                    s3 = case(s, eq(r.disc(), C(r.index('Ok'))))
                    if s3 is not None:
                        n_ok += 1
                        b = V(I, s3, q['locals'][0], v).pay('Ok').num()
                        R.check(s3.f.decide(eq(b, C(1 << table[n]))) is True, '%s %s %s' % (adt, n, cfg), '%s yields bit %d' % (n, table[n]), 'yields %s' % show(b), t or any_taint(b))
        if not n_ok:
            R.check(False, '%s accepts %s %s' % (adt, n, cfg), '%s is accepted' % n, 'no path accepts it', bool(I.undecided or I.unmodelled))
    for s2 in others(st, s_rope, sorted(table)):
        for s, v in I.run(i, [arg], s2, 0):
            r = V(I, s, q['locals'][0], v)
            R.check('Ok' not in r.variants(), '%s other names %s' % (adt, cfg), 'no other string is accepted', 'accepted: a string of length %s' % show(s.f.simp(rlen(s_rope))), bool(s.taint))


def eq_states(st, r, name):
    """[(state, condition that r is the name)], splitting where the comparison needs it"""
    work = [st]
    while work:
        s = work.pop()
        try:
            yield s, s.f.simp(bytes_eq(None, s, r, lit(name.encode())))
        except Split as e:
            for c in e.conds:
                s2 = s.clone()
                if s2.f.ok(c) and settle(s2):
                    work.append(s2)


def given(st, r, name):
    out = []
    for s, b in eq_states(st, r, name):
        s = s.clone()
        if s.f.ok(b) and settle(s):
            out.append(s)
    return out


def others(st, r, names):
    """states in which the string is none of the names"""
    work = [st.clone()]
    for n in names:
        nxt = []
        for w in work:
            for s, b in eq_states(w, r, n):
                s = s.clone()
                if s.f.ok(not_(b)) and settle(s):
                    nxt.append(s)
        work = nxt
    return work


# ------------------------------------------------------------------ C26
TOO_LARGE = {'RequestTooLarge'}
NO_FIT = {'LargeResponse', 'ResponseTooLarge'}
INVALID = {'InvalidRequest'}


def leaves(st, v, path=()):
    """[(state, names of the variants down to the leaf)] of an error value"""
    if isinstance(v.v, Enum) and v.t['k'] == 'adt':
        for n in v.at(st).variants():
            s = case(st, eq(st.f.simp(v.v.d), C(v.index(n))))
            if s is None:
                continue
            w = v.at(s)
            if w.npay(n) == 1 and isinstance(w.pay(n).v, Enum):
                yield from leaves(s, w.pay(n), path + (n,))
            else:
                yield s, path + (n,)
    else:
        yield st, path


@query('C26', 'Every responder path that returns Err and encodes ERROR: the cause is read off the path (which decoder or encoder failed and how, '
              'header, slot, capability, signer, transcript capacity), and the encoded error code is one the cause allows. On every path of both '
              'endpoints that returns an unexpected-message error the code reported is the second byte of the message.', assume=PEER, trust=TRUST_PRIM)
def c26(C_, R):
    for cfg in 'cn':
        for x in outcomes(C_, R, cfg, 'responder', 'handle_msg'):
            if result_known(R, x) != 'Err':
                continue
            guarded(R, x, 'cause', lambda: cause(R, x, cfg))
            guarded(R, x, 'code', lambda: got_code(R, x, 'req', cfg))
        for x in outcomes(C_, R, cfg, 'requester', 'handle_msg'):
            if result_known(R, x) == 'Err':
                guarded(R, x, 'code', lambda: got_code(R, x, 'msg', cfg))


def got_code(R, x, nm, cfg):
    e = x.result().pay('Err')
    if 'UnexpectedMsgCode' not in e.variants():
        return
    s = case(x.st, eq(e.disc(), C(e.index('UnexpectedMsgCode'))))
    if s is None:
        return
    vs = e.t['variants'][e.index('UnexpectedMsgCode')]['fields']
    j = [i for i, (n, _) in enumerate(vs) if n == 'got']
    if not j:
        raise Lost('received code')
    t = e.at(s).pay('UnexpectedMsgCode', j[0]).num()
    w = rget(s.f, s.o[('h', nm)].r, ONE)
    R.check(s.f.decide(eq(t, w)) is True, '%s got %s' % (x.label(), cfg), 'the unexpected-message error reports the received code', det(x, show(t)), x.taint)


def cause(R, x, cfg):
    es = x.evs('enc', 'Error') + x.evs('enc_err', 'Error')
    if not es:
        R.check(False, '%s no error message %s' % (x.label(), cfg), 'a failure encodes an ERROR message', det(x), x.taint)
        return
    m = x.evview(es[-1])
    lab = '%s %s' % (x.label(), cfg)

    def allow(st, want, why, payload=None):
        for n in m.at(st).variants():
            s = case(st, eq(m.at(st).disc(), C(m.index(n))))
            if s is None:
                continue
            R.check(n in want, '%s %s: %s' % (lab, why, n), 'an error because of %s is reported as %s' % (why, '/'.join(sorted(want))), det(x, 'reports ' + n), x.taint)
            if payload is not None and n in payload:
                R.check(s.f.decide(eq(m.at(s).pay(n).num(), payload[n])) is True, '%s %s code' % (lab, why), 'the error carries the code of the request', det(x), x.taint)
    if x.key[0] == 'Error':
        allow(x.st, {'UnexpectedRequest'}, 'an earlier failure')
        return
    if x.evs('sign_err'):
        allow(x.st, {'Unspecified'}, 'a failing signer')
        return
    pe = x.evs('parse_err')
    if pe:
        e = V(x.I, x.st, pe[-1].d['ty'], pe[-1].err)
        for s, p in leaves(x.st, e):
            nm = p[-1] if p else ''
            if 'AlgorithmRequest' in p:
                want = INVALID | TOO_LARGE
            elif nm in ('BufferEmpty', 'TooLarge'):
                want = TOO_LARGE
            elif nm == 'ReservedByteNotZero' or nm.startswith('Invalid') or nm.startswith('Incorrect') or nm.startswith('Reserved'):
                want = INVALID
            elif nm.startswith('Max'):
                want = INVALID | TOO_LARGE
            else:
                want = INVALID | TOO_LARGE | {'Unspecified'}
            allow(s, want, 'undecodable %s (%s)' % (pe[-1].name, '.'.join(p)))
        return
    we = [e for e in x.evs('enc_err') if e.name != 'Error']
    if we:
        e = we[-1]
        if 'ety' in e.d and isinstance(e.err, Enum):
            for s, p in leaves(x.st, V(x.I, x.st, e.d['ety'], e.err)):
                if p and p[-1] == 'BufferFull':
                    allow(s, NO_FIT, '%s not fitting' % e.name)
                else:
                    allow(s, INVALID | NO_FIT | {'Unspecified'}, '%s not encodable' % e.name)
        else:
            allow(x.st, NO_FIT, '%s not fitting' % e.name)
        return
    nm, why = x.received('req')
    if nm is None or nm not in ADMIT.get(x.key[0], {}):
        allow(x.st, {'UnexpectedRequest'}, 'an unexpected message')
        return
    # the transcript is full
    n = rlen(x.st.o[('h', 'req')].r)
    if nm != 'GetVersion':
        n = add(n, rlen(x.tr(pre=True)))
    en = [e for e in x.evs('enc') if e.name == REPLY[nm]]
    if en:
        n = add(n, en[-1].size)
    if x.f.decide(lt(C(cap(x)), n)) is True:
        allow(x.st, NO_FIT, 'a full transcript')
        return
    if nm == 'Challenge' and en:
        sg = x.evs('sign')
        if not sg:
            z = x.evview(en[-1]).f('signature').f('size').num()
            n = sub(n, z)
            if x.f.decide(lt(C(cap(x)), n)) is True:
                allow(x.st, NO_FIT, 'a full transcript')
                return
        else:
            allow(x.st, {'Unspecified'}, 'an unusable signature')
            return
    capb = {'GetDigests': CERT_BIT, 'GetCertificate': CERT_BIT, 'Challenge': CHAL_BIT}.get(nm)
    if capb is not None:
        t = x.prephase().f('responder_cap').some().num()
        b = bit(x, t, capb)
        if b is False:
            allow(x.st, {'UnsupportedRequest'}, 'a service that is not advertised', {'UnsupportedRequest': C(CODE[nm][1])})
            return
    if nm in ('GetCertificate', 'Challenge') and x.evs('parse', nm):
        slot = x.evview(x.evs('parse', nm)[-1]).f('slot').num()
        bad = True
        for i, s in slot_cases(x, slot):
            if i is not None:
                pop = population(x, s)
                if nm != 'Challenge' or s.f.decide(eq(pop[i], ZERO)) is not True:
                    bad = False
        if bad:
            allow(x.st, INVALID, 'an unusable slot')
            return
        if nm == 'Challenge':
            # encoding the request itself does not fit once the slot is usable
            n2 = add(rlen(x.tr(pre=True)), rlen(x.st.o[('h', 'req')].r))
            allow(x.st, INVALID | NO_FIT, 'a challenge that cannot be answered')
            return
    if nm == 'NegotiateAlgorithms' and x.evs('parse', nm) and not en:
        allow(x.st, INVALID, 'nothing to select')
        return
    raise Lost('cause of the failure')
