"""Raw signatures to DER."""
from queries import query
from interp import *
from models import *
from wire import *
from view import V, Lost, rope, any_taint, case
from q_codec import Res, report, panics, settled
import codec


def der_len(n):
    return [n] if n < 128 else [0x81, n] if n < 256 else [0x82, n >> 8, n & 255]


def bound(n):
    h = n // 2
    body = n + 2 + 2 + 2 * len(der_len(h + 1))
    return 1 + len(der_len(body)) + body


def integer(st, half):
    """[(state, content bytes)] of the INTEGER for one half, by the position of its first non-zero byte"""
    out = []
    work = [(st, 0)]
    while work:
        s, i = work.pop()
        if i == len(half) - 1:
            out.append((s, i))
            continue
        d = s.f.decide(eq(half[i], ZERO))
        if d is True:
            work.append((s, i + 1))
        elif d is False:
            out.append((s, i))
        else:
            for q, j in ((eq(half[i], ZERO), i + 1), (not_(eq(half[i], ZERO)), None)):
                x = case(s, q)
                if x is not None:
                    if j is None:
                        out.append((x, i))
                    else:
                        work.append((x, j))
    r = []
    for s, i in out:
        top = ge(half[i], C(128))
        d = s.f.decide(top)
        for v in ((True, False) if d is None else (d,)):
            x = s if d is not None else case(s, top if v else not_(top))
            if x is not None:
                r.append((x, ([ZERO] if v else []) + list(half[i:])))
    return r


def analyse(prog, fi, n, room, pre=()):
    """bin_to_der on every signature of n bytes"""
    res = Res('DER of %d bytes' % n)
    res.fn = fi
    A = codec.Alone(prog)
    A.I.nomerge = True
    A.I.MAXSTATES = 30000
    A.I.ACC = 3000
    f = prog.insts[fi]
    st = State()
    try:
        a = [A.I.sym(ty, 'arg%d' % j, st) for j, ty in enumerate(f['locals'][1:3])]
        for x, k in zip(a, (n, room)):
            st.f.ok(eq(slref(A.I, st, x)[3], C(k)))
        sig = rescue(A.I, st, a[0])
        b = [rget(st.f, sig, C(i)) for i in range(n)]
        for i in pre:
            st.f.ok(not_(eq(b[i], ZERO)))
        outs = A.I.run(fi, a, st, 0)
    except (Lost, Abort, Split, Give, KeyError, AttributeError, TypeError) as e:
        res.want('der', 'analysis', None, '%s: %s' % (type(e).__name__, e), True)
        outs = []
    for k, p in A.I.panics.items():
        res.panics[k] = p
    res.sites += sum(A.I.sites.values()) if A.I.sites else 0
    res.und += [str(k) for k in A.I.undecided]
    for s, r in outs:
        res.outcomes += 1
        s, r = settled(s, r)
        if s is None:
            continue
        got = rope(s, rescue(A.I, s, a[1]))
        for s1, x in integer(s, b[:n // 2]):
            for s2, y in integer(s1, b[n // 2:]):
                body = [C(2)] + [C(z) for z in der_len(len(x))] + x + [C(2)] + [C(z) for z in der_len(len(y))] + y
                want = [C(0x30)] + [C(z) for z in der_len(len(body))] + body
                res.want('der', 'length', eq_holds(s2, r, C(len(want))), 'the length is %s, not %d' % (show(r), len(want)), any_taint(r))
                if len(want) > room:
                    res.want('der', 'bound', False, 'the encoding has %d bytes' % len(want))
                    continue
                try:
                    g = [rget(s2.f, got, C(i)) for i in range(len(want))]
                except (Split, Give) as e:
                    res.want('der', 'bytes', None, 'not determined: %s' % e, True)
                    continue
                ok = True
                for i, (p, q) in enumerate(zip(g, want)):
                    if p is not q and eq_holds(s2, p, q) is not True:
                        e = eq_holds(s2, p, q)
                        res.want('der', 'bytes', e, 'byte %d is %s, not %s' % (i, show(p), show(q)), any_taint(p))
                        ok = False
                        break
                if ok:
                    res.want('der', 'bytes', True)
    return res


def local(prog, path):
    for i, x in enumerate(prog.insts):
        if x['local'] and x['blocks'] and x['path'] == path:
            return i
    return None


@query('C22', 'Abstract interpretation of bin_to_der with symbolic signature bytes for each signature length: no reachable panic with '
              'the buffer the library sizes (its own size function, evaluated on the MIR), and the bytes and length produced equal the '
              'minimal DER of the two halves for every position of their first non-zero byte.',
       assume=['signature lengths are those of the ECDSA suites (64, 96, 132) and, up to the configured maximum, small even ones'])
def c22(C_, R):
    P = C_.prog('c')
    fi = local(P, 'crypto::pki::bin_to_der')
    if fi is None:
        R.und('bin_to_der', 'the conversion function was not found')
        return
    room = None
    mx = local(P, 'crypto::pki::max_encoded_size')
    if mx is not None:
        try:
            A = codec.Alone(P)
            o = A.I.run(mx, [], State(), 0)
            if len(o) == 1 and o[0][1].k == 'c':
                room = o[0][1].a
        except (Abort, Split, Give):
            pass
    cap = None
    for t in P.types:
        if t['k'] == 'adt' and (t.get('adt') or '').endswith('::SignatureBuf') and t['kind'] == 'struct':
            for _, ft in t['variants'][0]['fields']:
                if P.types[ft]['k'] == 'array':
                    cap = P.types[ft]['len']
    if room is None or cap is None:
        R.und('buffer size', 'the size of the DER buffer was not found')
        cap, room = 64, 72
    R.check(True if room >= bound(cap) else False, 'buffer size', 'the buffer holds the largest encoding of %d bytes' % cap, '%d bytes are reserved, %d may be needed' % (room, bound(cap)))
    runs = [(n, room, ()) for n in (2, 4, 8, 16, 64) if n <= cap]
    for n in (96, 132):
        if n <= cap:
            runs.append((n, room, ()))
        elif C_.tier == 'thorough':
            runs.append((n, bound(n), ()))
        else:
            runs += [(n, bound(n), (0,)), (n, bound(n), (n // 2,))]
    # beyond one length byte
    runs += [(256, bound(256), (0, 128)), (512, bound(512), (0, 256))]
    for n, m, pre in runs:
        res = analyse(P, fi, n, m, pre)
        report(R, res, ('der',))
        panics(R, res)
