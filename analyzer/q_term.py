"""C31: every loop of the crate ends and no function calls itself."""
from queries import query
from dom import *
from interp import Interp
from wire import real
import endp  # noqa
from q_codec import ctx, expand, NEG, ID, MEAS, MESSAGES, CODEC_ASSUME
from q_endpoint import ready, PEER


def callees(x):
    """instances a body refers to (calls, functions and closures passed on)"""
    out = set()
    work = [b for b in x['blocks']]
    while work:
        y = work.pop()
        if isinstance(y, dict):
            v = y.get('inst')
            if isinstance(v, int):
                out.add(v)
            work.extend(y.values())
        elif isinstance(y, list):
            work.extend(z for z in y if isinstance(z, (list, dict)))
    return out


def cycles(g):
    """strongly connected components with an edge inside"""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(g[r]))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g[v]:
                        out.append(c)
    return out


def recursion(P, R, cfg):
    g = {i: callees(x) for i, x in enumerate(P.insts) if x['blocks']}
    R.count('functions in the call graph', len(g))
    R.count('call edges', sum(len(s) for s in g.values()))
    n = 0
    for c in cycles(g):
        loc = sorted({P.insts[i]['path'] for i in c if P.insts[i]['local']})
        if loc:
            n += 1
            R.bad('%s recursion %s' % (cfg, loc[0]), 'functions call themselves: the stack has no fixed bound', ' -> '.join(loc))
    if not n:
        R.ok('%s recursion' % cfg, 'the call graph of the crate has no cycle')
    return g


def depth(P, g):
    """calls on the longest chain of the (acyclic) graph of local functions"""
    memo = {}

    def go(i):
        if i in memo:
            return memo[i]
        memo[i] = 0
        memo[i] = 1 + max([go(j) for j in g.get(i, ()) if j in g] or [0])
        return memo[i]
    return max([go(i) for i in g if P.insts[i]['local']] or [0])


def alone(P, R):
    """functions with loops no other analysis entered, on arbitrary arguments"""
    import codec
    from interp import State, Abort, Give, Split
    seen = {k for I in Interp.EVERY if I.P is P for k in I.loops}
    for fi, x in enumerate(P.insts):
        if not x['local'] or not x['blocks'] or x['path'].split('::')[0] in ('responder', 'requester'):
            continue
        fn = P.fn(fi)
        if all((fi, h) in seen for h in fn.heads if h in fn.chain):
            continue
        R.count('functions analysed on their own for their loops')
        try:
            A = codec.Alone(P)
            st = State()
            A.I.run(fi, [A.I.sym(ty, 'arg%d' % j, st) for j, ty in enumerate(x['locals'][1:1 + x['argc']])], st, 0)
        except (Abort, Give, Split, KeyError, AttributeError, TypeError, IndexError) as e:
            R.note('%s on its own: %s: %s' % (x['path'], type(e).__name__, str(e)[:160]))


@query('C31', 'Call graph of the monomorphic crate: no cycle through a function of the crate, so the stack has a fixed bound. Loops: every loop '
              'of every local function is either followed iteration by iteration to its end, or generalised to one symbolic iteration whose '
              'induction variable is bounded by a length or limit; an iteration that ends in the state it began in, on a path some input '
              'takes, is a loop without end.',
       assume=CODEC_ASSUME + PEER, trust=['core iterators over ranges, slices and arrays are finite', 'ring, webpki and the generator return'])
def c31(C_, R):
    whole = {}
    for cfg in 'cn':
        P = C_.prog(cfg)
        g = recursion(P, R, cfg)
        if not any(v[0] == 'violated' for v in R.obl.values()):
            R.count('longest call chain', depth(P, g))
        K = ctx(C_, cfg)
        for n in expand(NEG + ID + MEAS):
            K.decode(n)
            K.encode(n)
            if n in MESSAGES:
                K.header(n)
        from q_chain import chains
        chains(C_, cfg).run_all()
        whole[cfg] = True
        for role in ('responder', 'requester'):
            E = ready(C_, R, cfg, role)
            if E.lost or E.I.undecided or E.I.inv.missing:
                whole[cfg] = False
    import q_der
    import codec
    P = C_.prog('c')
    fi = q_der.local(P, 'crypto::pki::bin_to_der')
    if fi is not None:
        q_der.analyse(P, fi, 64, q_der.bound(64))
    for cfg in 'cn':
        P = C_.prog(cfg)
        alone(P, R)
        mine = [I for I in Interp.EVERY if I.P is P]
        for fi, x in enumerate(P.insts):
            if not x['local'] or not x['blocks']:
                continue
            fn = P.fn(fi)
            for h in sorted(fn.heads):
                if h not in fn.chain:
                    continue
                key = '%s %s #%d' % (cfg, x['path'], sorted(fn.heads).index(h))
                lk = (x['path'], 'loop at block %d' % h)
                R.count('loops')
                ns = [I.loops[(fi, h)] for I in mine if (fi, h) in I.loops]
                end = [I.endless[lk] for I in mine if lk in I.endless]
                unb = [I.unbounded[lk] for I in mine if lk in I.unbounded]
                if end:
                    for p in end:
                        ok = real(p['state'])
                        R.check(False if ok else None, key, 'an iteration of the loop in %s ends in the state it began in: it never ends' % x['path'],
                                'call chain %s' % (p['chain'],), p['taint'])
                elif unb:
                    R.und(key, 'no bound was found for the trip count of the loop in %s' % x['path'], unb[0])
                elif not ns and x['path'].split('::')[0] in ('responder', 'requester') and whole[cfg]:
                    R.ok(key, 'no path of an endpoint enters the loop in %s in this configuration' % x['path'])
                elif not ns:
                    R.und(key, 'the loop in %s was not reached by the analysis' % x['path'])
                else:
                    R.ok(key, 'the loop in %s ends (at most %d iterations followed one by one)' % (x['path'], max(ns)))
