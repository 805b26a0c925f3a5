"""Whole-crate effect queries."""
from queries import query


@query('C23', 'Effect query over the type-checked crate in both configurations: no unsafe block, function, impl, trait or '
              'foreign item is written in the crate; no static is mutable or interior-mutable; neither std nor alloc is a '
              'direct dependency, and no reachable monomorphic function of the crate calls into them; every struct and enum '
              'satisfies Send when instantiated with a Send signer.',
       assume=['crates the library depends on (bitflags; ring, webpki, rand, ring_compat with crypto) keep their own '
               'documented no_std/no-alloc behaviour'])
def c23(C, R):
    for cfg in ('c', 'n'):
        P = C.prog(cfg)
        d = P.raw
        R.count('functions analysed', sum(1 for x in d['insts'] if x['local']))
        for k, sp in d['unsafe_code']:
            R.bad('%s %s' % (k, sp[0] if sp else '?'), '%s at %s' % (k, sp))
        R.ok('unsafe-%s' % cfg, 'no unsafe code in the crate')
        for path, mut, freeze, sp in d['statics']:
            if mut or not freeze:
                R.bad('static ' + path, 'mutable or interior-mutable static %s at %s' % (path, sp))
            else:
                R.ok('static ' + path, 'immutable static')
        R.ok('statics-%s' % cfg, 'no mutable global state')
        for name, direct in d['crates']:
            if direct and name in ('std', 'alloc'):
                R.bad('links ' + name, 'the library depends directly on %s' % name)
            elif direct:
                R.ok('crate %s-%s' % (name, cfg), 'direct dependency is not std or alloc')
        calls = 0
        for x in d['insts']:
            if not x['local']:
                continue
            for b in x['blocks']:
                t = b['t']
                if t[0] != 'call':
                    continue
                calls += 1
                cal = t[1]
                nm = callee_path(cal)
                if nm and (nm.startswith('alloc::') or nm.startswith('std::')):
                    R.bad('%s calls %s' % (x['path'], nm), 'call into %s' % nm.split('::')[0], b.get('sp'))
        R.count('call sites', calls)
        R.ok('calls-%s' % cfg, 'no call site of the crate resolves into std or alloc')
        for path, pub, tid, send in d['adts']:
            # private helpers that never live inside an endpoint do not matter
            R.check(bool(send), 'Send %s' % path, '%s is Send when the signer is' % path)


def callee_path(c):
    if isinstance(c, dict):
        return c.get('rpath') or c.get('path')
    if isinstance(c, list):
        for y in c:
            r = callee_path(y)
            if r:
                return r
    return None
