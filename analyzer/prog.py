"""The program under analysis: MIR dump plus per-function flow information."""
import json


class Fn:
    __slots__ = ('i', 'x', 'path', 'local', 'blocks', 'nb', 'prio', 'heads', 'chain', 'livein', 'addr', 'argc', 'span',
                 'ntypes', 'spread', 'succs', 'preds')


def place_uses(p, acc):
    for e in p[1]:
        if e[0] == 'i':
            acc.add(e[1])


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.raw = d
        self.types = d['types']
        self.insts = d['insts']
        self.roots = d['roots']
        self.consts = d['consts']
        self._fn = {}
        self.bypath = {}
        for i, x in enumerate(self.insts):
            self.bypath.setdefault(x['path'], []).append(i)
        for t in self.types:
            if t.get('adt') == 'core::cmp::Ordering':
                for v in t['variants']:
                    v['disc'] = v['disc'] - 256 if v['disc'] > 127 else v['disc']
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t['name'], i)

    def fn(self, i):
        f = self._fn.get(i)
        if f is None:
            f = self._fn[i] = self.build(i)
        return f

    def find(self, path):
        return self.bypath.get(path, [])

    def build(self, i):
        x = self.insts[i]
        f = Fn()
        f.i, f.x, f.path, f.local = i, x, x['path'], x['local']
        f.blocks = x['blocks']
        f.nb = len(f.blocks)
        f.argc = x['argc']
        f.spread = x['spread']
        f.span = x['span']
        succs = []
        for b in f.blocks:
            t = b['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [v[1] for v in t[3]] + [t[4]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            elif k == 'assert':
                s = [t[5]]
            else:
                s = []
            succs.append(s)
        f.succs = succs
        # reachable
        order = []
        seen = set()
        stack = [(0, iter(succs[0]))] if f.nb else []
        if f.nb:
            seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succs[m])))
                    break
            else:
                stack.pop()
                order.append(n)
        # weak topological order (Bourdoncle)
        f.prio = {}
        f.heads = {}
        f.chain = {}
        self.wto(f, succs, seen)
        # liveness
        use = []
        deff = []
        f.addr = set()
        for b in f.blocks:
            u, dd = set(), set()

            def rd(pl):
                if pl[0] not in dd:
                    u.add(pl[0])
                for e in pl[1]:
                    if e[0] == 'i' and e[1] not in dd:
                        u.add(e[1])

            def op(o):
                if o[0] in ('c', 'm'):
                    rd(o[1])

            def wr(pl):
                if not pl[1]:
                    dd.add(pl[0])
                else:
                    rd(pl)

            for s in b['s']:
                if s[0] == '=':
                    rv = s[2]
                    k = rv[0]
                    if k == 'use':
                        op(rv[1])
                    elif k == 'rep':
                        op(rv[1])
                    elif k in ('ref', 'raw'):
                        pl = rv[2] if k == 'ref' else rv[1]
                        rd(pl)
                        if not any(e[0] == '*' for e in pl[1]):
                            f.addr.add(pl[0])
                    elif k == 'cast':
                        op(rv[2])
                    elif k == 'bin':
                        op(rv[2])
                        op(rv[3])
                    elif k == 'un':
                        op(rv[2])
                    elif k == 'discr':
                        rd(rv[1])
                    elif k == 'agg':
                        for o in rv[2]:
                            op(o)
                    wr(s[1])
                elif s[0] == 'setd':
                    rd(s[1])
                elif s[0] == 'assume':
                    op(s[1])
                elif s[0] == 'copy':
                    for o in s[1:]:
                        op(o)
            t = b['t']
            if t[0] == 'switch':
                op(t[1])
            elif t[0] == 'drop':
                pass
            elif t[0] == 'call':
                c = t[1]
                if c['kind'] == 'indirect':
                    op(c['op'])
                for o in t[2]:
                    op(o)
                wr(t[3])
            elif t[0] == 'assert':
                op(t[1])
                for o in t[4]:
                    if isinstance(o, list) and o and o[0] in ('c', 'm', 'k'):
                        op(o)
            elif t[0] == 'return':
                u.add(0)
            use.append(u)
            deff.append(dd)
        livein = [set() for _ in range(f.nb)]
        ch = True
        while ch:
            ch = False
            for n in order:
                o = set()
                for m in succs[n]:
                    o |= livein[m]
                o = use[n] | (o - deff[n])
                if o != livein[n]:
                    livein[n] = o
                    ch = True
        f.livein = livein
        return f

    def wto(self, f, succs, reach):
        """Priorities such that a loop's blocks are contiguous and loop exits come after."""
        import sys
        sys.setrecursionlimit(20000)
        dfn = {v: 0 for v in reach}
        num = [0]
        stack = []

        def visit(v, partition):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head = num[0]
            loop = False
            for w in succs[v]:
                if dfn[w] == 0:
                    m = visit(w, partition)
                else:
                    m = dfn[w]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = float('inf')
                el = stack.pop()
                if loop:
                    while el != v:
                        dfn[el] = 0
                        el = stack.pop()
                    partition.insert(0, component(v))
                else:
                    partition.insert(0, v)
            return head

        def component(v):
            part = []
            for w in succs[v]:
                if dfn[w] == 0:
                    visit(w, part)
            return [v, part]

        top = []
        if f.nb:
            visit(0, top)
        n = [0]

        def assign(part, chain):
            for e in part:
                if isinstance(e, list):
                    h, sub = e
                    n[0] += 1
                    pos = n[0]
                    c2 = chain + ((h, pos),)
                    f.heads[h] = pos
                    f.prio[h] = pos
                    f.chain[h] = c2
                    assign(sub, c2)
                else:
                    n[0] += 1
                    f.prio[e] = n[0]
                    f.chain[e] = chain
        assign(top, ())

    # ---- types
    def ty(self, i):
        return self.types[i]

    def is_u8(self, i):
        t = self.types[i]
        return t['k'] == 'int' and t.get('bits') == 8 and not t.get('signed')

    def bits(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'int':
            return t['bits'], t['signed']
        if k == 'bool':
            return 1, False
        if k == 'char':
            return 32, False
        return None
