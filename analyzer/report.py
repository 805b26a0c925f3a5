"""Obligations, evidence and the outcome of a check."""
import json, os, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = {}          # key -> [status, what, detail]
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.t0 = time.time()
        self.cur = None        # (configuration, role, phase) under inspection
        self.st = None         # state of the outcome under inspection
        self.where = {}        # key -> phases whose outcomes failed it
        self.fails = {}        # key -> [(phase, state)] of the outcomes that violate it

    def _set(self, key, status, what, detail):
        rank = {'ok': 0, 'undecided': 1, 'violated': 2}
        if status != 'ok':
            self.where.setdefault(key, set()).add(self.cur)
        if status == 'violated':
            fs = self.fails.setdefault(key, [])
            if not any(w == self.cur and s is self.st for w, s in fs):
                fs.append((self.cur, self.st))
        o = self.obl.get(key)
        if o is None or rank[status] > rank[o[0]]:
            self.obl[key] = [status, what, detail]

    def ok(self, key, what='', detail=None):
        self._set(key, 'ok', what, detail)

    def bad(self, key, what, detail=None):
        self._set(key, 'violated', what, detail)

    def und(self, key, what, detail=None):
        self._set(key, 'undecided', what, detail)

    def check(self, cond, key, what, detail=None, taint=False):
        """cond: True / False / None (not determined)"""
        if cond is True:
            self.ok(key, what)
        elif cond is None or taint:
            self.und(key, what, detail)
        else:
            self.bad(key, what, detail)
        return cond is True

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def by(self, status):
        return [(k, v) for k, v in sorted(self.obl.items()) if v[0] == status]
