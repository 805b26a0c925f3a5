"""Stand-alone analyses of the message decoders and encoders."""
from interp import *
from models import *


class Alone:
    """one function of the crate on arbitrary arguments (within the type invariants)"""

    def __init__(self, prog, hooks=None, cls=None):
        self.P = prog
        self.I = (cls or Interp)(prog, Models())
        for k, v in (hooks or {}).items():
            self.I.hooks[k] = v

    def run(self, fn, names=(), given={}):
        """(state before, arguments, [(state, result)])"""
        I = self.I
        st = State()
        f = self.P.insts[fn]
        a = []
        for k, ty in enumerate(f['locals'][1:f['argc'] + 1]):
            nm = names[k] if k < len(names) else 'arg%d' % k
            a.append(given[k](st) if k in given else I.sym(ty, nm, st))
        pre = st.clone()
        return pre, a, I.run(fn, a, st, 0)
