"""The property queries: id -> query, rule, assumptions."""
ALL = {}

TRUST = ['rustc nightly: parsing, type checking and MIR construction', 'the MIR dump driver (driver/src/main.rs)',
         'the abstract interpreter and its models of core library functions (analyzer/*.py)']


def query(pid, rule, level='proof', assume=(), trust=()):
    def deco(fn):
        ALL[pid] = {'fn': fn, 'rule': rule, 'level': level, 'assume': list(assume), 'trust': TRUST + list(trust)}
        return fn
    return deco


import q_global  # noqa
import q_endpoint  # noqa
import q_neg  # noqa
import q_codec  # noqa
import q_chain  # noqa
import q_der  # noqa
import q_suite  # noqa
import q_term  # noqa
