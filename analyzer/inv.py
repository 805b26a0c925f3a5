"""Type invariants assumed for arbitrary values of the crate's own types.

Every invariant concerns fields outside code cannot set (or documented
preconditions of plain data types); `tools`/checks verify the constructors.
An entry that no longer matches the type (renamed field) is reported in
`missing`, and queries that rely on it treat their result as undecided.
"""
from dom import *

# adt path suffix -> [(field, kind, parameter)]
#   le_len f g : field f <= length of field g
#   le f n     : field f <= n
TABLE = {
    'transcript::Transcript': [('le_len', 'offset', 'buf')],
    'msgs::encoding::Writer': [('le_len', 'offset', 'buf')],
    'msgs::encoding::Reader': [('le_len', 'byte_offset', 'buf'), ('zero', 'bit_offset', None)],
    'msgs::common::OpaqueData': [('le_len', 'total_elements', 'elements')],
    'msgs::common::OpaqueElement': [('le_len', 'data_len', 'data')],
    'msgs::common::DigestBuf': [('le_len', 'size', 'buf')],
    'msgs::common::SignatureBuf': [('le_len', 'size', 'buf')],
    'msgs::certificates::CertificateChain': [('le_len', 'num_intermediate_certs', 'intermediate_certs')],
    'msgs::certificates::Certificate': [('le_len', 'portion_length', 'cert_chain')],
    'msgs::algorithms::NegotiateAlgorithms': [('le_len', 'num_algorithm_requests', 'algorithm_requests')],
    'msgs::algorithms::Algorithms': [('le_len', 'num_algorithm_responses', 'algorithm_responses')],
    'msgs::version::Version': [('le_len', 'num_entries', 'entries')],
    'msgs::measurements::BitStream': [('le_len', 'len', 'buf')],
    'msgs::measurements::MeasurementBlocks': [('le_len', 'len', 'blocks')],
    'msgs::error::VendorDefined': [('le_len', 'opaque_len', 'opaque_error_data')],
}


def first_scalar(v):
    while not isinstance(v, T):
        f = getattr(v, 'f', None)
        if not f:
            return None
        v = f[0]
    return v


class Invariants:
    def __init__(self, prog, max_digest=None, max_sig=None):
        self.P = prog
        self.missing = set()
        self.used = set()
        self.masks = {}
        for c in prog.raw['consts']:
            if c['trait'] and c['trait'].endswith('::__BitFlags') and c['self'] and c['val'] and c['val'][0] == 'i':
                self.masks[c['self']] = self.masks.get(c['self'], 0) | c['val'][1]
        self.caps = {}
        # DigestSize / SignatureSize are bounded by the buffers of their own kind
        for buf, size in (('msgs::common::DigestBuf', 'msgs::common::DigestSize'),
                          ('msgs::common::SignatureBuf', 'msgs::common::SignatureSize')):
            for t in prog.types:
                if t['k'] == 'adt' and t['adt'] == buf:
                    for n, ft in t['variants'][0]['fields']:
                        u = prog.types[ft]
                        if u['k'] == 'array':
                            self.caps[size] = u['len']

    def __call__(self, I, ty, name, st):
        """symbolic value of an adt with an invariant, or None"""
        t = self.P.types[ty]
        adt = t.get('adt')
        if adt in self.masks and t['kind'] == 'struct':
            fs = t['variants'][0]['fields']
            if len(fs) == 1:
                return I.Agg((self.flag(I, fs[0][1], name, self.masks[adt]),))
        if adt in self.caps:
            fs = t['variants'][0]['fields']
            if len(fs) == 1 and self.P.types[fs[0][1]]['k'] == 'int':
                return I.Agg((nvar(name, 0, self.caps[adt]),))
            self.missing.add(adt)
        ent = TABLE.get(adt)
        if ent is None or st is None:
            return None
        fs = t['variants'][0]['fields']
        v = I.Agg(tuple(I.sym(f[1], name + '.' + f[0], st) for f in fs))
        names = {f[0]: i for i, f in enumerate(fs)}
        for kind, f, g in ent:
            if f not in names or (g is not None and g not in names):
                self.missing.add('%s.%s' % (adt, f if f not in names else g))
                continue
            self.used.add('%s.%s' % (adt, f))
            x = first_scalar(v.f[names[f]])
            if x is None:
                self.missing.add('%s.%s' % (adt, f))
                continue
            if kind == 'zero':
                st.f.assume(eq(x, ZERO))
                continue
            w = v.f[names[g]]
            n = I.length(st, w)
            if n is None:
                self.missing.add('%s.%s' % (adt, g))
                continue
            st.f.assume(le(x, n))
        return v

    def flag(self, I, ity, name, mask):
        b = self.P.types[ity]['bits']
        return and_(nvar(name, 0, (1 << b) - 1), mask)
