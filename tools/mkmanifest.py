#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered queries."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'analyzer'))
sys.setrecursionlimit(20000)
import queries
NA = {
    'C30': 'needs the product of both endpoints over a whole session: the reply of one side is the input of the other, and the two nonces, the certificates and the signature relate values of separate explorations; the parts that are decidable per side (same layout on both sides, C12/C13; same transcript rule, C05/C06; same selection, C15/C16/C18; same challenge contents, C07; same suites, C27) are claimed there',
    'C32': 'cryptographic strength (unforgeability, unpredictability, collision resistance) is a computational assumption about ring, webpki and the operating system generator; no static analysis of this source decides it',
}
TODO = 'no check yet'
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in queries.ALL:
        q = queries.ALL[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': q.get('technique') or 'abstract interpretation of MIR',
                       'level': q['level'], 'level_note': q['rule'] + ' Assumes: ' + '; '.join(q['assume'] or ['nothing further']) + '. Trusts: ' + '; '.join(q['trust']) + '.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, TODO)})
m = {'version': 1, 'setup_cmd': 'python3 analyzer/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds a dump of the optimised-for-analysis MIR of /repo (both shipped configurations) with a rustc driver and decides its property on it; nothing of /repo is executed.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
