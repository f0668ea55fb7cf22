#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed = the keys of prover/props.py's PROPS."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
src = open(os.path.join(H, 'prover', 'props.py')).read()
claimed = set(re.findall(r"^    '(C\d\d)': dict\(", src, re.M))
NA = {
 'C24': 'Computational soundness and zero knowledge quantify over all efficient adversaries under the discrete-logarithm '
        'and strong Diffie-Hellman assumptions; a function contract cannot express it.',
}
TODO = 'The contracts that decide it are not complete yet.'
LEVEL = {}
NOTE = ('Every contract the property depends on is verified against the body in /repo on every run, for all inputs, loops '
        'by inferred invariants; callers are checked against callee contracts. Trusted: the SSA front end, the verifier in '
        'prover/ with its models of math/big and other library functions, z3 for linear integer side conditions. '
        'The replay driver that runs the real code is bounded and is not counted as proof.')
NOTES = {}
exec(open(os.path.join(H, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'notes.py')) else None
m = {'version': 1,
     'setup_cmd': '. /opt/vp/env.sh; cd /verif/front && go build -o ../build/front . && cd .. && python3-vt check.py --warm',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in claimed:
        m['checks'].append({'property': i, 'quick_cmd': f'python3-vt check.py {i}',
                            'thorough_cmd': f'python3-vt check.py {i} --thorough',
                            'technique': 'contract-based deductive verification of the Go SSA form (weakest-precondition style '
                                         'symbolic execution, normal forms modulo the field and group orders, z3)',
                            'level': LEVEL.get(i, 'proof'), 'level_note': (NOTES.get(i, '') + ' ' + NOTE).strip()})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, TODO)})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
