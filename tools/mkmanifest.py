#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness annotations."""
import json, re, glob
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = {}
for f in sorted(glob.glob(root + '/harness/zz_verif_*.go') + glob.glob(root + '/harness/main/zz_verif_*.go')):
    for m in re.finditer(r'(?m)^//verif:prop (C\d+)$', open(f).read()):
        have[m.group(1)] = have.get(m.group(1), 0) + 1
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s -tier quick' % i,
            'thorough_cmd': './check.sh %s -tier thorough' % i,
            'technique': 'symbolic execution of the Go SSA of /repo with z3 (bit-vectors); assertions decided for all values on every path within the bounds; counterexamples replayed on the compiled code',
            'level': 'model_checking',
            'level_note': 'All paths of the harnesses over the real code within the bounds listed in DESIGN.md and the evidence file, for every value of the symbolic inputs; nothing is claimed outside the bounds. Trusts the SSA interpreter in symex/ and its models of the standard library (validated by running the repository tests in it and by replaying sampled paths natively) and z3.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses are laid over the package with an overlay. known_findings.json lists known and fixed findings.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
