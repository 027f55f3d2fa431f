#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
DER = 'generated programs against forward-over-forward derivatives by plain JAX'
T = {
 'C17': 'generated functions, axes and chunk sizes against jax.vmap', 'C18': 'generated histories against a dictionary model of the registry',
 'C19': 'generated programs against partial derivatives by JAX', 'C20': 'generated containers and operation sequences against exact dense arithmetic',
 'C21': 'generated functions against jax.vmap; generated programs against a liveness model', 'C22': 'generated trees against flat vectors and leaf-wise NumPy',
 'C23': 'generated functions with true annotations against unannotated wrapping and derivatives by JAX',
 'C15': DER + '; metamorphic: compiled, batched, differentiated', 'C16': DER + '; the operators against each other',
 'C14': 'generated programs cut into stages against derivatives of the composition by JAX',
 'C03': 'generated particle-wise programs against the particle structure; invariants of the index arrays of generated programs',
}
N = {c: 'Search over generated cases, nothing is exhaustive; trusts JAX derivatives in float64 and inputs away from kinks.' for c in [p['id'] for p in props]}
N.update({'C17': 'Search over generated cases; trusts jax.vmap.', 'C18': 'Search over generated histories; trusts JAX derivatives.', 'C20': 'Search over generated containers with exactly representable values.',
 'C21': 'Search over generated cases; the device memory is a stand-in.', 'C22': 'Search over generated trees with NumPy as reference.',
 'C03': 'Search over generated programs; the structural claims are checked on programs whose particle structure is known by construction.'})
checks = []
na = []
for p in props:
    c = p['id']
    if os.path.exists(os.path.join(V, 'pbt/checks', c.lower() + '.py')):
        checks.append(dict(property=c, quick_cmd=f'/opt/venv/bin/python check.py {c}', thorough_cmd=f'/opt/venv/bin/python check.py {c} --tier thorough', evidence_file=f'evidence/{c}.json',
            technique='property-based testing: ' + T.get(c, DER), level='exploration', level_note=N[c]))
    else:
        na.append(dict(property=c, reason='The check is not built yet.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python prepare.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. check.py ID [--tier quick|thorough] [--replay FILE]. VERIF_SEED seeds every random choice, PBT_BUDGET overrides the seconds of a check.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
