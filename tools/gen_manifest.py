#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PY = '/opt/veriftools/pyvenv/bin/python'
props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
    'C01': 'generated meshes, rank counts and repeated agglomerations vs an independent recomputation of the partition rules',
    'C02': 'generated agglomerations vs brute-force vertex adjacency',
    'C03': 'generated cell sets vs geometric comparison with the global mesh and patchwise assembly',
    'C04': 'generated local data vs the scatter formula in dense algebra',
    'C05': 'generated elliptic problems and agglomerations vs weights, eigenpairs and layout recomputed densely',
    'C06': 'generated elliptic problems, agglomerates and eigensolvers vs a dense Jacobi eigensolver',
    'C07': 'operators with a generated prescribed spectrum, plain and deflated solves, exhausted Krylov spaces',
    'C08': 'generated add/deflate/apply histories vs an extended-precision projection',
    'C09': 'operators with a generated prescribed spectrum and start blocks',
    'C10': 'stateful histories of block-vector operations vs a dense column model with aliasing',
    'C11': 'generated histories of operator algebra vs dense algebra',
    'C12': 'generated matrix-free operators and sparse factors vs dense algebra',
    'C13': 'generated problems, agglomerates and eigensolvers: fast product vs the dense product, and vs the regular path',
    'C14': 'generated problems and hierarchy parameters: one cycle vs a dense textbook cycle',
    'C15': 'generated hierarchies tabulated as maps: linearity, symmetry, definiteness, conjugate gradients',
    'C16': 'generated stand-alone hierarchies tabulated as maps: fixed point, energy norm, nested coarse spaces',
    'C23': 'generated configurations with planted defects (exception due) or equivalent spellings (same result due)',
    'C24': 'metamorphic: built again, on a new mesh, renumbered, scaled operators',
    'C25': 'differential: both evaluators on the same generated problem',
    'C26': 'generated problems and thread counts with generated delays in the user callbacks: several threads vs one thread',
    'C28': 'fault injection at generated callbacks of set-up and application, with several threads; exact comparison with an undisturbed run',
    'C17': 'generated matrices and names vs textbook stationary iterations',
    'C18': 'generated linear systems and ML parameters vs dense LU and a hand-made ML object',
    'C21': 'generated meshes, operators and constraints vs the global matrix',
    'C22': 'generated meshes, matrices and vectors written and parsed back (round trip)',
    'C19': 'Hypothesis-generated property trees vs an independent classification oracle',
    'C20': 'Hypothesis-generated sequences/permutations vs naive reference',
}
NOTE = {}
DEFAULT_NOTE = ('Random search with shrinking over generated cases against an independent oracle; shows no violation on the '
                'explored cases, does not prove absence. Trusts deal.II/Trilinos and the dense reference algebra.')
NA = {
    'C27': 'needs a GPU and the CUDA toolkit; the device code is not even compiled in this environment',
}
for p in props:
    if p not in TECH and p not in NA:
        NA[p] = 'check under construction'
checks = []
for p in props:
    if p in TECH:
        c = '%s driver/run_check.py %s' % (PY, p)
        checks.append(dict(property=p, quick_cmd='env VERIF_TIER=quick ' + c, thorough_cmd='env VERIF_TIER=thorough ' + c, evidence_file='evidence/%s.json' % p,
                           technique='property-based testing: ' + TECH[p], level='exploration',
                           level_note=NOTE.get(p, DEFAULT_NOTE)))
m = dict(version=1, setup_cmd='%s driver/setup.py' % PY, checks=checks,
         not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA and p not in TECH],
         notes='No hooks: the checks compile /repo as it is. Objects are cached in /verif/build by content.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
