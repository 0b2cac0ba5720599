#!/usr/bin/python3
"""Regenerates the "fixed" list of known_findings.json from the fix commits in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, 'known_findings.json')
d = json.load(open(f)) if os.path.exists(f) else {'findings': []}
KEYS = [('agglomerates without cells', 'C23'), ('number of eigenvectors', 'C23'), ('smoothing steps', 'C23'), ('missing eigenpairs of an agglomerate with LAPACK', 'C23'), ('ghost cells by an earlier', 'C01'), ('MvAddMv', 'C10'), ('exceptions of patches', 'C28'), ('not reentrant', 'C26'), ('exceptions of agglomerates', 'C23'), ('operator products', 'C23'), ('restriction weights', 'C05'), ('number of levels', 'C23'), ('operators of another kind', 'C23'), ('fast product', 'C13'), ('hierarchy parameters', 'C23'), ('XML', 'C19'), ('block partitioner', 'C01'), ('agglomerate take cells', 'C01'), ('pvtu', 'C22'), ('MatrixMarket', 'C22'),
        ('product with a transpose', 'C12'), ('smoothed aggregation defaults', 'C18'),
        ('LAPACK', 'C06'), ('ARPACK', 'C06'), ('LOBPCG', 'C06'), ('Lanczos vectors orthogonal', 'C06')]
EXTRA = os.path.join(V, 'tools', 'fix_map.json')
if os.path.exists(EXTRA):
    KEYS = [tuple(x) for x in json.load(open(EXTRA))] + KEYS
out = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, _, s = line.partition(' ')
    if s.startswith('fix:'):
        p = next((p for k, p in KEYS if k in s), 'C07')
        out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1)
print('\n'.join(out))
