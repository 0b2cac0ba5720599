"""C25: matrix-free and matrix-based paths agree on the same operator."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
from c06 import eig
RULE = ('random positive definite problems given to both evaluators with any pair of their eigensolvers; agglomerates identical, operators, products and coarse '
        'operators equal entry by entry and in action, restrictor rows in the same spaces within the solver tolerances over the spectral gap, coarse '
        'corrections equal; non-trivial = several agglomerates')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    tf = ['lanczos', 'anasazi', 'anasazi'] if np == 1 else ['lanczos']
    p = draw(hierarchy(True, np, maxcells, maxdeg, types=tf, levels=(2,), fast=False))
    p['prop'] = 'C25'
    p['eigf'] = p.pop('eig')
    e, k, t = draw(eig(False, ['lapack', 'lapack', 'arpack', 'lanczos'] + (['anasazi'] if p['eigf'].get('type') == 'anasazi' else [])))
    e['number of eigenvectors'] = p['k']
    if 'num_cycles' in e:
        e['num_cycles'] = p['k']
    if t == 'lanczos':
        e['max_iterations'] = 3000
    if t == 'anasazi':
        e['tolerance'] = 1e-8
    p['eigb'] = e
    p['mf'] = False
    return p


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=200 * k, strategy=cases(1, 24, 2)), dict(np=1, n=80 * k, strategy=cases(1, 50, 3)), dict(np=2, n=130 * k, strategy=cases(2, 40, 2)),
            dict(np=3, n=100 * k, strategy=cases(3, 40, 2)), dict(np=1, n=20 * k, strategy=cases(1, 180, 1)),
            dict(np=4, n=20 * k, strategy=cases(4, 40, 1))]
