"""C13: the fast product of operator and prolongator is exact."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
from prob import manyfy
RULE = ('random elliptic problems (2d/3d, degree 1-3, all coefficients, magnitudes, constraints, meshes and partitioners) with every eigensolver; product of the '
        'fast path against the dense product with the transposed restrictor up to the local residual, its layouts and action, the coarse operator, '
        'the cycle of both paths; non-trivial = several agglomerates')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.integers(0, 2)) == 0
    types = (['lanczos', 'anasazi', 'anasazi'] if np == 1 else ['lanczos']) if mf else ['lapack', 'lapack', 'arpack', 'arpack', 'lanczos']
    p = draw(hierarchy(mf, np, maxcells, maxdeg, levels=(2,), types=types, fast=False, neumann=draw(st.booleans()),
                       maxk=6,
                       kinds=draw(st.sampled_from([None, None, ['split']]))))
    p['prop'] = 'C13'
    # indefinite, or negative definite: the shift of the agglomerate operator relies on positive eigenvalues with ARPACK
    if not mf and p['eig'].get('type') == 'lapack' and draw(st.integers(0, 3)) == 0:
        p['mass'] = draw(st.sampled_from([-0.1, -1.0, -30.0, -1000.0]))
    if mf and draw(st.booleans()):
        p['cdiag'] = draw(st.sampled_from(['zero', 'zeros', 'one']))
    return p


@st.composite
def big(draw, np):
    p = draw(cases(np, 12, 1))
    return draw(manyfy(p, np))


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=3 * k, strategy=big(1)), dict(np=2, n=2 * k, strategy=big(2)), dict(np=1, n=220 * k, strategy=cases(1, 24, 2)), dict(np=1, n=120 * k, strategy=cases(1, 60, 3)), dict(np=2, n=150 * k, strategy=cases(2, 40, 2)),
            dict(np=3, n=120 * k, strategy=cases(3, 60, 2)), dict(np=1, n=20 * k, strategy=cases(1, 180, 1)),
            dict(np=4, n=20 * k, strategy=cases(4, 40, 1))]
