"""C14: one cycle equals the textbook two-level cycle with the Galerkin operator."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
RULE = ('random positive definite problems and hierarchy parameters (levels, steps, smoothers, mode, eigensolvers, fast product, timer); cycle against a dense '
        'textbook cycle using the smoother as a black box, zero and tiny right-hand sides, huge starts, both entry points; Galerkin operator against dense '
        'algebra; non-trivial = several agglomerates with smoothing and a smaller coarse space, or one level')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.integers(0, 2)) == 0
    types = ['lanczos'] if mf and np > 1 else (None if mf else ['lapack', 'lapack', 'arpack', 'lanczos'])
    p = draw(hierarchy(mf, np, maxcells, maxdeg, types=types, ml='any'))
    p['prop'] = 'C14'
    if mf and draw(st.booleans()):
        p['cdiag'] = draw(st.sampled_from(['zero', 'zeros', 'one']))
    if draw(st.booleans()):
        p['h']['is preconditioner'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        p['timer'] = True
    if not mf and np == 1 and draw(st.integers(0, 19)) == 0:
        p['h']['smoother'] = {'type': draw(st.sampled_from(['Symmetric Gauss-Seidel', 'Gauss-Seidel'])), 'n_smoothing_steps': draw(st.sampled_from([128, 256, 257, 400]))}
    return p


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=250 * k, strategy=cases(1, 24, 2)), dict(np=1, n=120 * k, strategy=cases(1, 50, 3)), dict(np=2, n=150 * k, strategy=cases(2, 40, 2)),
            dict(np=3, n=120 * k, strategy=cases(3, 40, 2)), dict(np=1, n=20 * k, strategy=cases(1, 180, 1)),
            dict(np=4, n=20 * k, strategy=cases(4, 40, 1))]
