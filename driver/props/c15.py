"""C15: as a preconditioner the hierarchy is a fixed symmetric positive map."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
RULE = ('random positive definite problems and hierarchies in preconditioner mode; the whole map is tabulated column by column: linearity on random and tiny '
        'right-hand sides, previous content of the output huge or not a number, symmetry, definiteness when the smoother converges, conjugate gradients '
        'to the true solution; non-trivial = several agglomerates or one level')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.integers(0, 2)) == 0
    types = ['lanczos'] if mf and np > 1 else (None if mf else ['lapack', 'lapack', 'arpack', 'lanczos'])
    p = draw(hierarchy(mf, np, maxcells, maxdeg, types=types, levels=(2, 2, 2, 2, 1), ml='plain'))
    p['prop'] = 'C15'
    if draw(st.booleans()):
        p['h']['is preconditioner'] = True
    return p


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=150 * k, strategy=cases(1, 24, 2)), dict(np=1, n=60 * k, strategy=cases(1, 40, 3)), dict(np=2, n=100 * k, strategy=cases(2, 30, 2)),
            dict(np=3, n=80 * k, strategy=cases(3, 30, 1)), dict(np=1, n=20 * k, strategy=cases(1, 70, 1)),
            dict(np=4, n=20 * k, strategy=cases(4, 40, 1))]
