"""C16: as a solver the cycle keeps the solution fixed and contracts the error."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
RULE = ('random positive definite problems and stand-alone hierarchies; error propagation tabulated column by column: fixed point and independence of the '
        'right-hand side, energy norm of the cycle below that of the smoothing alone and below one, monotone repeated cycles, a larger nested coarse '
        'space; non-trivial = several agglomerates or one level')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.integers(0, 3)) == 0
    types = ['lanczos'] if mf and np > 1 else (None if mf else ['lapack', 'lapack', 'arpack', 'lanczos'])
    p = draw(hierarchy(mf, np, maxcells, maxdeg, types=types, levels=(2, 2, 2, 2, 1), steps=(1, 1, 1, 2, 3), ml='plain'))
    p['prop'] = 'C16'
    if draw(st.booleans()) and p['h'].get('coarse', {}).get('type', '').lower() != 'ml':
        p['more'] = p['k'] + draw(st.integers(1, 2))
    return p


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=150 * k, strategy=cases(1, 24, 2)), dict(np=1, n=60 * k, strategy=cases(1, 40, 3)), dict(np=2, n=100 * k, strategy=cases(2, 30, 2)),
            dict(np=3, n=80 * k, strategy=cases(3, 30, 1)), dict(np=1, n=20 * k, strategy=cases(1, 70, 1)),
            dict(np=4, n=20 * k, strategy=cases(4, 40, 1))]
