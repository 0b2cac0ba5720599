"""C12: matrix-free operator and products with transposes."""
from hypothesis import strategies as st
from common import dims, mesh
SRC, GROUP, BIN = 'p_ops.cc', 'light', 'ops'
RULE = ('matrix-free operators backed by a random (non-symmetric) global matrix on real dof handlers, random sparse second factors with any row '
        'distribution, magnitudes 1e-20..1e20; product, apply and every extracted row compared with dense algebra; non-trivial = non-zero product '
        'with several columns')
CAP = {'quick': 45, 'thorough': 700}


def mat():
    return st.fixed_dictionaries({'seed': st.integers(0, 9999), 'fill': st.sampled_from([0.05, 0.1, 0.3, 0.7]),
                                  'mag': st.sampled_from([0, 0, 0, 4, -4, -8, 10, -10]), 'vals': st.sampled_from(['real', 'real', 'int', 'wide'])})


@st.composite
def cases(draw, np, maxcells, maxb=5):
    dim = draw(dims())
    b = draw(st.lists(st.integers(0, maxb), min_size=np, max_size=np))
    if not sum(b):
        b[0] = 1
    return {'prop': 'C12', 'dim': dim, 'deg': draw(st.integers(1, 2)), 'mesh': draw(mesh(dim, maxcells, warp=False)), 'renum': draw(st.booleans()),
            'mat': draw(mat()), 'bmat': draw(mat()), 'bsizes': b}


def shards(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(np=1, n=700 * k, strategy=cases(1, 16)), dict(np=2, n=500 * k, strategy=cases(2, 16)), dict(np=3, n=400 * k, strategy=cases(3, 12)),
            dict(np=1, n=200 * k, strategy=cases(1, 40)), dict(np=1, n=50 * k, strategy=cases(1, 150, 40)), dict(np=4, n=100 * k, strategy=cases(4, 24, 8))]
