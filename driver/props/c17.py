"""C17: smoothers vs the stationary iterations they are named after."""
from hypothesis import strategies as st
from common import dims, letter_case, mesh
SRC, GROUP, BIN = 'p_ops.cc', 'light', 'ops'
RULE = ('random sparse matrices (symmetric or not, dominant or not, any magnitude) and every smoother name in any letter case; B^-1 column by column '
        'against a textbook implementation (rankwise on several ranks), affinity, fixed point, unmodified b, repeatability, unknown names; matrix-free '
        'Chebyshev against a hand-made deal.II object and the reach of its degree; non-trivial = couplings / degree above one')
CAP = {'quick': 45, 'thorough': 700}
NAMES = ['Symmetric Gauss-Seidel', 'Gauss-Seidel', 'Jacobi', 'ILU']
BAD = ['', 'sor', 'ilu0', 'Gauss Seidel', 'symmetric gauss-seidel ', 'chebyshev', 'block jacobi', 'none', 'ssor', 'ic']


def mat(spd=False):
    return st.fixed_dictionaries({'seed': st.integers(0, 9999), 'fill': st.sampled_from([0.1, 0.3, 0.3, 0.6]), 'mag': st.sampled_from([0, 0, 5, -5, 9, -9]),
                                  'kind': st.sampled_from(['spd', 'gen', 'sym']), 'dom': st.sampled_from([1.1, 1.1, 0.9, 2.0]),
                                  'negdiag': st.booleans()})


@st.composite
def cases(draw, np, hi):
    own = draw(st.lists(st.integers(0, hi), min_size=np, max_size=np))
    if not sum(own):
        own[0] = 1
    t = draw(st.sampled_from(NAMES + [None] + (['bad'] if draw(st.integers(0, 5)) == 0 else [])))
    if t == 'bad':
        t = draw(st.sampled_from(BAD))
    elif t:
        t = draw(letter_case(t))
    p = {} if t is None else {'smoother': {'type': t}}
    return {'prop': 'C17', 'own': own, 'mat': draw(mat()), 'params': p}


@st.composite
def mf(draw, np, maxcells):
    dim = draw(dims())
    s = {}
    if draw(st.booleans()):
        s['type'] = draw(letter_case('Chebyshev'))
        if draw(st.integers(0, 9)) == 0:
            s['type'] = draw(st.sampled_from(['jacobi', 'cheb', 'Symmetric Gauss-Seidel', 'chebyshev1']))
    if draw(st.integers(0, 4)):
        s['degree'] = draw(st.one_of(st.integers(1, 7), st.integers(1, 20)))
    if draw(st.booleans()):
        s['smoothing_range'] = draw(st.sampled_from([-2.0, 0.0, 0.5, 1.0, 1.2, 2.0, 5.0, 15.0, 20.0, 30.0, 200.0]))
    if draw(st.integers(0, 3)) == 0:
        s['max_eigenvalue'] = draw(st.sampled_from([0.5, 1.0, 2.0]))
    m = draw(mat())
    m['fill'] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.3]))
    m['dom'] = draw(st.sampled_from([1.01, 1.1, 2.0]))
    return {'prop': 'C17', 'dim': dim, 'deg': 1, 'mesh': draw(mesh(dim, maxcells, warp=False)), 'mat': m, 'src': draw(st.integers(0, 99)),
            'params': {'smoother': s} if s else {}}


def shards(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(np=1, n=1500 * k, strategy=cases(1, 14)), dict(np=2, n=700 * k, strategy=cases(2, 8)), dict(np=3, n=500 * k, strategy=cases(3, 6)),
            dict(np=1, n=500 * k, strategy=mf(1, 20)), dict(np=2, n=300 * k, strategy=mf(2, 16)), dict(np=1, n=60 * k, strategy=mf(1, 90)), dict(np=1, n=60 * k, strategy=cases(1, 120))]
