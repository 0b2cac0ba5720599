"""C21: evaluator services."""
from hypothesis import strategies as st
from common import dims, mesh
SRC, GROUP, BIN = 'p_ops.cc', 'light', 'ops'
RULE = ('meshes x degrees x renumberings x 1-4 ranks with a random global matrix (missing and zero diagonal entries included): diagonal at every locally '
        'relevant degree of freedom, again after the operator changed; initial guesses for generated constraints; non-trivial = ghost degrees of freedom '
        'present (several ranks) or more than four degrees of freedom')
CAP = {'quick': 40, 'thorough': 500}


@st.composite
def cases(draw, np, maxcells):
    dim = draw(dims())
    return {'prop': 'C21', 'dim': dim, 'deg': draw(st.integers(1, 2)), 'mesh': draw(mesh(dim, maxcells, warp=False)), 'renum': draw(st.booleans()),
            'mat': {'seed': draw(st.integers(0, 9999)), 'fill': draw(st.sampled_from([0.0, 0.05, 0.2]))},
            'every': draw(st.sampled_from([0, 1, 2, 3, 5])), 'guess': draw(st.integers(1, 60)), 'cons': draw(st.lists(st.integers(0, 99), max_size=20))}


def shards(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(np=1, n=500 * k, strategy=cases(1, 30)), dict(np=2, n=400 * k, strategy=cases(2, 30)), dict(np=3, n=300 * k, strategy=cases(3, 30)),
            dict(np=4, n=200 * k, strategy=cases(4, 24)), dict(np=1, n=60 * k, strategy=cases(1, 250)), dict(np=2, n=40 * k, strategy=cases(2, 250))]
