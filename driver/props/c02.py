"""C02: interior layers and halos of agglomerates."""
from hypothesis import strategies as st
from common import adaptive, agglomeration, dims, many, mesh, ncells
SRC, GROUP, BIN = 'p_amge.cc', 'amge', 'amge'
RULE = ('meshes as in C01, 1-2 agglomerations per mesh, 1-4 ranks; both layers of every agglomerate are compared with a brute-force '
        'search over shared vertices; non-trivial = an agglomerate with cells away from its boundary, ghost cells in a halo, or at '
        'least 4 agglomerates')
CAP = {'quick': 40, 'thorough': 600}


@st.composite
def cases(draw, np, maxcells):
    dim = draw(dims())
    m = draw(mesh(dim, maxcells))
    cells = ncells(m, dim)
    aggs = draw(st.lists(agglomeration(dim, max(1, cells // np), maxagg=max(1, cells // (2 * np))), min_size=1, max_size=2))
    draw(adaptive(m, aggs))
    return {'prop': 'C02', 'dim': dim, 'mesh': m, 'aggs': aggs}


@st.composite
def big(draw, np):
    dim = draw(dims())
    m, a = draw(many(dim, np))
    return {'prop': 'C02', 'dim': dim, 'mesh': m, 'aggs': [a]}


def shards(tier):
    if tier == 'quick':
        return [dict(np=1, n=25, strategy=big(1)), dict(np=2, n=10, strategy=big(2))] + [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 500, 150), (1, 400, 250), (1, 60, 900), (2, 500, 150), (3, 400, 150), (2, 40, 600))]
    return [dict(np=1, n=300, strategy=big(1)), dict(np=2, n=200, strategy=big(2))] + [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 6000, 150), (1, 3000, 700), (2, 4000, 300), (3, 4000, 300),
                                                                   (4, 3000, 600))]
