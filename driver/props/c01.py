"""C01: agglomerates partition the locally owned cells."""
from hypothesis import strategies as st
from common import adaptive, agglomeration, dims, many, mesh, ncells
SRC, GROUP, BIN = 'p_amge.cc', 'amge', 'amge'
RULE = ('meshes (boxes with 1..9 cells per direction and 0..4 global refinements, balls, L-shapes, two disconnected boxes, warped or '
        'not, locally refined for zoltan and metis; 2D and 3D), sequences of 1..4 agglomeration calls, with user data in the cells, refinement or '
        'repartitioning in between (block/zoltan/metis in random letter case, block sizes 1..5, counts up '
        'to the number of cells), 1-4 ranks; non-trivial = some call gives at least 2 agglomerates, one of them with several cells')
CAP = {'quick': 40, 'thorough': 600}


@st.composite
def cases(draw, np, maxcells):
    dim = draw(dims())
    m = draw(mesh(dim, maxcells))
    cells = ncells(m, dim)
    aggs = draw(st.lists(agglomeration(dim, max(1, cells // np)), min_size=1, max_size=4))
    if draw(st.booleans()):
        aggs.append(dict(draw(st.sampled_from(aggs))))
    draw(adaptive(m, aggs))
    if draw(st.integers(0, 3)) == 0:  # something happens to the mesh before a call
        k = draw(st.integers(0, len(aggs) - 1))
        what = ['noise', 'noise', 'repart'] + (['refine'] if cells * 2 ** dim <= 2 * maxcells else [])
        aggs[k] = dict(aggs[k], before=draw(st.sampled_from(what)))
    return {'prop': 'C01', 'dim': dim, 'mesh': m, 'aggs': aggs, 'fresh': draw(st.booleans())}


@st.composite
def big(draw, np):
    dim = draw(dims())
    m, a = draw(many(dim, np))
    return {'prop': 'C01', 'dim': dim, 'mesh': m, 'aggs': [a] + draw(st.lists(agglomeration(dim, 400), max_size=1)), 'fresh': draw(st.booleans())}


def shards(tier):
    if tier == 'quick':
        return [dict(np=1, n=25, strategy=big(1)), dict(np=2, n=10, strategy=big(2))] + [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 1000, 150), (1, 1000, 150), (1, 150, 900), (2, 700, 150), (3, 600, 150), (4, 300, 150), (2, 80, 900))]
    return [dict(np=1, n=300, strategy=big(1)), dict(np=2, n=200, strategy=big(2))] + [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 6000, 150), (1, 3000, 600), (2, 4000, 300), (3, 4000, 300),
                                                                   (4, 3000, 600))]
