"""C03: extracted agglomerate meshes and dof maps."""
from hypothesis import strategies as st
from common import agglomeration, dims, mesh, ncells
SRC, GROUP, BIN = 'p_amge.cc', 'amge', 'amge'
RULE = ('meshes as in C01 with up to 5 boundary colours, element degree 1-3, renumbered or not, 1-4 ranks; patches of agglomerates, '
        'of both boundary layers and of arbitrary ascending lists of owned and ghost cells are compared cell by cell, face by face and '
        'dof by dof with the global mesh; non-trivial = an agglomerate with several cells that is not the whole mesh')
CAP = {'quick': 40, 'thorough': 700}


@st.composite
def cases(draw, np, maxcells):
    dim = draw(dims())
    deg = draw(st.integers(1, 3))
    m = draw(mesh(dim, maxcells if dim == 2 else maxcells // deg, nbid=5))
    if draw(st.booleans()):  # colours from the whole range of boundary ids
        m['bids'] = draw(st.lists(st.one_of(st.integers(0, 300), st.sampled_from([127, 128, 255, 256, 32768, 65535, 65536, 70000, 2 ** 31, 2 ** 32 - 2 - 100])),
                                  min_size=m['nbid'], max_size=m['nbid']))
    cells = ncells(m, dim)
    agg = draw(agglomeration(dim, max(1, cells // np), cased=False, maxagg=max(1, cells // (2 * np))))
    return {'prop': 'C03', 'dim': dim, 'deg': deg, 'mesh': m, 'agg': agg, 'pick': draw(st.integers(0, 99)),
            'limit': draw(st.integers(1, 4)), 'renum': draw(st.booleans())}


def shards(tier):
    if tier == 'quick':
        return [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 800, 100), (1, 800, 100), (1, 60, 600), (2, 700, 120), (3, 700, 120), (4, 200, 200))]
    return [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 3000, 100), (1, 1500, 300), (2, 2500, 200), (3, 2500, 200),
                                                                   (4, 2000, 300))]
