"""C04: restriction matrix = weighted scatter of the local vectors."""
from hypothesis import assume, strategies as st
from common import dims, mesh
SRC, GROUP, BIN = 'p_amge.cc', 'amge', 'amge'
RULE = ('synthetic local data on real dof handlers: 0-4 agglomerates per rank with 0-3 vectors each on random sets of owned and ghost '
        'dofs, random diagonals over 12 orders of magnitude, 1-4 ranks; both overloads compared entry by entry with the formula; '
        'non-trivial = several agglomerates with several vectors, or ghost dofs in a map')
CAP = {'quick': 40, 'thorough': 700}


@st.composite
def cases(draw, np, maxcells, maxagg=4, maxk=3):
    dim = draw(dims())
    m = draw(mesh(dim, maxcells, kinds=['box', 'box', 'ball', 'split'], warp=False))
    agg = st.tuples(st.integers(0, maxk), st.integers(1, 30), st.integers(0, 999)).map(list)
    data = [draw(st.lists(agg, max_size=maxagg)) for _ in range(np)]
    if sum(a[0] for r in data for a in r) == 0:
        data[draw(st.integers(0, np - 1))].append([draw(st.integers(1, 3)), draw(st.integers(1, 9)), 0])
    more = {'vmag': draw(st.integers(-40, 40))} if draw(st.booleans()) else {}
    if draw(st.booleans()):
        more['wide'] = True
    return {**more, 'prop': 'C04', 'dim': dim, 'deg': draw(st.integers(1, 2)), 'mesh': m, 'data': data,
            'mag': draw(st.integers(-30, 30)), 'neg': draw(st.booleans()), 'renum': draw(st.booleans())}


def shards(tier):
    if tier == 'quick':
        return [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 900, 40), (2, 900, 40), (3, 900, 40), (2, 500, 80),
                                                                       (4, 300, 60))] + [dict(np=p, n=150, strategy=cases(p, 120, 20, 8)) for p in (1, 2)]
    return [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 5000, 60), (1, 2000, 300), (2, 4000, 100), (3, 4000, 100),
                                                                   (4, 3000, 200))] + [dict(np=p, n=2000, strategy=cases(p, 200, 30, 10)) for p in (1, 2, 3)]
