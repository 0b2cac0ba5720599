"""C08: deflation is an orthogonal projection that accumulates."""
from hypothesis import strategies as st
SRC, GROUP, BIN = 'p_krylov.cc', 'none', 'krylov'
RULE = ('histories of add/deflate/apply over vectors of size 1-100: groups of 1-12 vectors with norms over 12 orders of magnitude, dense or unit, '
        'some nearly dependent on the earlier ones (angle down to 1e-3), up to the whole space; reference projection in extended precision; '
        'non-trivial = at least two added vectors that do not span the whole space')
CAP = {'quick': 40, 'thorough': 600}


@st.composite
def cases(draw, np, maxn, maxops=8):
    n = draw(st.integers(1, maxn))
    vec = st.tuples(st.integers(-6, 6), st.sampled_from([0, 0, 0, 1, 2, 3]), st.integers(0, 2)).map(list)
    op = st.one_of(st.tuples(st.just('add'), st.one_of(st.lists(vec, min_size=1, max_size=4), st.lists(vec, min_size=5, max_size=12)), st.integers(-8, 8)).map(list),
                   st.tuples(st.just('deflate'), st.just([]), st.integers(-8, 8)).map(list),
                   st.tuples(st.just('vmult'), st.just([]), st.integers(-8, 8)).map(list))
    return {'prop': 'C08', 'n': n, 'seed': draw(st.integers(0, 99999)), 'sym': draw(st.booleans()),
            'ops': draw(st.lists(op, min_size=1, max_size=maxops))}


def shards(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(np=1, n=n * k, strategy=cases(1, m)) for n, m in ((2000, 6), (2000, 14), (1500, 10), (1000, 30))] + [dict(np=1, n=300 * k, strategy=cases(1, 100, 25))]
