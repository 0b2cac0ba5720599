"""C10: histories of block-vector operations vs a dense column model."""
from hypothesis import strategies as st
SRC, GROUP, BIN = 'p_krylov.cc', 'none', 'krylov'
RULE = ('histories of up to 25 operations on a pool of up to 8 block vectors (copies by list and range, constant and mutable views of views, sums, '
        'small-matrix products, Gram matrices, dots, norms, scalings, block assignment, initialisation); every object is compared with the '
        'model after every step; non-trivial = at least four executed operations and one view')
CAP = {'quick': 40, 'thorough': 600}
IDX = st.integers(0, 30)
SC = st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, -3.25])


def op():
    L = st.lists(IDX, min_size=1, max_size=4)
    return st.one_of(
        st.tuples(st.sampled_from(['clone', 'fresh']), IDX, IDX),
        st.tuples(st.sampled_from(['copy', 'copyi', 'copyr', 'viewi', 'viewr', 'cviewi', 'cviewr']), IDX, L),
        st.tuples(st.sampled_from(['viewi', 'viewr', 'cviewi', 'cviewr']), IDX, L),
        st.tuples(st.just('addmv'), IDX, IDX, IDX, SC, SC),
        st.tuples(st.just('times'), IDX, IDX, SC, SC),
        st.tuples(st.just('scale'), IDX, SC), st.tuples(st.just('scalev'), IDX),
        st.tuples(st.just('init'), IDX, SC), st.tuples(st.just('random'), IDX),
        st.tuples(st.sampled_from(['setblocki', 'setblockr']), IDX, IDX, IDX),
        st.tuples(st.just('transmv'), IDX, IDX, SC), st.tuples(st.just('dot'), IDX, IDX), st.tuples(st.just('norm'), IDX)).map(list)


@st.composite
def cases(draw, np, maxn, maxk=5):
    return {'prop': 'C10', 'n': draw(st.integers(1, maxn)), 'k': draw(st.integers(1, maxk)), 'seed': draw(st.integers(0, 99999)),
            'ops': draw(st.lists(op(), min_size=1, max_size=25))}


def shards(tier):
    k = 1 if tier == 'quick' else 15
    return [dict(np=1, n=n * k, strategy=cases(1, m)) for n, m in ((2000, 3), (2000, 8), (1500, 5), (1000, 20))] + [dict(np=1, n=400 * k, strategy=cases(1, 150, 12))]
