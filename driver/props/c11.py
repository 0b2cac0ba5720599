"""C11: assembled operators vs dense algebra."""
from hypothesis import strategies as st
SRC, GROUP, BIN = 'p_ops.cc', 'light', 'ops'
RULE = ('pools of random sparse rectangular matrices over two to four row/column distributions (empty ranks and dimensions of 1 included), '
        'histories of transpose / multiply / multiply_transpose whose results become operands; every result is compared with dense algebra '
        'as a matrix, as an operator on vectors built by itself, and in its distribution; serial wrapper on rectangular matrices; '
        'non-trivial = at least two derived operators (distributed) or a rectangular matrix (serial)')
CAP = {'quick': 45, 'thorough': 700}
IDX = st.integers(0, 9)


def sizes(np, hi):
    return st.lists(st.integers(0, hi), min_size=np, max_size=np).map(lambda s: s if sum(s) else [1] + s[1:])


def mat():
    return st.fixed_dictionaries({'seed': st.integers(0, 9999), 'fill': st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.8, 1.0]),
                                  'mag': st.sampled_from([0, 0, 0, 3, -3, -9, 9, -14]), 'vals': st.sampled_from(['real', 'real', 'int', 'wide'])})


@st.composite
def cases(draw, np, hi):
    nd = draw(st.integers(1, 4))
    dist = [draw(sizes(np, hi)) for _ in range(nd)]
    D = st.integers(0, nd - 1)
    new = st.tuples(st.just('new'), D, D, mat()).map(list)
    der = st.one_of(st.tuples(st.just('t'), IDX).map(list), st.tuples(st.sampled_from(['mul', 'mult']), IDX, IDX).map(list))
    ops = draw(st.lists(new, min_size=1, max_size=3)) + draw(st.lists(st.one_of(der, der, der, new), min_size=1, max_size=6))
    return {'prop': 'C11', 'dist': dist, 'ops': ops}


@st.composite
def serial(draw, hi=12):
    return {'prop': 'C11', 'm': draw(st.integers(1, hi)), 'n': draw(st.integers(1, hi)), 'mat': draw(mat())}


def shards(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(np=1, n=800 * k, strategy=serial()), dict(np=1, n=50 * k, strategy=serial(150)), dict(np=1, n=1200 * k, strategy=cases(1, 9)), dict(np=2, n=900 * k, strategy=cases(2, 5)),
            dict(np=3, n=700 * k, strategy=cases(3, 4)), dict(np=2, n=300 * k, strategy=cases(2, 20)), dict(np=1, n=100 * k, strategy=cases(1, 120)), dict(np=4, n=150 * k, strategy=cases(4, 6))]
