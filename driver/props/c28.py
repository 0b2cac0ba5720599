"""C28: a failing user callback is reported to the caller and leaves nothing behind."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
RULE = ('random positive definite problems and hierarchies, 1-4 threads; a fault (an exception) is injected at 1-4 generated places among all the user callbacks of '
        'set-up and application, operators on agglomerates, on patches of the fast product and on the mesh; the same exception has to arrive, earlier '
        'hierarchies and a new set-up give the results bit by bit that they gave before; non-trivial = several agglomerates and a fault that happened')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.integers(0, 2)) == 0
    types = None if mf else ['lapack', 'lapack', 'arpack', 'lanczos', 'anasazi']
    p = draw(hierarchy(mf, np, maxcells, maxdeg, types=types, maxk=2, fast=not mf))
    p['prop'] = 'C28'
    if draw(st.integers(0, 2)) == 0:
        p['h']['fast_ap'] = True
    p['at'] = draw(st.lists(st.tuples(st.sampled_from([True, True, False]), st.one_of(st.integers(0, 999), st.sampled_from([0, 999]))).map(list), min_size=1, max_size=4))
    return p


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=120 * k, strategy=cases(1, 24, 2)), dict(np=1, n=120 * k, threads=4, strategy=cases(1, 40, 1)), dict(np=1, n=60 * k, threads=2, strategy=cases(1, 60, 2))]
