"""C26: set-up results do not depend on the number of threads."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
from common import ncells
RULE = ('random problems with 9 to 60 agglomerates per rank, every eigensolver, both evaluators, with and without the fast product; restrictor, product and cycle '
        'built with 2-8 threads, while the user callbacks wait for generated pseudo-random times, are compared bit by bit with those of one thread; '
        'non-trivial = at least two agglomerates were worked on at the same time')
CAP = {'quick': 60, 'thorough': 700}
CONFIRM = (2, 12)  # a race does not fail every time


@st.composite
def cases(draw, np, maxcells):
    mf = draw(st.integers(0, 2)) == 0
    types = ['lanczos'] if mf and np > 1 else (None if mf else ['lapack', 'lapack', 'lapack', 'arpack', 'lanczos', 'lanczos'])
    p = draw(hierarchy(mf, np, maxcells, 1, types=types, levels=(2,), fast=False, maxk=2))
    p['prop'] = 'C26'
    if draw(st.booleans()):
        p['h']['fast_ap'] = True
    # several agglomerates of one to four cells
    n = max(1, ncells(p['mesh'], p['dim']) // np)
    if draw(st.booleans()):
        p['agg'] = {'partitioner': 'block', 'nx': draw(st.integers(1, 2)), 'ny': draw(st.integers(1, 2))}
        if p['dim'] == 3:
            p['agg']['nz'] = 1
    else:
        p['agg'] = {'partitioner': draw(st.sampled_from(['zoltan', 'metis'])), 'n_agglomerates': max(1, n // draw(st.integers(2, 3)))}
    p['runs'] = draw(st.lists(st.tuples(st.sampled_from([4, 4, 2, 3, 8]), st.integers(0, 10 ** 6)).map(list), min_size=1, max_size=3))
    return p


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=150 * k, threads=4, strategy=cases(1, 60)), dict(np=2, n=80 * k, threads=2, strategy=cases(2, 90))]
