"""C05: the restrictor of a problem is a partition of unity of eigenvectors."""
from hypothesis import strategies as st
from c06 import alternatives, eig  # noqa: F401
from prob import agg, manyfy, problem
SRC, GROUP, BIN = 'p_eig.cc', 'all', 'eig'
RULE = ('random elliptic problems as in C06; restrictor of both set-up variants and both evaluators row by row: support, weights from the diagonals '
        'assembled cell by cell, unweighted rows compared with a dense eigensolver, constants for pure Neumann problems; non-trivial = several '
        'agglomerates with more than k+1 unconstrained degrees of freedom')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.booleans()) and draw(st.booleans())
    e, k, t = draw(eig(mf))
    scales = {'lapack': (0., 0., 3., -3., 6., -6., 2.), 'arpack': (0., 0., 3., -3.), 'lanczos': (0.,), 'anasazi': (0., 1.)}[t]
    p = draw(problem(maxcells, maxdeg, scales=scales))
    if t == 'lanczos' and (p['deg'] > 1 or p['coef'] in ('jump', 'aniso') or draw(st.booleans())):
        e['max_iterations'] = 3000
    if e.get('use_initial_guess'):  # symmetric agglomerates may have orthogonal eigenvectors
        p['coef'] = 'rand'
    p.update(prop='C05', mf=mf, eig=e, k=k, agg=draw(agg(p, np)), variant=draw(st.sampled_from([1, 2])))
    if mf and draw(st.booleans()):
        p['cdiag'] = draw(st.sampled_from(['zero', 'zeros', 'one']))
    return p


@st.composite
def big(draw, np):
    p = draw(cases(np, 12, 1))
    return draw(manyfy(p, np))


def shards(tier):
    if tier == 'quick':
        return [dict(np=1, n=4, strategy=big(1)), dict(np=2, n=3, strategy=big(2)), dict(np=1, n=250, strategy=cases(1, 24, 2)), dict(np=1, n=150, strategy=cases(1, 60, 3)), dict(np=2, n=120, strategy=cases(2, 40, 2)),
                dict(np=3, n=100, strategy=cases(3, 60, 2)), dict(np=1, n=30, strategy=cases(1, 220, 1)), dict(np=4, n=30, strategy=cases(4, 60, 1))]
    return [dict(np=1, n=100, strategy=big(1)), dict(np=2, n=60, strategy=big(2)), dict(np=1, n=5000, strategy=cases(1, 24, 2)), dict(np=1, n=3000, strategy=cases(1, 80, 3)), dict(np=2, n=2500, strategy=cases(2, 40, 2)),
            dict(np=3, n=2000, strategy=cases(3, 60, 2)), dict(np=1, n=400, strategy=cases(1, 220, 2)), dict(np=4, n=400, strategy=cases(4, 90, 2))]
