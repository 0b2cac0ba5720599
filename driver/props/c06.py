"""C06: local eigensolves return the lowest eigenpairs of the agglomerate."""
from hypothesis import strategies as st
from prob import agg, problem
SRC, GROUP, BIN = 'p_eig.cc', 'all', 'eig'
RULE = ('random elliptic problems (2d/3d, degree 1-3, random/smooth/constant/jumping/anisotropic coefficients, positive and negative mass terms, Dirichlet parts and pinned '
        'interior points, any magnitude), every agglomerate and every eigensolver, matrix-based and matrix-free; pairs compared with a dense '
        'Jacobi eigensolver on the operator assembled cell by cell; non-trivial = more than k+1 unconstrained degrees of freedom')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def eig(draw, mf, types=None):
    t = draw(st.sampled_from(types or (['lanczos', 'lanczos', 'anasazi'] if mf else ['lapack', 'lapack', 'arpack', 'arpack', 'lanczos', 'anasazi'])))
    k = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6] + ([9] if t in ('lapack', 'arpack') else [])))
    e = {'type': t, 'number of eigenvectors': k, 'tolerance': 1e-14}
    if t == draw(st.sampled_from([('lanczos' if mf else 'arpack'), ''])):
        del e['type']
    if t == 'lanczos':
        e['tolerance'] = draw(st.sampled_from([1e-14, 1e-4]))
        if draw(st.integers(0, 2)) == 0:
            e['is_deflated'] = True
            e['num_cycles'] = k
            e['num_eigenpairs_per_cycle'] = 2
    elif t == 'anasazi':
        e['tolerance'] = draw(st.sampled_from([1e-6, 1e-8]))
        if draw(st.booleans()):
            e['use_initial_guess'] = True
    elif t == 'arpack':
        e['tolerance'] = draw(st.sampled_from([1e-14, 1e-12]))
    return e, k, t


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.booleans()) and draw(st.booleans())
    e, k, t = draw(eig(mf))
    scales = {'lapack': (0., 0., 3., -3., 6., -6., 2.), 'arpack': (0., 0., 3., -3.), 'lanczos': (0.,), 'anasazi': (0., 1.)}[t]
    p = draw(problem(maxcells, maxdeg, scales=scales))
    if t == 'lanczos' and (p['deg'] > 1 or p['coef'] in ('jump', 'aniso') or draw(st.booleans())):
        e['max_iterations'] = 3000
    if t == 'lapack' and draw(st.integers(0, 3)) == 0:  # indefinite, or negative definite
        p['mass'] = draw(st.sampled_from([-0.1, -1.0, -30.0, -1000.0]))
    p.update(prop='C06', mf=mf, eig=e, k=k, agg=draw(agg(p, np)))
    return p


def alternatives(case, r):
    """A Krylov space resolves an eigenvector that the start vector hardly contains last, after a loose stopping test."""
    t = case['eig'].get('type', 'lanczos' if case['mf'] else 'arpack')
    if t == 'lanczos' and all('is not one of the lowest' in m for m in r['fails']):
        return [dict(case, coef='rand', cseed=case.get('cseed', 0) + 1001 * i) for i in (1, 2)]
    # LOBPCG itself may break down, and says so, where the last wanted eigenvalue is not separated from the next one
    if t == 'anasazi' and all('Wrong number of computed eigenpairs' in m for m in r['fails']):
        return [dict(case, coef='rand', cseed=case.get('cseed', 0) + 1001 * i) for i in (1, 2)]
    return []


def shards(tier):
    if tier == 'quick':
        return [dict(np=1, n=250, strategy=cases(1, 24, 2)), dict(np=1, n=150, strategy=cases(1, 60, 3)), dict(np=2, n=120, strategy=cases(2, 40, 2)),
                dict(np=3, n=100, strategy=cases(3, 60, 2)), dict(np=1, n=30, strategy=cases(1, 220, 1)), dict(np=4, n=30, strategy=cases(4, 60, 1))]
    return [dict(np=1, n=5000, strategy=cases(1, 24, 2)), dict(np=1, n=3000, strategy=cases(1, 80, 3)), dict(np=2, n=2500, strategy=cases(2, 40, 2)),
            dict(np=3, n=2000, strategy=cases(3, 60, 2)), dict(np=1, n=400, strategy=cases(1, 220, 2)), dict(np=4, n=400, strategy=cases(4, 90, 2))]
