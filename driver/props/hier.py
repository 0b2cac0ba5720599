"""Hierarchies shared by C13-C16 and C23-C25."""
from hypothesis import strategies as st
from c06 import eig
from common import letter_case
from prob import agg, problem

SRC, GROUP, BIN = 'p_hier.cc', 'all', 'hier'
SMOOTHERS = ['Symmetric Gauss-Seidel', 'Gauss-Seidel', 'Jacobi', 'ILU']


@st.composite
def smoother(draw, mf, steps=(0, 1, 1, 2, 3), symmetric=False):
    s = {}
    if mf:
        if draw(st.booleans()):
            s['type'] = draw(letter_case('Chebyshev'))
        if draw(st.booleans()):
            s['degree'] = draw(st.integers(1, 5))
        if draw(st.integers(0, 2)) == 0:
            s['smoothing_range'] = draw(st.sampled_from([5.0, 15.0, 20.0]))
    else:
        t = draw(st.sampled_from([None] + [x for x in SMOOTHERS if not (symmetric and x == 'Gauss-Seidel')]))
        if t:
            s['type'] = draw(letter_case(t))
    n = draw(st.sampled_from(list(steps) + [None]))
    if n is not None:
        s['n_smoothing_steps'] = n
    return s


@st.composite
def hierarchy(draw, mf, np=1, maxcells=40, maxdeg=2, levels=(2, 2, 2, 1), types=None, steps=(0, 1, 1, 2, 3), fast=True, symmetric=False, scales=None,
              maxk=4, neumann=False, kinds=None, ml=None):
    """A problem with an eigensolver, agglomerates and parameters of the hierarchy."""
    e, k, t = draw(eig(mf, types))
    if k > maxk:
        k = maxk
        e['number of eigenvectors'] = k
        if 'num_cycles' in e:
            e['num_cycles'] = k
    if t == 'anasazi':
        e['tolerance'] = draw(st.sampled_from([1e-8, 1e-10]))
    p = draw(problem(maxcells, maxdeg, kinds=kinds,
                     scales=scales or {'lapack': (0., 0., 3., -3.), 'arpack': (0., 0., 3., -3.), 'lanczos': (0.,), 'anasazi': (0.,)}[t]))
    if t == 'anasazi': # nothing that needs a preconditioner
        p['deg'] = 1
        if p['coef'] in ('jump', 'aniso', 'const') or e.get('use_initial_guess'):
            p['coef'] = 'rand'
    if t == 'lanczos' and (p['deg'] > 1 or p['coef'] in ('jump', 'aniso') or draw(st.booleans())):
        e['max_iterations'] = 3000
    if neumann is False and not p.get('dir') and not p.get('mass'):
        p['mass'] = draw(st.sampled_from([0.1, 1.0, 10.0]))
    # LOBPCG never returns on some agglomerates of several components (a kernel of dimension two) when asked for more than 1e-7 or so
    if t == 'anasazi' and not p.get('mass'):
        e['tolerance'] = 1e-6
    h = {}
    s = draw(smoother(mf, steps, symmetric))
    if s:
        h['smoother'] = s
    lv = 2 if mf else draw(st.sampled_from(list(levels)))
    if lv != 2 or draw(st.integers(0, 3)) == 0:
        h['max levels'] = lv
    if draw(st.integers(0, 2)) == 0:
        h['coarse'] = {'type': draw(letter_case('Direct'))}
    if ml and draw(st.integers(0, 3)) == 0:
        if p.get('mag', 0) < 0:  # ML adds 1e-12 to the diagonal of its coarsest matrix
            del p['mag']
        q = {'eigen-analysis: type': 'Anorm'}  # the other estimates start with random vectors
        if draw(st.integers(0, 3)):
            q['coarse: max size'] = draw(st.integers(1, 12))
        if draw(st.booleans()):
            q['aggregation: damping factor'] = draw(st.sampled_from([0.0, 0.8, 1.333]))
        if ml == 'any' and draw(st.booleans()):
            q['smoother: type'] = draw(st.sampled_from(['Jacobi', 'Gauss-Seidel', 'symmetric Gauss-Seidel']))
        if ml == 'any' and draw(st.booleans()):
            q['coarse: type'] = draw(st.sampled_from(['Amesos-KLU', 'Jacobi', 'symmetric Gauss-Seidel']))
        if ml == 'any' and draw(st.booleans()):
            q['max levels'] = draw(st.integers(1, 3))
        h['coarse'] = {'type': draw(letter_case('ML')), 'params': q}
    if fast and t in ('lapack', 'arpack') and draw(st.integers(0, 3)) == 0:
        h['fast_ap'] = True
    elif draw(st.integers(0, 5)) == 0:
        h['fast_ap'] = False
    p.update(mf=mf, eig=e, k=k, agg=draw(agg(p, np)), h=h, seed=draw(st.integers(0, 9999)))
    return p
