"""Problems shared by the eigensolver and hierarchy properties."""
from hypothesis import strategies as st
from common import agglomeration, dims, many, mesh, ncells


@st.composite
def problem(draw, maxcells=40, maxdeg=2, kinds=None, scales=(0.0,), neumann=True):
    dim = draw(dims())
    deg = draw(st.sampled_from([1, 1, 1, 2, 2, 3][:3 + 2 * (maxdeg > 1) + (maxdeg > 2)]))
    budget = {1: maxcells, 2: max(6, maxcells // (2 if dim == 2 else 3)), 3: max(4, maxcells // (4 if dim == 2 else 8))}[deg]
    m = draw(mesh(dim, budget, kinds=kinds, nbid=3))
    p = {'dim': dim, 'deg': deg, 'mesh': m, 'coef': draw(st.sampled_from(['rand', 'rand', 'smooth', 'const', 'jump', 'aniso'])),
         'cseed': draw(st.integers(0, 999))}
    if deg == 1 and maxcells >= 16 and draw(st.integers(0, 7)) == 0:  # a system of coupled equations
        p['comp'] = draw(st.sampled_from([2, 2, 3]))
        p['mesh'] = m = draw(mesh(dim, max(6, maxcells // (2 * p['comp'])), kinds=kinds, nbid=3))
        p['mass'] = draw(st.sampled_from([0.1, 1.0, 10.0]))
    ids = draw(st.sampled_from([[], [1], [1, 2], [2]]))
    if ids:
        p['dir'] = ids
    if draw(st.integers(0, 3)) == 0:
        p['pin'] = draw(st.sampled_from([0.05, 0.2]))
    if 'mass' not in p and (draw(st.integers(0, 2)) == 0 or not neumann):
        p['mass'] = draw(st.sampled_from([0.1, 1.0, 10.0]))
    if draw(st.integers(0, 3)) == 0:
        p['renum'] = draw(st.sampled_from(['rcm', 'rev']))
    s = draw(st.sampled_from(list(scales)))
    if s:
        p['mag'] = s
    return p


@st.composite
def agg(draw, p, np=1, minsize=2):
    n = max(1, ncells(p['mesh'], p['dim']) // np)
    return draw(agglomeration(p['dim'], n, kinds=('block', 'block', 'block', 'zoltan', 'metis'), maxagg=max(1, n // minsize)))


@st.composite
def manyfy(draw, p, np=1):
    """The same problem on a mesh with hundreds of agglomerates per rank."""
    m, a = draw(many(p['dim'], np))
    m.update(nbid=3, bseed=p['mesh'].get('bseed', 0))
    p.update(mesh=m, agg=a, deg=1)
    p.pop('comp', None)
    p['k'] = p['eig']['number of eigenvectors'] = 1
    if 'num_cycles' in p['eig']:
        p['eig']['num_cycles'] = 1
    return p
