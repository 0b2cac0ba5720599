"""C18: coarse solvers."""
from hypothesis import strategies as st
from common import letter_case
SRC, GROUP, BIN = 'p_ops.cc', 'light', 'ops'
RULE = ('random well- and ill-conditioned non-singular sparse matrices over 1-3 ranks (empty ranks included); direct solves against dense LU within the '
        'conditioning, ML solves against a hand-made ML object with the same parameters, single-level ML with a direct solver against LU; linearity, '
        'repeatability with other content of x, unmodified b, unknown names; non-trivial = more than two unknowns')
CAP = {'quick': 45, 'thorough': 700}
BAD = ['', 'amg', 'directt', 'ml ', 'lu', 'klu', 'cg', 'Amesos-KLU']


def mat():
    return st.fixed_dictionaries({'seed': st.integers(0, 9999), 'fill': st.sampled_from([0.05, 0.1, 0.3, 0.6]), 'mag': st.sampled_from([0, 0, 5, -5, 9, -9]),
                                  'kind': st.sampled_from(['spd', 'gen', 'sym']), 'dom': st.sampled_from([1.1, 1.1, 1.001, 0.5, 2.0]),
                                  'negdiag': st.booleans(), 'vals': st.sampled_from(['real', 'real', 'wide'])})


@st.composite
def cases(draw, np, hi, ml):
    own = draw(st.lists(st.integers(0, hi), min_size=np, max_size=np))
    if not sum(own):
        own[0] = 1
    m = draw(mat())
    c = {'prop': 'C18', 'own': own, 'mat': m, 'bmag': draw(st.sampled_from([0, 0, 8, -8, -25, 25]))}
    if ml:
        own[:] = [max(1, o) for o in own]
        m.update(kind='spd', dom=1.1, vals='real')
        p = {}
        kind = draw(st.sampled_from(['default', 'exact', 'params', 'params', 'single']))
        if kind == 'exact':
            p = {'max levels': 1, 'coarse: type': 'Amesos-KLU'}
            c['exact'] = True
            m['mag'] = max(0, m['mag'])  # ML adds 1e-12 to the diagonal of its coarse matrix
        elif kind == 'params':
            p['eigen-analysis: type'] = 'Anorm'  # the other estimates start with random vectors
            if draw(st.booleans()):
                p['max levels'] = draw(st.integers(1, 4))
            if draw(st.booleans()):
                p['smoother: type'] = draw(st.sampled_from(['Jacobi', 'Gauss-Seidel', 'symmetric Gauss-Seidel', 'Chebyshev']))
            if draw(st.booleans()):
                p['smoother: sweeps'] = draw(st.integers(1, 4))
            if draw(st.booleans()):
                p['smoother: damping factor'] = draw(st.sampled_from([0.5, 0.75, 0.9]))
            if draw(st.booleans()):
                p['aggregation: threshold'] = draw(st.sampled_from([0.01, 0.1]))
            if draw(st.booleans()):
                p['aggregation: damping factor'] = draw(st.sampled_from([0.5, 1.25]))
            if draw(st.booleans()):
                p['coarse: type'] = draw(st.sampled_from(['Amesos-KLU', 'Jacobi', 'symmetric Gauss-Seidel']))
            if draw(st.booleans()):
                p['coarse: max size'] = draw(st.integers(2, 20))
            if draw(st.integers(0, 2)) == 0:
                p['smoother: list (level 0)'] = {'smoother: type': draw(st.sampled_from(['Jacobi', 'Gauss-Seidel'])), 'smoother: sweeps': draw(st.integers(1, 6)),
                                                 'smoother: damping factor': draw(st.sampled_from([0.3, 0.6]))}
        elif kind == 'single':  # up to 128 unknowns make one level
            p = draw(st.sampled_from([{'coarse: type': 'Jacobi'}, {'coarse: type': 'Gauss-Seidel'}, {'coarse: type': 'symmetric Gauss-Seidel'},
                                      {'eigen-analysis: type': 'Anorm'}, {'coarse: type': 'ILU'}]) if sum(own) <= 100 else
                     st.just({'eigen-analysis: type': 'Anorm'}))
        co = {'type': draw(letter_case('ml'))}
        if p:
            co['params'] = p
        c['params'] = {'coarse': co}
    else:
        t = draw(st.sampled_from(['direct', 'direct', None] + (['bad'] if draw(st.integers(0, 5)) == 0 else [])))
        if t == 'bad':
            t = draw(st.sampled_from(BAD))
        elif t:
            t = draw(letter_case(t))
        c['params'] = {} if t is None else {'coarse': {'type': t}}
    return c


def shards(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(np=1, n=1200 * k, strategy=cases(1, 30, False)), dict(np=2, n=500 * k, strategy=cases(2, 12, False)),
            dict(np=3, n=400 * k, strategy=cases(3, 8, False)), dict(np=1, n=500 * k, strategy=cases(1, 60, True)),
            dict(np=2, n=300 * k, strategy=cases(2, 30, True)), dict(np=1, n=60 * k, strategy=cases(1, 200, False)), dict(np=1, n=40 * k, strategy=cases(1, 300, True))]
