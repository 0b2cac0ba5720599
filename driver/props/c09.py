"""C09: the LOBPCG solver vs operators with a prescribed spectrum."""
from hypothesis import assume, strategies as st
from c07 import spectrum
SRC, GROUP, BIN = 'p_krylov.cc', 'none', 'krylov'
RULE = ('symmetric positive operators with a prescribed spectrum (multiplicities 1-3, dense or diagonal basis, constrained components with a '
        'large diagonal), 1-4 wanted pairs, 1-5 start vectors with components along all eigenvectors, both orthogonalisation modes; '
        'non-trivial = at least two wanted pairs')
CAP = {'quick': 40, 'thorough': 800}


@st.composite
def cases(draw, np, maxd):
    vals, mult, scale = draw(spectrum(maxd, draw(st.sampled_from([1, 2, 2, 3])), True))
    if vals[0] == 0.0:
        vals = [v + 0.1 * scale for v in vals]
    n = sum(mult)
    k = draw(st.integers(1, 4))
    nc = draw(st.integers(0, 4))
    assume(n >= 6 * k)
    true = sorted(v for v, m in zip(vals, mult) for _ in range(m))
    b = draw(st.integers(1, k + 1))
    c = {'prop': 'C09', 'dv': vals, 'mult': mult, 'ncons': nc, 'consdiag': 2.0 * vals[-1], 'q': draw(st.sampled_from(['dense', 'dense', 'diag'])),
         'seed': draw(st.integers(0, 9999)), 'smag': draw(st.integers(-2, 2)), 'tol': max(scale * 10.0 ** -draw(st.integers(3, 6)), 1e-5 * vals[-1]),
         'k': k, 'block': b, 'expect': true[:k]}
    if draw(st.booleans()):
        c['ortho'] = True
    return c


def alternatives(case, r):
    # the eigenvalue solver of Anasazi itself hangs for rare starts: not the code under test
    if any('hang' in f or 'number of eigenvalues: got' in f for f in r['fails']):
        return [dict(case, seed=case['seed'] + 10007 * i) for i in (1, 2)]
    return []


def shards(tier):
    k = 1 if tier == 'quick' else 12
    return [dict(np=1, n=n * k, timeout=15, strategy=cases(1, m)) for n, m in ((500, 6), (500, 12), (500, 9), (300, 16))]
