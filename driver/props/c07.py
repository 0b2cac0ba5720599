"""C07: Lanczos vs operators with a prescribed spectrum."""
from hypothesis import assume, strategies as st
SRC, GROUP, BIN = 'p_krylov.cc', 'none', 'krylov'
RULE = ('symmetric operators with a prescribed spectrum (2-12 distinct values, multiplicities 1-3, gaps 0.3-3 times the scale 1e-2..1e4, '
        'indefinite spectra included, dense orthogonal or diagonal eigenbasis, up to 4 decoupled constrained components), start vectors with '
        'every wanted component in [0.2,1]; plain and deflated solves, solves ended by the iteration limit, overshoot 0-99 %; non-trivial = size >= 4 with several pairs')
CAP = {'quick': 40, 'thorough': 800}


def simulate(vals, mult, per, cycles, zero=()):
    """Eigenvalues found by `cycles` deflated solves of `per` distinct values each; the first start vector lacks those of `zero`."""
    left = list(mult)
    out = []
    for c in range(cycles):
        have = [i for i, m in enumerate(left) if m > 0 and (c or i not in zero)]
        if len(have) < per:
            return None
        for i in have[:per]:
            left[i] -= 1
            out.append(vals[i])
    return out


@st.composite
def spectrum(draw, maxd, maxm, positive):
    nd = draw(st.integers(1 if maxm > 1 else 2, maxd))
    scale = 10.0 ** draw(st.integers(-2, 4))
    gaps = draw(st.lists(st.sampled_from([0.3, 0.5, 1.0, 1.0, 2.0, 3.0]), min_size=nd, max_size=nd))
    base = draw(st.sampled_from([0.0, 0.1, 1.0, 5.0])) if positive else draw(st.sampled_from([0.0, 0.1, 1.0, 5.0, -3.0, -20.0]))
    vals, x = [], base
    for g in gaps:
        vals.append(x * scale)
        x += g
    mult = draw(st.lists(st.integers(1, maxm), min_size=nd, max_size=nd))
    return vals, mult, scale


@st.composite
def cases(draw, np, maxd, maxm=3):
    deflated = draw(st.booleans())
    vals, mult, scale = draw(spectrum(maxd, maxm, False))
    c = {'prop': 'C07', 'dv': vals, 'mult': mult, 'gap': 0.3 * scale, 'ncons': draw(st.integers(0, 4)),
         'consdiag': draw(st.sampled_from([0.0, 1.0, 200.0, -7.0])), 'q': draw(st.sampled_from(['dense', 'dense', 'diag'])),
         'seed': draw(st.integers(0, 9999)), 'smag': draw(st.one_of(st.integers(-3, 3), st.sampled_from([-14, -8, 8, 14]))),
         'tol': scale * 10.0 ** -draw(st.integers(3, 7)), 'maxit': 200}
    if draw(st.booleans()):
        c['over'] = draw(st.sampled_from([0, 5, 5, 20, 20, 50, 99]))
    n = sum(mult)
    assume(n >= 2)
    if deflated:
        per = draw(st.integers(1, len(vals)))
        cyc = draw(st.integers(1, 5))
        got = simulate(vals, mult, per, cyc)
        assume(got is not None)
        true = sorted(v for v, m in zip(vals, mult) for _ in range(m))
        got.sort()
        k = 0
        while k < len(got) and got[k] == true[k]:
            k += 1
        assume(k >= 1)
        # the start vector of the first cycle lacks some: a later cycle finds them
        zero = draw(st.sets(st.integers(0, len(vals) - 1), max_size=2)) if c['q'] == 'dense' and cyc > 1 and draw(st.booleans()) else None
        if zero:
            other = simulate(vals, mult, per, cyc, zero)
            if other is not None:
                other.sort()
                k2 = 0
                while k2 < k and other[k2] == true[k2]:
                    k2 += 1
                if k2:
                    k = k2
                    c['zero'] = sorted(zero)
        c['tol'] = scale * 10.0 ** -draw(st.integers(4, 7))
        c.update(cycles=cyc, per=per, k=draw(st.integers(1, k)))
        c['expect'] = got[:c['k']]
    else:
        zero = []
        if c['q'] == 'diag' and len(vals) > 1:
            zero = sorted(draw(st.sets(st.integers(0, len(vals) - 1), max_size=min(3, len(vals) - 1))))
        c['zero'] = zero
        there = [v for i, v in enumerate(vals) if i not in zero]
        k = draw(st.integers(1, len(there)))
        c.update(k=k, expect=there[:k], explicit=draw(st.booleans()))
    return c


@st.composite
def limited(draw, np, maxd):
    """The iteration limit ends the solve."""
    c = draw(cases(np, maxd))
    for x in ('cycles', 'per', 'expect'):
        c.pop(x, None)
    c['zero'] = []
    m = draw(st.integers(1, len(c['dv'])))
    c.update(k=draw(st.integers(1, m)), limit=m, smag=0, over=draw(st.sampled_from([0, 5, 20, 50, 99])))
    return c


@st.composite
def tri(draw, np):
    m = draw(st.integers(1, 8))
    return {'prop': 'C07', 'a': draw(st.lists(st.integers(-4, 6), min_size=m, max_size=m)),
            'b': draw(st.lists(st.sampled_from([1, -1, 2, 3]), min_size=m - 1, max_size=m - 1)),
            'extra': draw(st.lists(st.integers(-9, 9), max_size=4)), 'k': draw(st.integers(1, m)),
            'scale': 2.0 ** draw(st.integers(-40, 20)), 'over': draw(st.sampled_from([0, 5, 20, 50, 99])),
            's0': draw(st.sampled_from([1.0, -2.0, 1.5]))}


def shards(tier):
    if tier == 'quick':
        return [dict(np=1, n=n, strategy=cases(1, m)) for n, m in ((1500, 6), (1500, 12), (1500, 9), (1000, 4))] + [dict(np=1, n=200, strategy=cases(1, 45, 2))] + [dict(np=1, n=1500, strategy=tri(1)), dict(np=1, n=1200, strategy=limited(1, 14)), dict(np=1, n=300, strategy=limited(1, 50))]
    return [dict(np=1, n=n, strategy=cases(1, m)) for n, m in ((20000, 6), (20000, 12), (20000, 9), (10000, 16), (10000, 4), (10000, 20))] + [dict(np=1, n=20000, strategy=tri(1)), dict(np=1, n=20000, strategy=limited(1, 14)), dict(np=1, n=10000, strategy=limited(1, 60))]
