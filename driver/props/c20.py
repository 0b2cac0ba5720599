"""C20: sort_permutation / apply_permutation_in_place."""
from hypothesis import strategies as st
SRC, GROUP, BIN, PCH = 'p_utils.cc', 'utils', 'utils', False
RULE = ('pairs of equally long sequences (int, uint64, float, double with neighbouring values; lengths 0..40 (thorough 300), a few up to 150000; heavy ties) and an '
        'independent random permutation (any cycle structure); non-trivial = length >= 3 and the pair sequence is not already '
        'sorted or the independent permutation is not the identity')
CAP = {'quick': 25, 'thorough': 400}
ELEM = {
    'int': st.one_of(st.integers(-3, 3), st.integers(-2**31, 2**31 - 1)),
    'u64': st.one_of(st.integers(0, 3), st.integers(0, 2**64 - 1)),
    'double': st.one_of(st.integers(-2, 2).map(float), st.integers(-9, 9).map(lambda i: 1. + i * 2.**-50), st.floats(allow_nan=False, allow_infinity=False)),
    'float': st.floats(allow_nan=False, allow_infinity=False, width=32),
}


@st.composite
def cases(draw, maxn):
    t = draw(st.sampled_from(sorted(ELEM)))
    # one of: random vectors, few distinct values
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, maxn)))
    el = ELEM[t]
    a = draw(st.lists(el, min_size=n, max_size=n))
    b = draw(st.lists(el, min_size=n, max_size=n))
    mode = draw(st.sampled_from(['random', 'sorted', 'reversed', 'rotate', 'swaps', 'cycles']))
    idx = list(range(n))
    if mode == 'random' or mode == 'cycles':
        perm = draw(st.permutations(idx))
    elif mode == 'sorted':
        perm = idx
    elif mode == 'reversed':
        perm = idx[::-1]
    elif mode == 'rotate':
        k = draw(st.integers(0, max(0, n - 1)))
        perm = idx[k:] + idx[:k]
    else:
        perm = list(idx)
        for i in range(0, n - 1, 2):
            perm[i], perm[i + 1] = perm[i + 1], perm[i]
    return {'prop': 'C20', 'type': t, 'a': a, 'b': b, 'perm': list(perm)}


@st.composite
def big(draw, maxn):
    return {'prop': 'C20', 'type': draw(st.sampled_from(sorted(ELEM))),
            'big': {'n': draw(st.one_of(st.integers(1, maxn), st.sampled_from([255, 256, 257, 4096, 65535, 65536, 65537, maxn]))), 'seed': draw(st.integers(0, 9999)),
                    'values': draw(st.sampled_from([1, 2, 50, 1000, 2 ** 31 - 1])), 'perm': draw(st.sampled_from(['random', 'cycle', 'swaps', 'identity']))}}


def post(case, info, np):
    if 'big' in case:
        return {'fails': [], 'nt': case['big']['values'] > 1 and case['big']['n'] > 2, 'labels': ['large']}
    n = len(case['a'])
    pairs = list(zip(case['a'], case['b']))
    p = case['perm']
    seen, cyc = set(), set()
    for i in range(n):
        k, j = 0, i
        while j not in seen:
            seen.add(j)
            j = p[j]
            k += 1
        if k:
            cyc.add(k)
    lab = ['type=' + case['type'], 'max cycle>2' if cyc and max(cyc) > 2 else 'max cycle<=2']
    if len(set(case['a'])) < n:
        lab.append('ties')
    if n == 0:
        lab.append('empty')
    return {'fails': [], 'nt': n >= 3 and (pairs != sorted(pairs) or p != list(range(n))), 'labels': lab}


def shards(tier):
    k, n, m = (3, 900, 40) if tier == 'quick' else (7, 20000, 300)
    return [dict(np=1, n=n, strategy=cases(m)) for _ in range(k)] + [dict(np=1, n=60 if tier == 'quick' else 1500, strategy=big(150000))]
