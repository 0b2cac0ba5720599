"""Strategies shared by the property files."""
from hypothesis import strategies as st


@st.composite
def mesh(draw, dim, maxcells=150, kinds=None, warp=True, nbid=None):
    kinds = kinds or ['box', 'box', 'box', 'box', 'ball', 'l', 'split']
    kind = draw(st.sampled_from(kinds))
    m = {'kind': kind}
    if kind in ('box', 'split'):
        lim = maxcells // (2 if kind == 'split' else 1)
        n = []
        longest = 40 if draw(st.integers(0, 7)) == 0 else 9 if dim == 2 else 5
        for i in range(dim):
            hi = max(1, min(longest, lim))
            k = draw(st.integers(1, hi))
            n.append(k)
            lim //= k
        # refinement while the budget lasts
        cells = 1
        for k in n:
            cells *= k
        cells *= 2 if kind == 'split' else 1
        maxref = 0
        while cells * (2 ** dim) ** (maxref + 1) <= maxcells and maxref < 4:
            maxref += 1
        m['n'] = n if draw(st.booleans()) else n[::-1]
        if kind == 'split' and draw(st.booleans()):
            m['n2'] = [draw(st.integers(1, max(1, k))) for k in m['n']]
            m['x2'] = draw(st.sampled_from([100.0, -50.0]))
        m['ref'] = draw(st.integers(0, maxref)) if draw(st.booleans()) else maxref
        m['asp'] = draw(st.sampled_from([1.0, 1.0, 0.5, 3.0]))
    else:
        base = {('ball', 2): 5, ('ball', 3): 7, ('l', 2): 3, ('l', 3): 7}[(kind, dim)]
        maxref = 0
        while base * (2 ** dim) ** (maxref + 1) <= maxcells and maxref < 4:
            maxref += 1
        m['ref'] = draw(st.integers(0, maxref)) if draw(st.booleans()) else maxref
    if warp and kind in ('box', 'split') and draw(st.integers(0, 3)) == 0:
        m['warp'] = draw(st.sampled_from([0.05, 0.1]))
    if nbid:
        m['nbid'] = draw(st.integers(1, nbid))
        m['bseed'] = draw(st.integers(0, 9))
    return m


@st.composite
def adaptive(draw, m, aggs):
    """Local refinement, which the block partitioner does not offer."""
    if all(a['partitioner'].lower() != 'block' for a in aggs) and 'warp' not in m and draw(st.booleans()):
        m['loc'] = draw(st.integers(1, 40))


def ncells(m, dim):
    if m['kind'] in ('box', 'split'):
        c = 1
        for k in m['n']:
            c *= k
        if m['kind'] == 'split':
            c2 = 1
            for k in m.get('n2', m['n']):
                c2 *= k
            c += c2
    else:
        c = {('ball', 2): 5, ('ball', 3): 7, ('l', 2): 3, ('l', 3): 7}[(m['kind'], dim)]
    return c * (2 ** dim) ** m.get('ref', 0)


@st.composite
def letter_case(draw, s):
    mode = draw(st.sampled_from(['same', 'same', 'upper', 'title', 'mixed']))
    if mode == 'upper':
        return s.upper()
    if mode == 'title':
        return s.title()
    if mode == 'mixed':
        bits = draw(st.lists(st.booleans(), min_size=len(s), max_size=len(s)))
        return ''.join(c.upper() if b else c.lower() for c, b in zip(s, bits))
    return s


@st.composite
def agglomeration(draw, dim, cells, kinds=('block', 'block', 'zoltan', 'metis'), cased=True, maxagg=None):
    k = draw(st.sampled_from(list(kinds)))
    a = {'partitioner': draw(letter_case(k)) if cased else k}
    if k == 'block':
        for x in ('nx', 'ny', 'nz')[:dim]:
            a[x] = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 12)))
    else:
        hi = min(maxagg or 10 ** 6, max(1, cells))
        a['n_agglomerates'] = draw(st.one_of(st.integers(1, min(6, hi)), st.integers(1, hi)))
    return a


def dims():
    return st.sampled_from([2, 2, 3])


@st.composite
def many(draw, dim, np=1):
    """A mesh and an agglomeration with more than 256 agglomerates per rank."""
    lo = 300 * np
    if dim == 2:
        a = draw(st.integers(17, 24))
        n = [a, -(-lo // a) + draw(st.integers(0, 4))]
        # rows of exactly 256 cells: neighbours whose numbers differ by 256
        if np == 1 and draw(st.integers(0, 2)) == 0:
            n = [256, 2]
    else:
        a, b = draw(st.integers(6, 8)), draw(st.integers(6, 8))
        n = [a, b, -(-lo // (a * b))]
    m = {'kind': 'box', 'n': n, 'ref': 0, 'asp': 1.0}
    if draw(st.booleans()):
        return m, dict(partitioner='block', **{x: 1 for x in ('nx', 'ny', 'nz')[:dim]})
    return m, {'partitioner': draw(st.sampled_from(['block', 'zoltan'])), 'n_agglomerates': 280 + draw(st.integers(0, 20)),
               **{x: 1 for x in ('nx', 'ny', 'nz')[:dim]}}
