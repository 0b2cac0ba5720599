"""C24: set-up is repeatable and independent of irrelevant representation."""
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, hierarchy
from common import agglomeration
from prob import agg
RULE = ('random positive definite problems; hierarchy and restrictor built again on the same or a new mesh object with other hierarchies in between (bitwise), '
        'in another numbering of the degrees of freedom (permuted), for the operator times a power of two (restrictor unchanged, cycle scaled by the '
        'inverse); non-trivial = several agglomerates')
CAP = {'quick': 60, 'thorough': 800}


@st.composite
def cases(draw, np, maxcells, maxdeg):
    kind = draw(st.sampled_from(['again', 'mesh', 'renumber', 'scale']))
    mf = draw(st.integers(0, 2)) == 0 and kind != 'scale'
    if mf:
        types = ['lanczos'] if np > 1 or kind == 'renumber' else None
    else:
        types = ['lapack', 'lapack', 'arpack'] if kind == 'scale' else ['lapack', 'arpack', 'lanczos']
    p = draw(hierarchy(mf, np, maxcells, maxdeg, types=types, levels=(2,), symmetric=False))
    p['prop'] = 'C24'
    p['kind'] = kind
    if kind == 'renumber':
        p['renum2'] = draw(st.sampled_from([x for x in ('none', 'rcm', 'rev') if x != p.get('renum', 'none')]))
        p['h'].setdefault('smoother', {})
        if mf:
            p['h']['smoother']['n_smoothing_steps'] = 0
        else:
            p['h']['smoother']['type'] = draw(st.sampled_from(['Jacobi', 'jacobi']))
    elif kind == 'scale':
        p['pow'] = draw(st.sampled_from([-20, -7, -2, -1, 1, 2, 5, 20]))
    elif draw(st.booleans()):
        o = []
        for _ in range(draw(st.integers(1, 2))):
            q = {}
            if draw(st.booleans()):
                q['agg'] = draw(agg(p, np))
            if draw(st.booleans()):
                kk = draw(st.integers(1, 3))
                q['k'] = kk
                q['eig'] = dict(p['eig'], **{'number of eigenvectors': kk})
                if 'num_cycles' in q['eig']:
                    q['eig']['num_cycles'] = kk
            if draw(st.booleans()):
                q['h'] = dict(p['h'], **{'is preconditioner': draw(st.booleans())})
            o.append(q)
        p['between'] = o
    return p


def is_known(case, np, r):
    """known finding: ARPACK draws from a generator that it never resets when an agglomerate has a multiple eigenvalue"""
    return (not case['mf'] and case['eig'].get('type', 'arpack') == 'arpack' and case['kind'] in ('again', 'mesh') and
            (r.get('info') or {}).get('gap', 1.) < 1e-8 and
            all('built again' in m or 'on a new mesh object' in m for m in r['fails']))


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=200 * k, strategy=cases(1, 24, 2)), dict(np=1, n=80 * k, strategy=cases(1, 50, 3)), dict(np=2, n=130 * k, strategy=cases(2, 40, 2)),
            dict(np=3, n=100 * k, strategy=cases(3, 40, 2)), dict(np=1, n=20 * k, strategy=cases(1, 180, 1)),
            dict(np=4, n=20 * k, strategy=cases(4, 40, 1))]
