"""C23: bad configurations are rejected, good ones honoured in any letter case."""
import copy
from hypothesis import strategies as st
from hier import SRC, GROUP, BIN, SMOOTHERS, hierarchy
from common import letter_case
RULE = ('random problems with a hierarchy configuration and (a) a defect planted in it: unknown names, unavailable eigensolvers, missing parts, no parameters, impossible levels and numbers; '
        'an exception is due on every rank; or (b) an equivalent spelling of it: letter case of names, documented defaults written out or left out, in any '
        'order; the same result is due; (c) operations that an operator, evaluator or helper does not offer; non-trivial = every rejected one, spellings that differ')
CAP = {'quick': 60, 'thorough': 800}
BADP = ['', 'blocks', 'zoltan ', 'parmetis', 'random', 'none', ' block', 'scotch', '0', 'p4est']
BADS = ['', 'sor', 'Gauss Seidel', 'gaussseidel', 'ilu(0)', 'block-jacobi', 'ssor', 'none', 'jacobi ', '1']
BADC = ['', 'superlu', 'cg', 'ML ', 'amg', 'none', 'direct solver', 'lu', '0']
BADE = ['', 'slepc', 'lobpcg', 'arpack++', 'none', 'lanczos2', '0', 'eigen']


@st.composite
def cases(draw, np, maxcells, maxdeg):
    mf = draw(st.integers(0, 2)) == 0
    types = ['lanczos'] if mf else ['lapack', 'arpack', 'lanczos']
    p = draw(hierarchy(mf, np, maxcells, maxdeg, types=types, levels=(2,)))
    p['prop'] = 'C23'
    h = p.pop('h')
    full = dict(h, eigensolver=p['eig'], agglomeration=p['agg'])
    if draw(st.integers(0, 7)) == 0:
        p.update(kind='ops', op=draw(st.sampled_from(['matrix-free', 'operands', 'evaluators', 'helpers', 'solvers'])), h=h)
        return p
    if draw(st.booleans()):
        p['kind'] = 'bad'
        why = draw(st.sampled_from(['partitioner', 'smoother', 'coarse', 'eigensolver', 'no eigensolver', 'no agglomeration', 'no partitioner', 'no parameters',
                                    'partitioner alone', 'levels', 'size', 'size alone', 'eigenvectors', 'steps'] + (['too many eigenvectors'] if np == 1 else [])))
        b = copy.deepcopy(full)
        if why == 'partitioner' or why == 'partitioner alone':
            b['agglomeration']['partitioner'] = draw(st.sampled_from(BADP))
            if why == 'partitioner alone':
                p['part'] = 'agglomerates'
        elif why == 'smoother':
            b.setdefault('smoother', {})['type'] = draw(st.sampled_from(BADS + (SMOOTHERS if mf else ['Chebyshev', 'chebyshev'])))
        elif why == 'coarse':
            b.setdefault('coarse', {})['type'] = draw(st.sampled_from(BADC))
        elif why == 'eigensolver':
            b['eigensolver']['type'] = draw(st.sampled_from(BADE + (['arpack', 'lapack'] * 3 if mf else [])))
        elif why == 'levels':
            b['max levels'] = draw(st.sampled_from([0, -1, -7] + ([1, 3, 4] if mf else [])))
        elif why.startswith('size'):
            a = b['agglomeration']
            a[draw(st.sampled_from(sorted(x for x in a if x != 'partitioner')))] = 0
            if why == 'size alone':
                p['part'] = 'agglomerates'
        elif why == 'eigenvectors':
            b['eigensolver']['number of eigenvectors'] = draw(st.sampled_from([0, 0, -1, -3]))
            if draw(st.booleans()):
                b['eigensolver']['type'] = draw(st.sampled_from(types))
        elif why == 'too many eigenvectors':
            p['more'] = draw(st.integers(1, 40))  # than degrees of freedom
            b['eigensolver'].pop('max_iterations', None)  # 3000 take minutes
            if draw(st.booleans()):
                b['eigensolver']['type'] = draw(st.sampled_from(types))
        elif why == 'steps':
            b.setdefault('smoother', {})['n_smoothing_steps'] = draw(st.sampled_from([-1, -2, -40]))
        elif why == 'no eigensolver':
            del b['eigensolver']
        elif why == 'no agglomeration':
            del b['agglomeration']
        elif why == 'no partitioner':
            del b['agglomeration']['partitioner']
        elif why == 'no parameters':
            b = draw(st.sampled_from([None, {}]))
        if b is not None and draw(st.integers(0, 2)) == 0:
            b['fast_ap'] = draw(st.booleans())
        p.update(bad=b, why='rejects ' + why)
        return p
    p['kind'] = 'same'
    one, two = copy.deepcopy(full), copy.deepcopy(full)
    why = draw(st.sampled_from(['case', 'case', 'defaults', 'defaults', 'order']))
    if why == 'case':
        two['agglomeration']['partitioner'] = draw(letter_case(one['agglomeration']['partitioner']))
        c = draw(st.sampled_from(['direct', 'Direct']))
        one['coarse'] = {'type': c}
        two['coarse'] = {'type': draw(letter_case(c))}
        s = 'Chebyshev' if mf else draw(st.sampled_from(SMOOTHERS))
        one.setdefault('smoother', {})['type'] = s
        two.setdefault('smoother', {})['type'] = draw(letter_case(s))
    elif why == 'defaults':
        d = {'is preconditioner': True, 'max levels': 2, 'fast_ap': False,
             'smoother': {'type': 'Chebyshev' if mf else 'Symmetric Gauss-Seidel', 'n_smoothing_steps': 1}, 'coarse': {'type': 'direct'},
             'eigensolver': {'type': 'lanczos' if mf else 'arpack', 'number of eigenvectors': 1, 'tolerance': 1e-14}}
        e = 'lanczos' if mf else 'arpack'
        one['eigensolver'] = {'type': e, 'number of eigenvectors': 1, 'tolerance': 1e-14}
        if mf:
            d['eigensolver']['max_iterations'] = 200
        two['eigensolver'] = {}
        p['eig'] = one['eigensolver'] = dict(one['eigensolver'])
        p['k'] = 1
        for key in ('is preconditioner', 'max levels', 'fast_ap', 'smoother', 'coarse'):
            one.pop(key, None)
            two.pop(key, None)
        for key, v in d.items():
            if isinstance(v, dict):
                for kk, vv in v.items():
                    where = draw(st.sampled_from(['one', 'two', 'both', 'none']))
                    for name, t in (('one', one), ('two', two)):
                        if where in (name, 'both'):
                            t.setdefault(key, {})[kk] = vv
                        elif key in t:
                            t[key].pop(kk, None)
            else:
                where = draw(st.sampled_from(['one', 'two', 'both', 'none']))
                for name, t in (('one', one), ('two', two)):
                    if where in (name, 'both'):
                        t[key] = v
        for t in (one, two):
            t.setdefault('eigensolver', {'number of eigenvectors': 1})
            if not t['eigensolver']:
                t['eigensolver'] = {'number of eigenvectors': 1}
    else:
        two = {key: two[key] for key in draw(st.permutations(sorted(two)))}
        two['an unknown key'] = 'ignored'
        two['eigensolver'] = {key: two['eigensolver'][key] for key in draw(st.permutations(sorted(two['eigensolver'])))}
    p.update(one=one, two=two, why='accepts ' + why)
    return p


def shards(tier):
    k = 1 if tier == 'quick' else 14
    return [dict(np=1, n=400 * k, strategy=cases(1, 16, 1)), dict(np=2, n=200 * k, strategy=cases(2, 24, 1)), dict(np=3, n=120 * k, strategy=cases(3, 24, 1)),
            dict(np=1, n=60 * k, threads=4, strategy=cases(1, 24, 1))]
