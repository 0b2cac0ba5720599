"""C19: ptree2plist keeps structure, names, types and values."""
import math
import re
from hypothesis import strategies as st
SRC, GROUP, BIN, PCH = 'p_utils.cc', 'utils', 'utils', False
RULE = ('random property trees (depth <= 5, unique sibling names; leaf texts: integers, decimal/scientific numbers, '
        'booleans, free text over printable ASCII incl. & < > " \' and blanks); the whole list is compared with an '
        'independently classified expectation; non-trivial = at least 3 leaves and 2 different leaf types')
CAP = {'quick': 25, 'thorough': 400}

INT = re.compile(r'^\s*[+-]?\d+\s*$', re.A)
DBL = re.compile(r'^\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*$', re.A)


def classify(t):
    if INT.match(t) and -2**31 <= int(t) < 2**31:
        return 'int', str(int(t))
    if DBL.match(t) and not math.isinf(float(t)):
        return 'double', float(t)
    if t.strip() in ('true', 'false'):
        return 'bool', t.strip()
    return 'string', t


def expect(nodes):
    out = []
    for n, v in nodes:
        if isinstance(v, str):
            out.append([n] + list(classify(v)))
        elif not v:
            out.append([n, 'string', ''])
        else:
            out.append([n, 'list', expect(v)])
    return out


def diff(got, exp, path=''):
    g = {x[0]: x for x in got}
    e = {x[0]: x for x in exp}
    if len(got) != len(exp) or set(g) != set(e):
        return ['names at "%s": got %r expected %r' % (path, sorted(g), sorted(e))]
    for n in e:
        p = path + '/' + n
        if g[n][1] != e[n][1]:
            return ['type of %s: got %r expected %r' % (p, g[n][1:], e[n][1:])]
        if e[n][1] == 'list':
            d = diff(g[n][2], e[n][2], p)
            if d:
                return d
        elif e[n][1] == 'double':
            if float.fromhex(g[n][2]) != e[n][2]:
                return ['value of %s: got %r expected %r' % (p, float.fromhex(g[n][2]), e[n][2])]
        elif g[n][2] != e[n][2]:
            return ['value of %s: got %r expected %r' % (p, g[n][2], e[n][2])]
    return []


def leaves(nodes):
    for n, v in nodes:
        if isinstance(v, str):
            yield v
        else:
            yield from leaves(v)


def post(case, info, np):
    types = [classify(v)[0] for v in leaves(case['tree'])]
    txt = ''.join(leaves(case['tree']))
    labels = set(types)
    if any(c in txt for c in '&<>"\''):
        labels.add('xml-special')
    if any(isinstance(v, list) for _, v in case['tree']):
        labels.add('nested')
    return {'fails': diff(info['plist'], expect(case['tree'])),
            'nt': len(types) >= 3 and len(set(types)) >= 2, 'labels': labels}


PRINT = ''.join(chr(i) for i in range(32, 127))
name = st.one_of(
    st.sampled_from(['coarse', 'smoother: type', 'max levels', 'nx', 'tolerance', 'ML output', 'type', 'is preconditioner',
                     'a.b', 'x', 'A', 'number of eigenvectors', 'aggregation: damping factor']),
    st.text(alphabet='abcXYZ019 :._-()%&<>"\'/=#', min_size=1, max_size=12))
num = st.one_of(
    st.integers(-2**31 - 5, 2**31 + 5).map(str), st.integers(-10, 10).map(str), st.integers(0, 300).map(lambda i: '+%d' % i),
    st.integers(0, 99).map(lambda i: '%05d' % i), st.integers(-10**25, 10**25).map(str),
    st.floats(allow_nan=False, allow_infinity=False).map(repr),
    st.tuples(st.integers(-999, 999), st.integers(-300, 300)).map(lambda t: '%de%d' % t),
    st.tuples(st.integers(-999, 999), st.integers(0, 99999)).map(lambda t: '%d.%d' % t),
    st.sampled_from(['1.', '.5', '-.25', '1E3', '+1.5e-3', '0', '-0', '0.0', '2147483647', '2147483648', '-2147483648']))
text = st.one_of(
    st.sampled_from(['true', 'false', 'True', 'TRUE', 'yes', 'no', '', 'nan', 'inf', '1e', '0x10', '1,5', '1 2', '--1', '1e400',
                     'Gauss-Seidel', 'a&b', 'a<b', 'a>b', '"', "'", '&amp;', '/>', '-', '.', 'e5', '1.2.3', 'tru', 'int']),
    st.text(alphabet=PRINT, max_size=20),
    st.text(alphabet='01.eE+-xtrufals ', max_size=6))
leaf = st.one_of(num, st.sampled_from(['true', 'false']), text)


def uniq(kids):
    seen, out = set(), []
    for n, v in kids:
        if n not in seen:
            seen.add(n)
            out.append([n, v])
    return out


def node(depth):
    if depth == 0:
        return leaf
    return st.one_of(leaf, leaf, st.lists(st.tuples(name, node(depth - 1)), min_size=1, max_size=5).map(uniq))


tree = st.lists(st.tuples(name, node(4)), max_size=7).map(uniq)
longtext = st.text(alphabet=PRINT, min_size=30, max_size=400)
chain = st.tuples(st.lists(name, min_size=5, max_size=20), st.one_of(leaf, longtext)).map(lambda t: [wrap(t[0], t[1])])
large = st.one_of(st.lists(st.tuples(name, st.one_of(leaf, leaf, longtext)), min_size=20, max_size=150).map(uniq),
                  chain, st.lists(st.tuples(st.one_of(name, longtext), node(2)), min_size=5, max_size=40).map(uniq))


def wrap(names, v):
    for n in reversed(names[1:]):
        v = [[n, v]]
    return [names[0], v]


strategy = st.fixed_dictionaries({'prop': st.just('C19'), 'tree': tree, 'prefill': st.booleans()})


def shards(tier):
    k, n = (3, 700) if tier == 'quick' else (7, 20000)
    big = st.fixed_dictionaries({'prop': st.just('C19'), 'tree': large, 'prefill': st.booleans()})
    return [dict(np=1, n=n, strategy=strategy) for _ in range(k)] + [dict(np=1, n=n // 7, strategy=big)]
