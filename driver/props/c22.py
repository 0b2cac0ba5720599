"""C22: written output files round-trip."""
import base64
import os
import struct
import xml.etree.ElementTree as ET
import zlib
from hypothesis import strategies as st
from common import adaptive, agglomeration, dims, many, mesh, ncells
SRC, GROUP, BIN = 'p_amge.cc', 'amge', 'amge'
RULE = ('half of the cases write the mesh output (meshes as in C01, with and without agglomeration, 1-4 ranks) and parse every vtu piece '
        'and the pvtu record; the others write distributed/serial matrices (rectangular, empty rows, ranks without rows) and vectors in '
        'MatrixMarket format and read them back; non-trivial = mesh with at least 2 cells per piece, matrix with at least 6 entries')
CAP = {'quick': 40, 'thorough': 600}


def decode(da):
    fmt, typ = da.get('format'), da.get('type')
    code = {'Float32': 'f', 'Float64': 'd', 'Int32': 'i', 'UInt32': 'I', 'UInt8': 'B', 'Int64': 'q', 'UInt64': 'Q'}[typ]
    txt = (da.text or '').strip()
    if fmt == 'ascii':
        return [float(x) for x in txt.split()]
    if not txt:
        return []
    # compressed: base64(header) base64(data); header = nblocks, blocksize, lastsize, sizes
    h0 = base64.b64decode(txt[:16])
    nb = struct.unpack('<I', h0[:4])[0]
    hl = 4 * (3 + nb)
    hb = (hl + 2) // 3 * 4
    sizes = struct.unpack('<%dI' % (3 + nb), base64.b64decode(txt[:hb])[:hl])[3:]
    raw = base64.b64decode(txt[hb:])
    out, pos = b'', 0
    for s in sizes:
        out += zlib.decompress(raw[pos:pos + s])
        pos += s
    return list(struct.unpack('<%d%s' % (len(out) // struct.calcsize(code), code), out))


def read_vtu(path):
    root = ET.parse(path).getroot()
    comp = root.get('compressor')
    cells = []
    for p in root.iter('Piece'):
        arrs = {}
        for sec in p:
            for da in sec.iter('DataArray'):
                if comp is None and da.get('format') != 'ascii':
                    raise ValueError('unexpected encoding')
                arrs[(sec.tag, da.get('Name'))] = decode(da)
        pts = next((v for (t, n), v in arrs.items() if t == 'Points'), None)
        if pts is None:  # a rank without cells writes an empty piece
            continue
        con = arrs[('Cells', 'connectivity')]
        off = arrs[('Cells', 'offsets')]
        sub = arrs.get(('PointData', 'subdomain'), arrs.get(('CellData', 'subdomain')))
        agg = arrs.get(('PointData', 'agglomerates'), arrs.get(('CellData', 'agglomerates')))
        pointdata = ('PointData', 'subdomain') in arrs
        lo = 0
        for k, hi in enumerate(off):
            ids = [int(i) for i in con[int(lo):int(hi)]]
            lo = hi
            vs = [tuple(pts[3 * i:3 * i + 3]) for i in ids]
            if pointdata:
                cells.append((vs, {sub[i] for i in ids}, {agg[i] for i in ids}))
            else:
                cells.append((vs, {sub[k]}, {agg[k]}))
    return cells


def post_mesh(case, info, np):
    base, dim = info['base'], case['dim']
    fails, labels, nt = [], [], False
    files = []
    for r in range(np):
        f = '%s%d.vtu' % (base, r)
        files.append(os.path.basename(f))
        if not os.path.exists(f):
            fails.append('piece of rank %d was not written' % r)
            continue
        try:
            cells = read_vtu(f)
        except Exception as e:  # unreadable file
            fails.append('piece of rank %d is not readable: %r' % (r, e))
            continue
        exp = {}
        for v, a in info['pieces'][r]:
            c = tuple(sum(v[i::dim]) / 2 ** dim for i in range(dim))
            exp[tuple(round(x, 3) + 0.0 for x in c)] = a
        got = {}
        for vs, sub, agg in cells:
            c = tuple(sum(p[i] for p in vs) / len(vs) for i in range(dim))
            if sub != {float(r)}:
                fails.append('rank of a cell in piece %d is %r' % (r, sub))
            got[tuple(round(x, 3) + 0.0 for x in c)] = agg
        if len(cells) != len(info['pieces'][r]):
            fails.append('piece %d has %d cells instead of %d' % (r, len(cells), len(info['pieces'][r])))

        def near(c):
            best = min(got, key=lambda g: sum((a - b) ** 2 for a, b in zip(g, c)), default=None)
            return best if best is not None and sum((a - b) ** 2 for a, b in zip(best, c)) < 1e-4 else None
        for c, a in exp.items():
            g = near(c)
            if g is None:
                fails.append('no cell at %r in piece %d' % (c, r))
            elif got[g] != {float(a)}:
                fails.append('agglomerate of the cell at %r in piece %d: got %r, expected %r' % (c, r, got[g], a))
        nt = nt or len(exp) >= 2
        os.unlink(f)
    m = base + '.pvtu'
    if not os.path.exists(m):
        fails.append('no master record')
    else:
        try:
            src = [p.get('Source') for p in ET.parse(m).getroot().iter('Piece')]
            if sorted(map(os.path.basename, src)) != sorted(files):
                fails.append('pieces named by the master record: %r, expected %r' % (src, files))
        except ET.ParseError as e:
            fails.append('master record is not readable: %r' % e)
        os.unlink(m)
    return {'fails': fails[:8], 'nt': nt, 'labels': ['vtu']}


def post(case, info, np):
    return post_mesh(case, info, np) if case['dim'] else {'fails': []}


name = st.sampled_from(['out', 'a', 'agg-', 'mesh.1.', 'with space', 'x_y'])


@st.composite
def cases(draw, np, maxcells, maxsize=8):
    if draw(st.booleans()):
        dim = draw(dims())
        m = draw(mesh(dim, maxcells, warp=False))
        c = {'prop': 'C22', 'dim': dim, 'deg': draw(st.integers(1, 2)), 'mesh': m, 'name': draw(name)}
        if draw(st.integers(0, 5)):
            c['agg'] = draw(agglomeration(dim, max(1, ncells(m, dim) // np)))
        draw(adaptive(m, [c['agg']] if 'agg' in c else []))
        return c
    what = draw(st.sampled_from(['trilinos', 'trilinos', 'serial', 'vector']))
    size = st.integers(0, maxsize)
    rows = draw(st.lists(size, min_size=np, max_size=np))
    if sum(rows) == 0:
        rows[draw(st.integers(0, np - 1))] = draw(st.integers(1, 8))
    square = draw(st.booleans())
    cols = rows if square else draw(st.lists(size, min_size=np, max_size=np))
    if sum(cols) == 0:
        cols = [1] + [0] * (np - 1)
    return {'prop': 'C22', 'dim': 0, 'what': what, 'rows': rows, 'cols': cols, 'name': draw(name) + '.mtx',
            'density': draw(st.sampled_from([0.1, 0.5, 1.0])), 'mag': draw(st.integers(-20, 20)), 'seed': draw(st.integers(0, 9999))}


@st.composite
def big(draw, np):
    dim = draw(dims())
    m, a = draw(many(dim, np))
    return {'prop': 'C22', 'dim': dim, 'deg': 1, 'mesh': m, 'name': draw(name), 'agg': a}


def shards(tier):
    if tier == 'quick':
        return [dict(np=1, n=8, strategy=big(1)), dict(np=2, n=4, strategy=big(2))] + [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 400, 60), (2, 400, 60), (3, 400, 60), (4, 200, 60))] + [dict(np=1, n=60, strategy=cases(1, 700, 70)), dict(np=2, n=40, strategy=cases(2, 500, 40))]
    return [dict(np=1, n=150, strategy=big(1)), dict(np=2, n=100, strategy=big(2))] + [dict(np=p, n=n, strategy=cases(p, c)) for p, n, c in ((1, 4000, 100), (1, 1000, 500), (2, 4000, 100), (3, 4000, 150),
                                                                   (4, 3000, 200))]
