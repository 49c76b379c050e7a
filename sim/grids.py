"""
Grid generation, and independent readers / writers of the file formats.

A grid is a plain dictionary:
  {'title': str, 'vars': [names of face variables],
   'zones': [{'name': str, 'nodes': [(x, y, z)...], 'faces': [(i, j, k)...], 'data': [[v per var]...]}]}
Nodes are numbered inside their zone from 0.  A global face number is the position in file order.
"""

import math
import os

BASE_VARS = ['T', 'Hw', 'Hi']
FULL_VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ']


# -- shapes ----------------------------------------------------------------------------------------


def sheet(m, n, flat, rng):
    bump = 0.0 if flat else 0.35
    pts = [(i * 1.0 + 0.013 * j, j * 1.1, bump * math.sin(0.7 * i + 0.3) * math.cos(0.5 * j) + 0.001 * bump * i)
           for i in range(m + 1) for j in range(n + 1)]
    tri = []
    for i in range(m):
        for j in range(n):
            a, b = i * (n + 1) + j, (i + 1) * (n + 1) + j
            if rng.random() < 0.5:
                tri += [(a, b, b + 1), (a, b + 1, a + 1)]
            else:
                tri += [(a, b, a + 1), (b, b + 1, a + 1)]
    return pts, tri


def tube(m, n, closed):
    """Cylinder of n segments, m rings; closed - torus."""
    pts = []
    for i in range(m + (0 if closed else 1)):
        for j in range(n):
            v = 2 * math.pi * j / n
            if closed:
                u = 2 * math.pi * i / m
                r = 4.0 + 1.3 * math.cos(v)
                pts.append((r * math.cos(u), r * math.sin(u), 1.3 * math.sin(v)))
            else:
                pts.append((1.5 * math.cos(v) + 0.01 * i, 1.5 * math.sin(v), 0.9 * i))
    rows = m if closed else m + 1
    tri = []
    for i in range(m):
        for j in range(n):
            a = (i % rows) * n + j
            b = ((i + 1) % rows) * n + j
            c = ((i + 1) % rows) * n + (j + 1) % n
            d = (i % rows) * n + (j + 1) % n
            tri += [(a, b, c), (a, c, d)]
    return pts, tri


def octahedron(level):
    pts = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1.2), (0, 0, -0.9)]
    tri = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    for _ in range(level):
        mid, new = {}, []
        pts = list(pts)

        def m(a, b):
            k = (min(a, b), max(a, b))
            if k not in mid:
                p = [(pts[a][i] + pts[b][i]) / 2 for i in range(3)]
                r = math.sqrt(sum(x * x for x in p))
                pts.append(tuple(x / r * 1.05 for x in p))
                mid[k] = len(pts) - 1
            return mid[k]
        for a, b, c in tri:
            x, y, z = m(a, b), m(b, c), m(a, c)
            new += [(a, x, z), (x, b, y), (z, y, c), (x, y, z)]
        tri = new
    return [tuple(float(x) * 2.0 for x in p) for p in pts], tri


def fan(n):
    pts = [(0.0, 0.0, 0.4)] + [(2 * math.cos(2 * math.pi * i / n), 2 * math.sin(2 * math.pi * i / n), 0.02 * i)
                               for i in range(n)]
    return pts, [(0, 1 + i, 1 + (i + 1) % n) for i in range(n)]


def strip(n):
    pts = [(0.5 * i, 1.0 * (i % 2), 0.07 * i * i / n) for i in range(n + 2)]
    return pts, [(i, i + 1, i + 2) if i % 2 == 0 else (i + 1, i, i + 2) for i in range(n)]


def shape(kind, size, rng):
    if kind == 'sheet':
        m = max(1, int(math.sqrt(size / 2.0)))
        return sheet(m, max(1, size // (2 * m)), False, rng)
    if kind == 'plane':
        m = max(1, int(math.sqrt(size / 2.0)))
        return sheet(m, max(1, size // (2 * m)), True, rng)
    if kind == 'tube':
        n = max(3, int(math.sqrt(size / 2.0)))
        return tube(max(1, size // (2 * n)), n, False)
    if kind == 'torus':
        n = max(3, int(math.sqrt(size / 2.0)))
        return tube(max(3, size // (2 * n)), n, True)
    if kind == 'octa':
        return octahedron(0 if size < 20 else (1 if size < 80 else 2))
    if kind == 'fan':
        return fan(max(3, size))
    if kind == 'strip':
        return strip(max(1, size))
    raise ValueError(kind)


KINDS = ['sheet', 'plane', 'tube', 'torus', 'octa', 'fan', 'strip']


def spec(rng, lo=4, hi=40, kinds=None, comps=True, vars=None, zones=True, big=0.0, huge=0.0):
    """Random description of a grid (small, JSON; sometimes a big one)."""
    if big and rng.random() < big:
        lo, hi = rng.choice([(70, 140), (140, 300)])
    if huge and rng.random() < huge:
        lo, hi, kinds, comps = 1500, 3600, ['sheet', 'plane', 'tube', 'torus', 'strip'], False
    k = 1
    if comps and rng.random() < 0.3:
        k = rng.choice([2, 2, 3])
    parts = [[rng.choice(kinds or KINDS), rng.randint(lo, hi) if k == 1 else rng.randint(lo, max(lo, hi // k))]
             for _ in range(k)]
    return {'parts': parts, 'seed': rng.randrange(1 << 30),
            'zones': rng.choice([1, 1, 1, 2, 3, 5, 5 if rng.random() < 0.6 else 12]) if zones else 1,
            'scatter': rng.random() < 0.3, 'shuffle': rng.random() < 0.6,
            'vars': vars if vars is not None else rng.choice([BASE_VARS, FULL_VARS, ['T', 'Hw', 'Hi', 'HTC'],
                                                               FULL_VARS + ['RecoveryFactor']]),
            'title': rng.choice(['', 'T1', 'Grid title', 'wing-1_b']),
            'names': rng.choice([0, 0, 0, 1, 2, 3, 4]), 'zeros': rng.random() < 0.3}


# Names of zones which contain one another, or blanks.
NAMES = [[], ['wing_1', 'wing', 'wing_1 slat', 'win', 'wing_12'], ['b', 'body', 'nose of body', 'body 2', 'zone'],
         ['left', 'left', 'right', 'left', 'right'], ['wing', 'wing ', 'Wing', ' wing', 'wing.']]


def build(sp):
    """Make the grid of the given description."""
    import random
    rng = random.Random(sp['seed'])
    pts, tri = [], []
    for c, (kind, size) in enumerate(sp['parts']):
        p, t = shape(kind, size, rng)
        off = len(pts)
        pts += [(x + 25.0 * c, y - 3.0 * c, z + 0.0 * c) for x, y, z in p]
        tri += [(a + off, b + off, d + off) for a, b, d in t]
    if sp.get('scale'):
        pts = [tuple(x * sp['scale'] for x in p) for p in pts]
    if sp.get('shuffle'):
        rng.shuffle(tri)
        tri = [t[r:] + t[:r] for t in tri for r in [rng.randrange(3)]]
    n = len(tri)
    zc = max(1, min(sp.get('zones', 1), n))
    if sp.get('scatter'):
        own = [rng.randrange(zc) for _ in range(n)]
    else:
        key = sorted(range(n), key=lambda i: sum(pts[v][0] for v in tri[i]))
        own = [0] * n
        for r, i in enumerate(key):
            own[i] = r * zc // n
    vs = sp['vars']
    zones = []
    num = 0
    for z in range(zc):
        fs = [t for t, o in zip(tri, own) if o == z]
        if not fs:
            continue
        loc, nodes = {}, []
        order = sorted({v for t in fs for v in t})
        if sp.get('shuffle'):
            rng.shuffle(order)
        for v in order:
            loc[v] = len(nodes)
            nodes.append(pts[v])
        data = []
        for t in fs:
            data.append([0.0 if sp.get('zeros') and (num * 7 + k * 3) % 5 == 0 else value(num, k, v)
                         for k, v in enumerate(vs)])
            num += 1
        names = NAMES[sp.get('names', 0)] if len(zones) < 5 else []
        zones.append({'name': names[len(zones)] if names else 'zone_%d' % len(zones), 'nodes': nodes,
                      'faces': [tuple(loc[v] for v in t) for t in fs], 'data': data})
    return {'title': sp.get('title', ''), 'vars': list(vs), 'zones': zones}


def value(face, k, name):
    """Unique value of a variable on a face."""
    if name == 'Hi':
        return 0.001 * (1 + (face * 37) % 101) + 1e-7 * face
    if name == 'Hw':
        return 0.0005 * (1 + (face * 53) % 97) + 1e-8 * face
    if name == 'T':
        return 250.0 + (face * 0.3712890625) + 1e-3 / (face + 3)
    if name == 'RecoveryFactor':
        return 0.8 + 0.001 * (face % 50)
    return (k + 1) * 17.25 + face * 0.0625 + 1.0 / (face + 7 + k)


# -- *.dat -----------------------------------------------------------------------------------------


def fmt(x):
    return '{0:.18e}'.format(x)


def write_dat(path, g, header=True):
    with _open(path, 'w') as f:
        f.write(dat_text(g, header))


def dat_text(g, header=True):
    out = ['# sim'] if header else []
    out.append('TITLE="%s"' % g['title'])
    out.append('VARIABLES=' + ', '.join('"%s"' % v for v in ['X', 'Y', 'Z'] + g['vars']))
    for z in g['zones']:
        out.append('ZONE T="%s"' % z['name'])
        out.append('NODES=%d' % len(z['nodes']))
        out.append('ELEMENTS=%d' % len(z['faces']))
        out.append('DATAPACKING=BLOCK')
        out.append('ZONETYPE=FETRIANGLE')
        out.append('VARLOCATION=([4-%d]=CELLCENTERED)' % (3 + len(g['vars'])))
        for i in range(3):
            out.append(' '.join(fmt(p[i]) for p in z['nodes']) + ' ')
        for k in range(len(g['vars'])):
            out.append(' '.join(fmt(d[k]) for d in z['data']) + ' ')
        for t in z['faces']:
            out.append(' '.join(str(v + 1) for v in t))
    return '\n'.join(out) + '\n'


class FormatError(Exception):
    pass


def _need(cond, msg):
    if not cond:
        raise FormatError(msg)


def _open(path, mode='r'):
    from .fsim import real_open
    return real_open(path, mode)


def parse_dat(path=None, text=None):
    """Strict independent reader of *.dat files."""
    if text is None:
        with _open(path) as f:
            text = f.read()
    _need(text.endswith('\n'), 'file does not end with a newline')
    lines = text.split('\n')[:-1]
    g = {'title': None, 'vars': None, 'zones': []}
    i = 0

    def take():
        nonlocal i
        _need(i < len(lines), 'file ends too early')
        i += 1
        return lines[i - 1]

    while i < len(lines):
        l = take()
        if l.startswith('#'):
            continue
        if l.startswith('TITLE='):
            g['title'] = l[7:-1]
        elif l.startswith('VARIABLES='):
            vs = [v.strip().strip('"') for v in l[10:].split(',')]
            _need(vs[:3] == ['X', 'Y', 'Z'], 'coordinates are not X, Y, Z')
            g['vars'] = vs[3:]
        elif l.startswith('ZONE T='):
            _need(g['vars'] is not None, 'zone before variables')
            _need(l[7] == '"' and l[-1] == '"', 'zone name is not quoted')
            z = {'name': l[8:-1]}
            a, b = take(), take()
            _need(a.startswith('NODES=') and b.startswith('ELEMENTS='), 'wrong counts')
            nc, fc = int(a[6:]), int(b[9:])
            _need(take() == 'DATAPACKING=BLOCK', 'packing')
            _need(take() == 'ZONETYPE=FETRIANGLE', 'type')
            _need(take() == 'VARLOCATION=([4-%d]=CELLCENTERED)' % (3 + len(g['vars'])), 'varlocation')
            c = [[float(x) for x in take().split()] for _ in range(3)]
            _need(all(len(r) == nc for r in c), 'wrong count of coordinates')
            z['nodes'] = list(zip(*c)) if nc else []
            d = [[float(x) for x in take().split()] for _ in g['vars']]
            _need(all(len(r) == fc for r in d), 'wrong count of face values')
            z['data'] = [[r[j] for r in d] for j in range(fc)]
            z['faces'] = []
            for _ in range(fc):
                t = tuple(int(x) - 1 for x in take().split())
                _need(len(t) == 3 and all(0 <= v < nc for v in t), 'wrong connectivity %r' % (t,))
                z['faces'].append(t)
            g['zones'].append(z)
        else:
            raise FormatError('unexpected line %r' % l[:80])
    return g


def faces(g, with_data=True):
    """Geometry-based view: list of (coordinates of the three nodes, {var: value}, zone index), in file order."""
    r = []
    for zi, z in enumerate(g['zones']):
        for t, d in zip(z['faces'], z['data']):
            r.append((tuple(tuple(z['nodes'][v]) for v in t), dict(zip(g['vars'], d)), zi))
    return r


def same_grid(a, b):
    """Exact equality of two parsed grids (zones, order, data, connectivity).

    :return: None or a description of the difference
    """
    if a['title'] != b['title']:
        return 'title %r != %r' % (a['title'], b['title'])
    if a['vars'] != b['vars']:
        return 'variables %r != %r' % (a['vars'], b['vars'])
    if [z['name'] for z in a['zones']] != [z['name'] for z in b['zones']]:
        return 'zone names %r != %r' % ([z['name'] for z in a['zones']], [z['name'] for z in b['zones']])
    for x, y in zip(a['zones'], b['zones']):
        for what in ('nodes', 'faces', 'data'):
            if len(x[what]) != len(y[what]):
                return 'zone %r: %d != %d %s' % (x['name'], len(x[what]), len(y[what]), what)
        for j, (t, u) in enumerate(zip(x['faces'], y['faces'])):
            p, q = [tuple(x['nodes'][v]) for v in t], [tuple(y['nodes'][v]) for v in u]
            if p != q:
                return 'zone %r face %d: nodes %r != %r' % (x['name'], j, p, q)
            if list(x['data'][j]) != list(y['data'][j]):
                return 'zone %r face %d: data %r != %r' % (x['name'], j, x['data'][j], y['data'][j])
        if sorted(map(tuple, x['nodes'])) != sorted(map(tuple, y['nodes'])):
            return 'zone %r: node sets differ' % x['name']
    return None


# -- *.cry -----------------------------------------------------------------------------------------

CRY_VARS = ['X', 'Y', 'Z', 'GloId', 'T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2',
            'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


def parse_cry(path=None, text=None):
    """Strict independent reader of *.cry files (the solver's view)."""
    if text is None:
        with _open(path) as f:
            text = f.read()
    _need(text.endswith('\n'), 'file does not end with a newline')
    lines = text.split('\n')[:-1]
    pos = [0]

    def take(prefix=None):
        _need(pos[0] < len(lines), 'file ends too early')
        l = lines[pos[0]]
        pos[0] += 1
        if prefix is not None:
            _need(l.startswith(prefix), 'expected %r, got %r' % (prefix, l[:60]))
            return l[len(prefix):]
        return l
    r = {'title': take('TITLE=').strip('"')}
    vs = [v.strip().strip('"') for v in take('VARIABLES=').split(',')]
    _need(vs == CRY_VARS, 'variables %r' % (vs,))
    r['rank'] = int(take('MPI='))
    nc, ec = int(take('NODES=')), int(take('EDGES='))
    r['cross'] = int(take('CROSS-EDGES='))
    fc = int(take('FACES='))
    take('NODES COORDINATES:')
    c = [[float(x) for x in take().split()] for _ in range(3)]
    _need(all(len(x) == nc for x in c), 'wrong count of coordinates')
    r['nodes'] = list(zip(*c)) if nc else []
    take('FACES DATA:')
    r['gloid'] = [int(x) for x in take().split()]
    _need(len(r['gloid']) == fc, 'wrong count of global identifiers')
    d = {}
    for v in vs[4:]:
        d[v] = [float(x) for x in take().split()]
        _need(len(d[v]) == fc, 'wrong count of values of %s' % v)
    r['data'] = [{v: d[v][j] for v in vs[4:]} for j in range(fc)]
    take('FACE-NODE CONNECTIVITY LIST:')
    r['fn'] = [tuple(int(x) for x in take().split()) for _ in range(fc)]
    _need(all(len(t) == 3 and all(0 <= v < nc for v in t) for t in r['fn']), 'wrong face-node list')
    take('FACE-EDGE CONNECTIVITY LIST:')
    r['fe'] = [tuple(int(x) for x in take().split()) for _ in range(fc)]
    _need(all(len(t) == 3 and all(0 <= v < ec for v in t) for t in r['fe']), 'wrong face-edge list')
    take('EDGE-NODE CONNECTIVITY LIST:')
    r['en'] = [tuple(int(x) for x in take().split()) for _ in range(ec)]
    _need(all(len(t) == 2 and all(0 <= v < nc for v in t) for t in r['en']), 'wrong edge-node list')
    nb = int(take('MPI-BORDERS='))
    r['borders'] = []
    for _ in range(nb):
        l = take('[')
        k, rest = l.split(']', 1)
        es = [int(x) for x in rest.split()]
        _need(all(0 <= e < ec for e in es), 'wrong border edge')
        r['borders'].append((int(k), es))
    _need(pos[0] == len(lines), 'trailing lines')
    return r


def snapshot(root):
    """All files under a directory: {relative path: bytes}."""
    r = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in fs:
            p = os.path.join(d, f)
            with _open(p, 'rb') as h:
                r[os.path.relpath(p, root)] = h.read()
    return r


def restore(root, snap):
    """Make the directory contain exactly the given files (directories are kept)."""
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, root) not in snap:
                os.remove(p)
    for rel, data in snap.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _open(p, 'wb') as f:
            f.write(data)
