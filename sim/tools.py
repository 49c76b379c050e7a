"""
Workloads: one job = one run of a command-line tool of the repository on generated files.

A job description is plain JSON (gen_job); make() writes its input files under a directory and returns a Job
with the command line, what the tool may touch, and an independent oracle of its outputs.
"""

import json
import math
import os
import random
import re

from . import crycheck, fsim, grids, model

KINDS = ['split_c', 'split_o', 'merge', 'remesh_g', 'remesh_d', 'drops', 'interpolate', 'lazurit', 'beta', 'ansys']
SCRIPT = {'split_c': 'split.py', 'split_o': 'split.py', 'merge': 'merge.py', 'remesh_g': 'remesh.py',
          'remesh_d': 'remesh.py', 'drops': 'drops.py', 'interpolate': 'convert/interpolate.py',
          'lazurit': 'convert/lazurit_to_crystal.py', 'beta': 'convert/lazurit_add_beta_from_ansys.py',
          'ansys': 'convert/ansys_to_crystal.py'}


class Job:
    def __init__(self, kind, root):
        self.kind = kind
        self.root = root
        self.rel = SCRIPT[kind]
        self.args = []
        self.cwd = root
        self.inputs = set()         # files the tool reads (relative to the simulated disk)
        self.outdirs = set()        # directories new files may appear in
        self.outputs = set()        # output files it must produce
        self.own_input = set()      # inputs it is documented to rewrite (none so far)
        self.oracle = None          # function() -> None or description of what is wrong

    def path(self, rel):
        return os.path.join(self.root, rel)


def put(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with fsim.real_open(p, 'wb' if isinstance(data, bytes) else 'w') as f:
        f.write(data)


def get(root, rel):
    with fsim.real_open(os.path.join(root, rel)) as f:
        return f.read()


# -- generation ------------------------------------------------------------------------------------

BASE = ['T', 'Hw', 'Hi']
STEMS = ['wing', 'wing_1', 'b-2', 'bunny_pos', 'r_wing', 'x.y', 'grid_00001']


def gen_job(rng, kind=None, small=True, huge=0.0):
    k = kind or rng.choice(KINDS)
    lo, hi = (3, 14) if small else (6, 40)
    j = {'kind': k, 'stem': rng.choice(STEMS), 'ts': rng.choice(['', '', '000000000100', '000010000000', '123456789012']),
         'place': rng.randrange(3), 'style': rng.randrange(3), 'seed': rng.randrange(1 << 30)}
    if k in ('split_c', 'split_o'):
        j['grid'] = grids.spec(rng, lo, hi, big=0.03, huge=huge)
        if rng.random() < 0.5:
            j['grid']['zones'] = rng.choice([2, 3, 4])
        j['strategy'] = rng.choice(['n1', 'n2', 'n3', 'n4', 'n5', 'h0', 'h1', 'h2', 'h3'])
        if rng.random() < 0.12:
            # Numbers of subdomains with two digits.
            j['grid'] = grids.spec(rng, 20, 45)
            j['strategy'] = rng.choice(['n10', 'n11', 'n12', 'n13', 'h4'])
        j['json'] = rng.random() < 0.5
        j['fixed'] = rng.choice([0, 0, 1, 2]) if j['json'] else 0
        j['from_json'] = rng.random() < 0.5
        j['twice'] = rng.choice([0, 0, 1, 2])
        j['rf'] = rng.choice([None, None, 0.9375, 1.5, 0.0, 0, 2])
    elif k == 'merge':
        j['grid'] = grids.spec(rng, lo, hi, big=0.03, huge=huge, vars=rng.choice([grids.BASE_VARS, ['T', 'Hw', 'Hi', 'HTC']]))
        j['ranks'] = rng.randint(1, 4) if rng.random() < 0.85 else rng.randint(10, 13)
        j['times'] = rng.randint(1, 3)
        j['late'] = rng.random() < 0.3
        j['csv'] = rng.choice([0, 1, 1, 2])
        j['rows'] = rng.choice([1, 2, 4])
        j['foreign'] = rng.random() < 0.6
        j['rough'] = rng.random() < 0.6
        j['nest'] = rng.random() < 0.25
        j['absent'] = [[rng.randrange(3), rng.randrange(4)] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        j['tvars'] = rng.choice([BASE, BASE, ['Hi', 'T', 'Hw'], BASE + ['HTC']])
        j['twins'] = rng.random() < 0.25
    elif k in ('remesh_g', 'remesh_d'):
        n = 1 if k == 'remesh_g' else rng.randint(1, 3)
        j['grids'] = [grids.spec(rng, lo, min(hi, 16), kinds=['sheet', 'plane', 'tube', 'octa', 'fan'], comps=False,
                                 vars=rng.choice([grids.BASE_VARS, grids.FULL_VARS])) for _ in range(n)]
        j['steps'] = rng.choice([1, 2])
        j['json'] = rng.random() < 0.7
        j['verbose'] = rng.choice([0, 0, 1, 2])
        j['ice'] = rng.choice([0, 1, 1])
        j['ropt'] = {k: rng.choice(v) for k, v in REMESH_OPTS.items() if rng.random() < 0.3}
        j['thick'] = rng.choice([0.5, 0.5, 10.0, 40.0])
    elif k == 'drops':
        j['grid'] = grids.spec(rng, lo, min(hi, 16), kinds=['sheet', 'plane', 'fan', 'tube'], comps=False,
                               vars=['T', 'Hw', 'Hi', 'MImp2', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ'])
        j['wet'] = rng.choice([0, 1, 3, 6])
        j['steps'] = rng.choice([2, 5, 12])
        j['air'] = rng.choice([3, 8, 20])
        j['dt'] = rng.choice([0.05, 0.05, 0.01, 0.001])
        j['diam'] = rng.choice([1e-4, 1e-4, 2e-3])
        j['thr'] = rng.choice([1e-6, 1e-6, 0.003])
        j['plain'] = rng.random() < 0.15
    elif k in ('interpolate', 'beta'):
        vs = rng.choice([grids.BASE_VARS, grids.FULL_VARS]) if k == 'interpolate' else grids.FULL_VARS
        j['grid'] = grids.spec(rng, lo, hi, big=0.03, huge=huge, vars=vs)
        j['grid2'] = grids.spec(rng, lo, hi, vars=vs)
        j['implicit'] = rng.random() < 0.3
    elif k == 'lazurit':
        j['blocks'] = [[rng.randint(2, 4), rng.randint(2, 4)] for _ in range(rng.randint(1, 3))]
    elif k == 'ansys':
        j['zones'] = [[rng.randint(2, 4), rng.randint(2, 4), rng.random() < 0.7] for _ in range(rng.randint(1, 3))]
        if not any(z[2] for z in j['zones']):
            j['zones'][0][2] = True
        j['degenerate'] = rng.random() < 0.4
        j['normals'] = rng.choice(['', 'origin', 'reversed'])
        j['odd'] = rng.choice([0, 0, rng.randint(1, 40)])
        j['flow'] = rng.choice([[260.0, 80.0, 1004.0], [251.5, 67.25, 1010.5]])
    return j


REMESH_OPTS = {'nsteps_min': [0, 1, 3], 'nsteps_hi_side_fact': [0.1, 0.002, 0.5], 'nsteps_ignore_part': [0.05, 0.2, 0.5],
               'nsmooth_steps': [1, 2], 'nsmooth_s': [10.0, 3.0], 'nsmooth_k': [0.15, 0.5], 'hsmooth_steps': [1, 2],
               'hsmooth_alfa': [0.2, 0.05], 'hsmooth_beta': [0.1, 0.3], 'rest_volume_redistr': [False, True],
               'nss_fix_nodes': [True, False], 'nsteps_max': [3, 5, 7]}


# -- building --------------------------------------------------------------------------------------


def make(j, root, ns='', ind='in', outd='out'):
    """Write the input files of a job.

    ns : prefix of the names of its files;  ind, outd : directories of inputs and outputs.
    """
    job = Job(j['kind'], root)
    job.spec = j
    os.makedirs(os.path.join(root, ind), exist_ok=True)
    place = j['place']
    od = outd
    if place == 1:
        os.makedirs(os.path.join(root, outd), exist_ok=True)
    elif place == 0:
        od = outd + '/new'
    elif place == 2 and j['kind'] not in ('remesh_d', 'lazurit'):
        od = ind
    # Tools that do not create their output directory need it.
    if j['kind'] in ('split_o', 'drops', 'interpolate', 'beta', 'lazurit'):
        os.makedirs(os.path.join(root, od), exist_ok=True)
    job.cwd = {0: root, 1: root, 2: os.path.join(root, ind)}[j['style']]
    if j['style'] == 0:
        job.p = lambda rel: os.path.join(root, rel)
    elif j['style'] == 1:
        job.p = lambda rel: rel
    else:
        job.p = lambda rel: os.path.relpath(os.path.join(root, rel), os.path.join(root, ind))
    job.outdirs.add(od)
    job.od = od
    job.nm = ns + j['stem']
    _MAKE[j['kind']](job, j, root, ns + j['stem'], ind, od)
    return job


def _write_grid(job, root, rel, g):
    put(root, rel, grids.dat_text(g))
    job.inputs.add(rel)


def _split(job, j, root, nm, ind, od):
    g = grids.build(j['grid'])
    base = nm + ('_' + j['ts'] if j['ts'] else '')
    gf = '%s/%s.dat' % (ind, base)
    _write_grid(job, root, gf, g)
    names = [z['name'] for z in g['zones']]
    strategy = j['strategy']
    # (any zones, in any order)
    fixed = random.Random(j['seed']).sample(names, min(j['fixed'], len(names)))
    n = int(strategy[1:])
    if strategy[0] == 'n':
        while fixed and sum(x in fixed for x in names) >= n:
            fixed.pop()
    if fixed and j.get('twice'):
        # (the same zone has several heating elements)
        fixed.insert(j['twice'] % len(fixed), fixed[-1])
    free = sum(len(z['faces']) for z in g['zones'] if z['name'] not in fixed)
    if strategy[0] == 'h' and free == 0:
        fixed = [x for x in fixed if x != fixed[0]]
    rf = 1.0 if j['rf'] is None else j['rf']
    args = [job.p(gf)]
    if j['kind'] == 'split_c':
        args += ['-c', job.p(od)]
    else:
        out = '%s/%s_split.dat' % (od, base)
        args += ['-o', job.p(out)]
        job.outputs.add(out)
    if j['json']:
        jf = '%s/%s_cfg.json' % (ind, base)
        d = {'heating_system': {'elements': [{'zone': z, 'power': 1} for z in fixed]}}
        if j['rf'] is not None:
            d['recovery_factor'] = rf
        if j['from_json']:
            d['split_strategy'] = strategy
        put(root, jf, json.dumps(d))
        job.inputs.add(jf)
        args += ['-j', job.p(jf)]
    else:
        fixed, rf = [], 1.0
    if not (j['json'] and j['from_json']):
        args += ['-s', strategy]
    job.args = args
    ts = j['ts'] or '000000000000'
    job.model = {'g': g, 'fixed': fixed, 'rf': rf, 'strategy': strategy, 'nm': nm, 'ts': ts, 'dir': od, 'out': None}
    if j['kind'] == 'split_c':
        job.outputs.add(od + '/report.txt')

        def oracle():
            return crycheck.check_set(g, os.path.join(root, od), nm, ts, strategy, fixed, rf)
        job.oracle = oracle
    else:
        def oracle():
            return crycheck.check_dat(g, os.path.join(root, out), strategy, fixed, rf)
        job.oracle = oracle


CSV_HEAD = 'time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es'


def csv_rows(rank, rows, salt, rough=False):
    """Rows of one rank's *.csv; rough - values whose sum depends on the order of summation."""
    if rough:
        return [[0.5 * (r + 1)] + [10.0 ** ((salt + 5 * rank + c) % 9 - 4) / (3 + r + rank) for c in range(9)]
                for r in range(rows)]
    return [[0.5 * (r + 1)] + [((salt + 7 * r + 3 * c + 11 * rank) % 64) * 0.25 + rank for c in range(9)]
            for r in range(rows)]


def csv_text(table):
    return CSV_HEAD + '\n' + ''.join(';'.join('%.18e' % x for x in row) + '\n' for row in table)


def txt_text(rows, names=BASE):
    return 'VARIABLES="GloId", ' + ', '.join('"%s"' % v for v in names) + '\n' + \
        ''.join('%d %s\n' % (i, ' '.join('%.18e' % x for x in v)) for i, v in rows)


def calc_value(face, t):
    return [260.0 + face * 0.37 + 11.5 * t + 1e-3 / (face + 1), 1e-4 * (face + 1) * (t + 1), 1e-5 * ((face * 31) % 97 + t)]


def _merge(job, j, root, nm, ind, od):
    rng = random.Random(j['seed'])
    g = grids.build(j['grid'])
    n = sum(len(z['faces']) for z in g['zones'])
    base = nm + ('_' + j['ts'] if j['ts'] else '')
    gf = '%s/%s.dat' % (ind, base)
    _write_grid(job, root, gf, g)
    src = '%s/%s' % (ind, j.get('src') or nm + '-txt')
    os.makedirs(os.path.join(root, src), exist_ok=True)
    dst = od if od != ind else src
    job.outdirs = {dst}
    if job.spec['place'] == 2:
        dst = ind + '/' + nm + '-txt-r' if rng.random() < 0.5 else src
        job.outdirs = {dst}
    if j['nest']:
        dst = src + '/r'
        job.outdirs = {dst}
    owner = [rng.randrange(j['ranks']) for _ in range(n)]
    far = 123456789000 if j.get('late') else 10 ** 7
    times = ['%012d' % (1000 * (t + 1) + (far if rng.random() < 0.5 else 0)) for t in range(j['times'])]
    expect = {}
    tvars = j.get('tvars', BASE)
    orig = [d for _, d, _ in grids.faces(g)]
    for t, ts in enumerate(times):
        # Results of some ranks are not there (yet): their faces keep the values of the grid.
        away = [r for k, r in j.get('absent', ()) if k == t]
        want = dict(enumerate(orig))
        for r in range(j['ranks']):
            if r in away:
                continue
            rows = []
            for i in range(n):
                if owner[i] == r:
                    d = dict(zip(BASE + ['HTC'], calc_value(i, t) + [i * 0.25]))
                    want[i] = {v: d[v] for v in tvars}
                    rows.append((i, [d[v] for v in tvars]))
            rng.shuffle(rows)
            f = '%s/%s_%05d_%s.txt' % (src, nm, r, ts)
            put(root, f, txt_text(rows, tvars))
            job.inputs.add(f)
        if len(set(away) & set(range(j['ranks']))) == j['ranks']:
            continue
        out = '%s/%s_r_%s.dat' % (dst, nm, ts)
        job.outputs.add(out)
        expect[out] = want
    tables = []
    if j['csv']:
        for r in range(j['ranks'] if j['csv'] == 1 else j['ranks'] + 1):
            tb = csv_rows(0 if j.get('twins') else r, j['rows'], j['seed'] % 50, j['rough'])
            f = '%s/%s_%05d.csv' % (src, nm, r)
            put(root, f, csv_text(tb))
            job.inputs.add(f)
            tables.append(tb)
        total = os.path.normpath('%s/../%s.csv' % (dst, nm))
        job.outputs.add(total)
        job.total = total
        job.outdirs.add(os.path.dirname(total) or '.')
    if j['foreign']:
        for f, d in (('%s/%s2_00000_%s.txt' % (src, nm, times[0]), txt_text([(0, [1., 2., 3.])])),
                     ('%s/%s_%s.txt' % (src, nm, 'notes'), 'not a result file\n'),
                     ('%s/%s_0000a_%s.txt' % (src, nm, times[0]), 'VARIABLES="GloId", "T"\n0 99.0\n')):
            put(root, f, d)
            job.inputs.add(f)
    job.args = [job.p(gf), job.p(src), job.p(dst)]
    job.outputs.add(dst + '/report.txt')
    job.model = {'g': g, 'expect': expect, 'src': src, 'dst': dst}

    def oracle():
        for out, vals in expect.items():
            try:
                h = grids.parse_dat(os.path.join(root, out))
            except (OSError, grids.FormatError, ValueError, IndexError) as e:
                return '%s: %s' % (out, e)
            d = check_merged(g, vals, h)
            if d:
                return '%s: %s' % (os.path.basename(out), d)
        if j['csv']:
            return check_csv(os.path.join(root, total), tables)
        return None
    job.oracle = oracle


def check_merged(g, want, h):
    """h : merged grid; want : {face: {variable: value}}."""
    if h['vars'] != list(want[0]):
        return 'variables %r instead of %r' % (h['vars'], list(want[0]))
    # A variable which the first face does not have is not stored, one which a face does not have is 0.
    w = merged_grid(g, {i: [d.get(v, 0.0) for v in h['vars']] for i, d in want.items()})
    w['vars'] = h['vars']
    return grids.same_grid(w, h)


def merged_grid(g, vals):
    w = {'title': g['title'], 'vars': ['T', 'Hw', 'Hi'], 'zones': []}
    n = 0
    for z in g['zones']:
        q = dict(z, data=[])
        for _ in z['faces']:
            q['data'].append(list(vals[n]))
            n += 1
        w['zones'].append(q)
    return w


def check_csv(path, tables):
    try:
        with fsim.real_open(path) as f:
            lines = f.read().split('\n')
    except OSError as e:
        return 'no total csv: %s' % e
    if lines[0] != CSV_HEAD:
        return 'csv header %r' % lines[0]
    if lines[-1] != '':
        return 'csv does not end with a newline'
    rows = lines[1:-1]
    if len(rows) != len(tables[0]):
        return 'csv: %d rows instead of %d' % (len(rows), len(tables[0]))
    for r, l in enumerate(rows):
        v = [float(x) for x in l.split(';')]
        w = [tables[0][r][0]] + [sum(t[r][c] for t in tables) for c in range(1, 10)]
        if len(v) != len(w) or any(abs(x - y) > 1e-13 * abs(y) for x, y in zip(v, w)):
            return 'csv row %d: %r instead of %r' % (r, v, w)
    return None


def _remesh(job, j, root, nm, ind, od):
    src = ind
    if j['kind'] == 'remesh_d':
        src = '%s/%s-r' % (ind, nm)
    outs, moved, refused = [], [], False
    for i, sp in enumerate(j['grids']):
        g = grids.build(sp)
        for z in g['zones']:
            for d in z['data']:
                for k, v in enumerate(g['vars']):
                    if v == 'Hi':
                        d[k] = d[k] * j.get('thick', 0.5) if j['ice'] else 0.0
        f = '%s/%s_r_%012d.dat' % (src, nm, i + 1)
        _write_grid(job, root, f, g)
        out = '%s/%s' % (od, os.path.basename(f).replace('_r_', '_'))
        job.outputs.add(out)
        opt = {}
        if j['json']:
            opt['nsteps_max'] = j['steps']
            opt.update(j.get('ropt', {}))
        outs.append((out, g))
        try:
            moved.append(model.accreted(g, opt))
        except model.Refused:
            refused = True
            moved.append(None)
    if refused:
        # These parameters are not for this ice.
        opt = {'nsteps_max': j['steps']}
        moved = [model.accreted(g, opt if j['json'] else {}) for _, g in outs]
    if j['kind'] == 'remesh_g':
        args = ['-g', job.p(f)]
    else:
        put(root, src + '/readme.txt', 'not a grid\n')
        job.inputs.add(src + '/readme.txt')
        args = ['-d', job.p(src)]
    if j['json']:
        jf = '%s/%s_remesh.json' % (ind, nm)
        put(root, jf, json.dumps({('remesh_' + k): v for k, v in opt.items()}))
        job.inputs.add(jf)
        args += ['-j', job.p(jf)]
    args += ['-o', job.p(od)] + ['-v'] * j['verbose']
    job.args = args
    if j['verbose'] > 1:
        job.outputs.add(od + '/report.txt')

    def oracle():
        for (out, g), want in zip(outs, moved):
            try:
                h = grids.parse_dat(os.path.join(root, out))
            except (OSError, grids.FormatError, ValueError, IndexError) as e:
                return '%s: %s' % (out, e)
            if h['title'] != g['title'] or h['vars'] != g['vars']:
                return '%s: header differs' % out
            if [z['name'] for z in h['zones']] != [z['name'] for z in g['zones']]:
                return '%s: zones differ' % out
            hi = g['vars'].index('Hi')
            for zi, (a, b) in enumerate(zip(g['zones'], h['zones'])):
                if len(a['faces']) != len(b['faces']) or len(a['nodes']) != len(b['nodes']):
                    return '%s: counts of zone %s differ' % (out, a['name'])
                m = {}
                for t, u, p, q in zip(a['faces'], b['faces'], a['data'], b['data']):
                    for x, y in zip(t, u):
                        if m.setdefault(x, y) != y:
                            return '%s: connectivity differs' % out
                    w = list(p)
                    w[hi] = 0.0
                    if w != list(q):
                        return '%s: face data %r instead of %r' % (out, q, w)
                if not all(math.isfinite(x) for n in b['nodes'] for x in n):
                    return '%s: node is not finite' % out
                if not j['ice']:
                    for x, y in m.items():
                        if max(abs(c - d) for c, d in zip(a['nodes'][x], b['nodes'][y])) > 1e-12:
                            return '%s: node moved without ice' % out
                if want:
                    for x, y in m.items():
                        if not math.dist(want[0][zi][x], b['nodes'][y]) <= want[1]:
                            return '%s: zone %s: node %r is at %r instead of %r' \
                                % (out, a['name'], a['nodes'][x], b['nodes'][y], want[0][zi][x])
        return None
    job.oracle = oracle


def _drops(job, j, root, nm, ind, od):
    rng = random.Random(j['seed'])
    g = grids.build(j['grid'])
    vs = g['vars']
    faces = [d for z in g['zones'] for d in z['data']]
    thr = 1e-6 if j.get('plain') else j.get('thr', 1e-6)
    wet = set(rng.sample(range(len(faces)), min(j['wet'], len(faces))))
    for i, d in enumerate(faces):
        d[vs.index('Stall')] = 0.001 * (i + 1) if i in wet else rng.choice([0.0, 1e-9])
        d[vs.index('StallD')] = j.get('diam', 1e-4)
        d[vs.index('StallVX')], d[vs.index('StallVY')], d[vs.index('StallVZ')] = 1.0 + i * 0.1, 0.37, rng.choice([-1, 1]) * 2.25
        d[vs.index('MImp2')] = 0.0
    wet = {i for i in wet if faces[i][vs.index('Stall')] > thr}
    gf = '%s/%s_stall.dat' % (ind, nm)
    _write_grid(job, root, gf, g)
    af = '%s/%s_air.dat' % (ind, nm)
    pts = [tuple(rng.uniform(-30, 60) for _ in range(3)) for _ in range(j['air'])]
    pts += [(-50., -50., -50.), (80., 80., 80.)]
    lines = ['TITLE="air"', 'VARIABLES="X", "Y", "Z", "p", "rho", "Vx", "Vy", "Vz"']
    lines.append('ZONE T="wall" F=FEPOINT ET=TRIANGLE N= 3 E= 1')
    # ss = l.split()[1:]; other zones: ss[4] nodes, ss[7] elements.
    lines[-1] = 'ZONE T="wall" a b c 3 d e 1'
    lines += ['0 0 0', '1 0 0', '0 1 0', '1 2 3']
    lines.append('ZONE T="FEBRICK" a b c d %d e f %d' % (len(pts), 2))
    lines += [' '.join('%.10e' % x for x in p + (1.0, 1.2, 10.0 + 0.5 * i, 0.1 * i, -0.2)) for i, p in enumerate(pts)]
    lines += ['1 2 3 4 5 6 7 8'] * 2
    put(root, af, '\n'.join(lines) + '\n')
    job.inputs.add(af)
    out = '%s/%s_drops.dat' % (od, nm)
    job.outputs.update([out, out + '.tr.dat'])
    job.args = [job.p(gf), job.p(af), job.p(out)]
    far, dt, most = 1e-4, 1e-5, 200
    if not j.get('plain'):
        far, dt, most = 0.01, j.get('dt', 0.05), j['steps']
        job.args += ['-d', '0.01', '-t', '%g' % dt, '-s', '%g' % thr, '-m', most]
    air = [(tuple(float('%.10e' % x) for x in p), tuple(float('%.10e' % x) for x in (10.0 + 0.5 * i, 0.1 * i, -0.2)))
           for i, p in enumerate(pts)]

    def oracle():
        try:
            h = grids.parse_dat(os.path.join(root, out))
        except (OSError, grids.FormatError, ValueError, IndexError) as e:
            return '%s: %s' % (out, e)
        if h['vars'] != ['T', 'Hw', 'Hi', 'MImp2']:
            return 'variables %r' % h['vars']
        for z in h['zones']:
            if any(d[:3] != [0.0, 0.0, 0.0] for d in z['data']):
                return 'T, Hw, Hi are not cleaned'
        a, b = grids.faces(g), grids.faces(h)
        if [x[0] for x in a] != [x[0] for x in b]:
            return 'faces differ'
        t = get(root, out + '.tr.dat')
        got = re.findall(r'ZONE T="Trajectory-(\d+)"', t)
        if got != [str(i) for i in sorted(wet)]:
            return 'trajectories of faces %r instead of %r' % (got, sorted(wet))
        return check_tr(t) or check_hits(g, h, t) or check_flight(g, t, far, dt, most, air)
    job.oracle = oracle


def check_tr(t):
    """The file of trajectories is complete."""
    lines = t.split('\n')
    if lines[-1] != '':
        return 'trajectories: no newline at the end'
    i = 3
    while i < len(lines) - 1:
        if not lines[i].startswith('ZONE T='):
            return 'trajectories: line %d is %r' % (i, lines[i][:40])
        n, e = int(lines[i + 1][6:]), int(lines[i + 2][9:])
        if any(len(lines[i + 6 + c].split()) != n for c in range(3)):
            return 'trajectories: wrong count of coordinates'
        for k in range(e):
            if lines[i + 9 + k].split() != [str(k + 1), str(k + 2), str(k + 2)]:
                return 'trajectories: wrong links'
        i += 9 + e
    return None


def crossing(p, q, tri):
    """Does the segment p-q cross the triangle: 2 - surely, 1 - perhaps, 0 - no."""
    sub = lambda u, v: [x - y for x, y in zip(u, v)]        # noqa
    cross = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]      # noqa
    dot = lambda u, v: sum(x * y for x, y in zip(u, v))     # noqa
    d, e1, e2 = sub(q, p), sub(tri[1], tri[0]), sub(tri[2], tri[0])
    h = cross(d, e2)
    det = dot(e1, h)
    size = math.sqrt(dot(d, d) * dot(e1, e1) * dot(e2, e2))
    if size == 0.0 or abs(det) < 1e-4 * size or abs(det) < 1e-8:
        return 1
    s = sub(p, tri[0])
    r = cross(s, e1)
    u, v, t = dot(s, h) / det, dot(d, r) / det, dot(e2, r) / det
    m = min(u, v, 1.0 - u - v, t, 1.0 - t)
    return 2 if m > 1e-3 else 1 if m > -1e-3 else 0


def check_hits(g, h, text):
    """Secondary impingement is where the trajectories end (a trajectory ends where it meets a face)."""
    lines = text.split('\n')
    fs, got = grids.faces(g), grids.faces(h)
    area = []
    for f in fs:
        a, b, c = f[0]
        u, v = [x - y for x, y in zip(b, a)], [x - y for x, y in zip(c, b)]
        w = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        area.append(0.5 * math.sqrt(sum(x * x for x in w)))
    can = {}
    i = 3
    order = []
    while i < len(lines) - 1:
        w = int(re.match(r'ZONE T="Trajectory-(\d+)"', lines[i]).group(1))
        pts = list(zip(*[[float(x) for x in lines[i + 6 + c].split()] for c in range(3)]))
        i += 9 + len(pts) - 1
        order.append(w)
        can[w] = {}
        for k in range(len(pts) - 1):
            for f in range(len(fs)):
                c = crossing(pts[k], pts[k + 1], fs[f][0])
                if c == 2 and k < len(pts) - 2:
                    return 'trajectory %d goes through face %d' % (w, f)
                if c and k == len(pts) - 2:
                    can[w][f] = c
    stall = {w: fs[w][1]['Stall'] for w in order}
    near = lambda x, y: abs(x - y) <= 1e-9 * abs(y)     # noqa
    for f in range(len(fs)):
        v = got[f][1]['MImp2']
        if v != 0.0 and not any(f in can[w] and near(v, stall[w] / area[f]) for w in order):
            return 'MImp2 = %r of face %d is not from a trajectory that ends there' % (v, f)
    for n, w in enumerate(order):
        if 2 in can[w].values() and not any(near(got[f][1]['MImp2'], stall[x] / area[f])
                                            for f in can[w] for x in order[n:] if f in can[x]):
            return 'trajectory %d ends at a face (%r) without secondary impingement' % (w, sorted(can[w]))
    return None


def check_flight(g, text, far, dt, most, air):
    """Trajectories are those of the reference model, up to the surface."""
    lines = text.split('\n')
    fs = grids.faces(g)
    i = 3
    while i < len(lines) - 1:
        w = int(re.match(r'ZONE T="Trajectory-(\d+)"', lines[i]).group(1))
        pts = list(zip(*[[float(x) for x in lines[i + 6 + c].split()] for c in range(3)]))
        i += 9 + len(pts) - 1
        (a, b, c), d = fs[w][0], fs[w][1]
        n = model.cross(model.sub(b, a), model.sub(c, b))
        if model.norm(n) == 0.0:
            continue
        p = model.add(model.mul(model.add(model.add(a, b), c), 1.0 / 3.0), model.mul(model.unit(n), far))
        path, why = model.drop(p, (d['StallVX'], d['StallVY'], d['StallVZ']), d['StallD'], dt, air, most)
        for k, (x, (y, tol)) in enumerate(zip(pts, path)):
            if not math.dist(x, y) <= tol:
                return 'trajectory %d: point %d is %r instead of %r' % (w, k, x, y)
        if len(pts) > len(path) and why != 'unclear':
            return 'trajectory %d has %d points instead of %d (%s)' % (w, len(pts), len(path), why)
        if len(pts) < len(path) and not any(crossing(pts[-2], pts[-1], f[0]) if len(pts) > 1 else 0 for f in fs):
            return 'trajectory %d ends at point %d without reason' % (w, len(pts))
    return None


def _center(f):
    return [sum(p[c] for p in f[0]) / 3.0 for c in range(3)]


def _nearest(src, dst):
    """For each face of dst: candidates of src at (almost) the least distance."""
    cs = [_center(f) for f in src]
    r = []
    for f in dst:
        c = _center(f)
        d = [math.dist(c, x) for x in cs]
        m = min(d)
        r.append([i for i, x in enumerate(d) if x <= m + 1e-9 * (1 + m)])
    return r


def _two(job, j, root, nm, ind, od):
    a, b = grids.build(j['grid']), grids.build(j['grid2'])
    fa, fb = '%s/%s_from.dat' % (ind, nm), '%s/%s_to.dat' % (ind, nm)
    # Same geometry range for both; shift one to avoid exact ties.
    for z in b['zones']:
        z['nodes'] = [(x + 0.0137, y - 0.0071, w + 0.0039) for x, y, w in z['nodes']]
        z['data'] = [[x + 1000.0 for x in d] for d in z['data']]
    _write_grid(job, root, fa, a)
    _write_grid(job, root, fb, b)
    if j['kind'] == 'interpolate':
        if j['implicit']:
            out = '%s/%s_to_interpolated.dat' % (ind, nm)
            job.outdirs = {ind}
            job.args = [job.p(fa), job.p(fb)]
        else:
            out = '%s/%s_res.dat' % (od, nm)
            job.args = [job.p(fa), job.p(fb), '-res', job.p(out)]
        copied = ['T', 'Hw']
    else:
        out = '%s/%s_res.dat' % (od, nm)
        job.args = [job.p(fb), job.p(fa), job.p(out)]
        copied = ['Beta']
    job.outputs.add(out)

    def oracle():
        try:
            h = grids.parse_dat(os.path.join(root, out))
        except (OSError, grids.FormatError, ValueError, IndexError) as e:
            return '%s: %s' % (out, e)
        if h['title'] != b['title'] or h['vars'] != b['vars']:
            return '%s: header differs' % out
        src, want, got = grids.faces(a), grids.faces(b), grids.faces(h)
        if [x[0] for x in want] != [x[0] for x in got] or [x[2] for x in want] != [x[2] for x in got]:
            return '%s: faces differ' % out
        for i, cand in enumerate(_nearest(src, want)):
            for v in b['vars']:
                if v in copied:
                    if got[i][1][v] not in [src[c][1][v] for c in cand]:
                        return '%s: face %d: %s = %r' % (out, i, v, got[i][1][v])
                elif got[i][1][v] != want[i][1][v]:
                    return '%s: face %d: %s = %r instead of %r' % (out, i, v, got[i][1][v], want[i][1][v])
        return None
    job.oracle = oracle


def _lazurit(job, j, root, nm, ind, od):
    src = '%s/%s-tec' % (ind, nm)
    want = {'title': 'FE Surface Data ASCII', 'vars': ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ'],
            'zones': []}
    for b, (ni, nj) in enumerate(j['blocks']):
        pts = [(i + 10.0 * b, 1.5 * q, 0.25 * i * q) for q in range(nj) for i in range(ni)]
        hec = (ni - 1) * (nj - 1)
        vals = [[(k + 1) * 2.5 + e * 0.125 + b for e in range(hec)] for k in range(8)]
        gl = ['TITLE = "x"', 'VARIABLES = "X"', 'ZONE T="a"', ' I= %d J= %d K= %d' % (ni, nj, 1), ' DATAPACKING=BLOCK',
              ' DT=(SINGLE SINGLE SINGLE )']
        for c in range(3):
            row = ['%.6e' % p[c] for p in pts]
            for s in range(0, len(row), 4):
                gl.append(' ' + ' '.join(row[s:s + 4]))
        sl = ['TITLE = "s"', 'VARIABLES = "T"', 'ZONE T="a"', ' I=%d' % ni, ' DATAPACKING=BLOCK', ' VARLOCATION=()']
        for v in vals:
            row = ['%.6e' % x for x in v]
            for s in range(0, len(row), 5):
                sl.append(' ' + ' '.join(row[s:s + 5]))
        for pre, l in (('TEC_WALL_Grid_', gl), ('TEC_WALL_Solution_', sl)):
            f = '%s/%sT-1_B-%d.TEC' % (src, pre, b + 1)
            put(root, f, '\n'.join(l) + '\n')
            job.inputs.add(f)
        faces, data = [], []
        for i in range(ni - 1):
            for q in range(nj - 1):
                n00, n01, n10, n11 = i + q * ni, i + (q + 1) * ni, i + 1 + q * ni, i + 1 + (q + 1) * ni
                faces += [(n00, n01, n11), (n00, n11, n10)]
        for e in range(hec):
            d = [float('%.6e' % vals[k][e]) * (-1.0 if k >= 5 else 1.0) for k in range(8)]
            data += [d, d]
        want['zones'].append({'name': 'B-%d' % (b + 1), 'faces': faces, 'data': data,
                              'nodes': [tuple(float('%.6e' % x) for x in p) for p in pts]})
    out = '%s/%s_tec.dat' % (od, nm)
    job.outputs.add(out)
    job.args = [job.p(src), job.p(out)]

    def oracle():
        try:
            h = grids.parse_dat(os.path.join(root, out))
        except (OSError, grids.FormatError, ValueError, IndexError) as e:
            return '%s: %s' % (out, e)
        d = grids.same_grid(want, h)
        return d and '%s: %s' % (out, d)
    job.oracle = oracle


ANSYS_NAMES = ['TITLE 1', 'zone-0', 'my VARIABLES', 'A=B', 'ZONE', 'zone-', 'part=2', 'SLAT T=3', 'крыло', 'zone 0']


def _ansys(job, j, root, nm, ind, od):
    rng = random.Random(j['seed'])
    base = nm
    heads = {'fensap': ['Pressure', 'Static temperature (K)', 'SF1-shear', 'SF2-shear', 'SF3-shear',
                        'Classical heat flux (W/m^2)', 'Other'],
             'drop3d': ['LWC', 'Collection efficiency-Droplet', 'Vd'],
             'adiabatic': ['Static temperature (K)', 'Pressure']}
    t0, v0, cp = j.get('flow', (260.0, 80.0, 1004.0))
    text = {k: ['TITLE = "%s"' % k, 'VARIABLES=' + ','.join('"%s"' % v for v in ['X', 'Y', 'Z'] + h)]
            for k, h in heads.items()}
    zones, want = [], []
    rev = j['normals'] != 'origin'
    for zi, (ni, nj, take) in enumerate(j['zones']):
        name = 'zone-%d' % zi
        if j.get('odd'):
            # Names with words of the format.
            name = ANSYS_NAMES[(j['odd'] + 3 * zi) % len(ANSYS_NAMES)]
        pts = [(i + 7.0 * zi, q * 1.25, 0.125 * i * q) for q in range(nj) for i in range(ni)]
        quads = []
        for q in range(nj - 1):
            for i in range(ni - 1):
                a = [i + q * ni, i + 1 + q * ni, i + 1 + (q + 1) * ni, i + (q + 1) * ni]
                if j['degenerate'] and rng.random() < 0.4:
                    # Any two vertices of a quadrangle may be the same one.
                    x, y = rng.choice([(0, 1), (1, 2), (2, 3), (0, 3), (0, 2), (1, 3)])
                    a[y] = a[x]
                quads.append(a)
        rows = []
        for n in range(len(pts)):
            rows.append({'T': 275.0 + n * 0.5, 'SF': [0.5 + n, 1.5 + n * 0.25, -0.75 * n], 'q': -(500.0 + 3 * n),
                         'beta': 0.03125 * (n % 20), 'ad': 258.0 + 0.25 * (n % 9)})
        for k in heads:
            text[k].append('ZONE T="%s", ZONETYPE=FEQUAD, F=FEPOINT, N= %d, E= %d' % (name, len(pts), len(quads)))
        for p, r in zip(pts, rows):
            c = ' '.join('%.6f' % x for x in p)
            text['fensap'].append(c + ' 101325.0 %r %r %r %r %r 5.5' % (r['T'], *r['SF'], r['q']))
            text['drop3d'].append(c + ' 0.001 %r 3.25' % r['beta'])
            text['adiabatic'].append(c + ' %r 99.0' % r['ad'])
        for a in quads:
            for k in heads:
                text[k].append(' '.join(str(x + 1) for x in a))
        if take:
            zones.append(name)
            kf = 2.0 * cp / (v0 * v0)
            nd = []
            for r in rows:
                rf = (r['ad'] - t0) * kf
                nd.append([-r['q'] / (r['T'] - (t0 + rf / kf)), r['beta']] + r['SF'] + [rf])
            faces = []
            for a in quads:
                b = a[::-1] if rev else a
                u = []
                for x in b:
                    if x not in u:
                        u.append(x)
                if len(u) == 3:
                    faces.append(tuple(u))
                elif len(u) == 4:
                    faces += [(b[0], b[1], b[2]), (b[0], b[2], b[3])]
            want.append({'name': name, 'nodes': [tuple(float('%f' % x) for x in p) for p in pts], 'faces': faces,
                         'data': [[sum(nd[v][k] for v in t) / 3.0 for k in range(6)] for t in faces]})
    for k in heads:
        f = '%s/%s.%s.dat' % (ind, base, k)
        put(root, f, '\n'.join(text[k]) + '\n')
        job.inputs.add(f)
    out = '%s/%s.dat' % (ind, base)
    job.outdirs = {ind}
    job.outputs.add(out)
    job.args = [job.p('%s/%s' % (ind, base)), ','.join(zones), '-t', t0, '-v', v0, '-cp', cp]
    if j['normals']:
        job.args += ['-n', j['normals']]

    def oracle():
        try:
            h = grids.parse_dat(os.path.join(root, out))
        except (OSError, grids.FormatError, ValueError, IndexError) as e:
            return '%s: %s' % (out, e)
        if [z['name'] for z in h['zones']] != zones:
            return '%s: zones %r instead of %r' % (out, [z['name'] for z in h['zones']], zones)
        if h['vars'] != ['HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']:
            return '%s: variables %r' % (out, h['vars'])
        for a, b in zip(want, h['zones']):
            if sorted({a['nodes'][v] for t in a['faces'] for v in t}) != sorted(map(tuple, b['nodes'])):
                return '%s: nodes of %s' % (out, a['name'])
            x = [tuple(a['nodes'][v] for v in t) for t in a['faces']]
            y = [tuple(b['nodes'][v] for v in t) for t in b['faces']]
            rot = lambda t: min(t[i:] + t[:i] for i in range(3))        # noqa
            if [rot(t) for t in x] != [rot(t) for t in y]:
                return '%s: triangles of %s' % (out, a['name'])
            for p, q in zip(a['data'], b['data']):
                if any(abs(c - d) > 2e-6 + 1e-9 * abs(c) for c, d in zip(p, q)):
                    return '%s: face data %r instead of %r' % (out, q, p)
        return None
    job.oracle = oracle


_MAKE = {'split_c': _split, 'split_o': _split, 'merge': _merge, 'remesh_g': _remesh, 'remesh_d': _remesh,
         'drops': _drops, 'interpolate': _two, 'beta': _two, 'lazurit': _lazurit, 'ansys': _ansys}


# -- comparison ------------------------------------------------------------------------------------


def volatile(rel):
    return os.path.basename(rel) == 'report.txt'


def norm(rel, data):
    """Content without what legitimately depends on the clock."""
    if volatile(rel):
        return re.sub(rb'-?\d[\d.]*(e[+-]?\d+)?', b'#', data)
    return data


def produced(before, after):
    """Files created or changed between two snapshots."""
    return sorted(k for k, v in after.items() if before.get(k) != v)


def differs(names, ref, got):
    """First difference of the named files of two snapshots, ignoring clock-dependent content."""
    for k in sorted(names):
        if k not in got:
            return '%s is missing' % k
        a, b = norm(k, ref[k]), norm(k, got[k])
        if a != b:
            n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return '%s differs (%d bytes instead of %d, first difference at byte %d: %r instead of %r)' \
                % (k, len(b), len(a), n, b[n:n + 30], a[n:n + 30])
    return None


def decoys(rng, job, root):
    """Unrelated files next to the outputs and inputs, with names a careless tool might use."""
    r = set()
    names = []
    for d in sorted({'.'} | {os.path.dirname(i) for i in job.inputs} | job.outdirs):
        if not os.path.isdir(os.path.join(root, d)):
            continue
        names += [d + '/' + n for n in ('notes.md', 'data.bak', 'tmp.tmp', '.hidden', 'tmp', 'temp.dat.tmp',
                                        'other.txt', 'report.old')]
    for o in sorted(job.outputs | (job.inputs if job.kind != 'lazurit' else set())):
        if os.path.isdir(os.path.join(root, os.path.dirname(o))):
            names += [o + s for s in ('.tmp', '.bak', '~', '.old', '.part', '.new', '.swp', '.lock')]
    if job.kind not in ('remesh_d', 'lazurit'):
        # Products of other cases with similar names.
        nm = job.nm
        for d in sorted(job.outdirs):
            if os.path.isdir(os.path.join(root, d)):
                for o in ('_1', '2', '_b', '-x'):
                    names += [d + '/' + nm + o + e for e in
                              ('.dat', '_00000_000000000000.cry', '_00001_000000000000.cry', '_r_000000001000.dat',
                               '_000000000001.dat', '_res.dat', '_drops.dat.tr.dat', '_interpolated.dat', '.json')]
    for n in sorted(set(os.path.normpath(x) for x in names)):
        if rng.random() < 0.3 and n not in job.outputs and n not in job.inputs and n != 'tmp':
            # Not where a tool legitimately reads every file of a directory.
            put(root, n, 'bystander %s\n' % n)
            r.add(n)
    return r
