"""
C11, C12, C13, C16: histories of operations on grids and their files, on a simulated disk.
"""

import json
import math
import os
import random
import re
import sys

from . import core, crycheck, fsim, grids, tools, world
from .c_tools import BENIGN, FAILING, fault_spec
from .core import HarnessError, Violation
from .runner import Check, derive
from .world import EXC, Interrupter

REAL = ['gsu/*', 'geom/*', 'utils.py', 'CPython io stack']
STUBS = ['raw file descriptors and the process boundary (simulated disk and processes)']


def decomp_spec(rng, names=(), bad=0.0):
    """One decomposition request."""
    k = rng.choice(['mono', 'random', 'linear', 'hier', 'hier', 'farhat', 'farhat'])
    d = {'op': 'decomp', 'kind': k}
    if k in ('random', 'linear', 'farhat'):
        d['n'] = rng.choice([1, 2, 2, 3, 4, 5, 7 if rng.random() < 0.7 else rng.randint(10, 14)])
        if rng.random() < bad:
            d['n'] = 0
    if k == 'hier':
        d['n'] = rng.choice([1, 2, 2, 3, 3, 4])
        if rng.random() < bad:
            d['n'] = 0
    if k in ('hier', 'farhat'):
        d['fix'] = rng.choice([0, 0, 1, 1, 2])
        d['pick'] = rng.randrange(1000)
    if rng.random() < 0.2:
        d['name'] = rng.choice(['renamed', 'n 2'])
    if rng.random() < 0.15:
        d['unknown'] = True
    return d


def do_decomp(g, d, names):
    """:return: names of the zones requested to be fixed"""
    kw = {}
    if 'name' in d:
        kw['new_name'] = d['name']
    fixed = []
    if d.get('fix'):
        # (all zones of a name are fixed)
        u = list(dict.fromkeys(names))
        random.Random(d['pick']).shuffle(u)
        fixed = u[:d['fix']]
    ask = list(fixed)
    fixed = [x for x in names if x in fixed]
    if d.get('unknown'):
        ask.append('there is no such zone')
    k = d['kind']
    if k == 'mono':
        g.decompose_mono(**kw)
    elif k == 'random':
        g.decompose_random(d['n'], **kw)
    elif k == 'linear':
        g.decompose_linear(d['n'], **kw)
    elif k == 'hier':
        g.decompose_hierarchical(levels=d['n'], **dict(kw, **({'fixed_zones': ask} if ask else {})))
    else:
        g.decompose_farhat(d['n'], **dict(kw, **({'fz_names': ask} if ask else {})))
    return fixed


class Ref:
    """Reference model of one loaded grid: faces in order of loading, and zones."""

    def __init__(self, g):
        self.title = g['title']
        fs = grids.faces(g)
        self.coords = [c for c, _, _ in fs]
        self.data = [dict(d) for _, d, _ in fs]
        self.zones = []
        n = 0
        for z in g['zones']:
            self.zones.append((z['name'], list(range(n, n + len(z['faces'])))))
            n += len(z['faces'])
        self.index = {}
        for i, c in enumerate(self.coords):
            self.index.setdefault(c, []).append(i)

    def parts(self, h):
        """Zones of a stored file as lists of faces of this model.

        :return: (zones, None) or (None, problem)
        """
        r, used = [], set()
        for z in h['zones']:
            ids = []
            for t in z['faces']:
                c = tuple(tuple(z['nodes'][v]) for v in t)
                m = [i for i in self.index.get(c, ()) if i not in used]
                if not m:
                    return None, 'face %r of zone %r is not in the grid, or is stored twice' % (c, z['name'])
                used.add(m[0])
                ids.append(m[0])
            r.append((z['name'], ids))
        if len(used) != len(self.coords):
            return None, '%d of %d faces are stored' % (len(used), len(self.coords))
        return r, None

    def compare(self, h, merged=True):
        """Stored file against this model (zones included).

        :return: None or problem
        """
        if h['title'] != self.title:
            return 'title %r instead of %r' % (h['title'], self.title)
        ps, e = self.parts(h)
        if e:
            return e
        if [n for n, _ in ps] != [n for n, _ in self.zones]:
            return 'zones %r instead of %r' % ([n for n, _ in ps][:9], [n for n, _ in self.zones][:9])
        for (n, a), (_, b) in zip(ps, self.zones):
            if a != b:
                return 'faces of zone %r: %r instead of %r' % (n, a[:9], b[:9])
        vs = list(self.data[0])
        if h['vars'] != vs:
            return 'variables %r instead of %r' % (h['vars'], vs)
        for z, (_, ids) in zip(h['zones'], self.zones):
            for d, i in zip(z['data'], ids):
                for v, x in zip(vs, d):
                    w = self.data[i].get(v, 0.0)
                    if x != w or math.copysign(1, x) != math.copysign(1, w):
                        return 'face %d: %s = %r instead of %r' % (i, v, x, w)
            if merged and len(set(map(tuple, z['nodes']))) != len(z['nodes']):
                return 'zone %r has duplicate nodes' % z['name']
            if len({v for t in z['faces'] for v in t}) != len(z['nodes']):
                return 'zone %r has unused nodes' % z['name']
        return None

    def as_loaded(self, h):
        """Model of the grid loaded from a file this model has been stored to."""
        return Ref(h)

    def plain(self):
        """Plain grid (one zone per model zone), in the order of global face numbers."""
        vs = list(self.data[0])
        nodes, loc = [], {}
        faces = []
        for c in self.coords:
            t = []
            for p in c:
                if p not in loc:
                    loc[p] = len(nodes)
                    nodes.append(p)
                t.append(loc[p])
            faces.append(tuple(t))
        return {'title': self.title, 'vars': vs,
                'zones': [{'name': 'all', 'nodes': nodes, 'faces': faces,
                           'data': [[d.get(v, 0.0) for v in vs] for d in self.data]}]}


def euler_counts(ref):
    edges = {frozenset((c[k], c[(k + 1) % 3])) for c in ref.coords for k in range(3)}
    return {'nodes': len({p for c in ref.coords for p in c}), 'edges': len(edges), 'faces': len(ref.coords),
            'zones': len(ref.zones)}


def apart_counts(ref):
    """Counts of a grid whose zones are loaded without merging of nodes."""
    w = {'nodes': 0, 'edges': 0, 'faces': len(ref.coords), 'zones': len(ref.zones)}
    for _, ids in ref.zones:
        cs = [ref.coords[i] for i in ids]
        w['nodes'] += len({p for c in cs for p in c})
        w['edges'] += len({frozenset((c[k], c[(k + 1) % 3])) for c in cs for k in range(3)})
    return w


def adjacency(ref):
    """Counts of edges: inside of zones, between each pair of zones, and on the border of the surface."""
    z = {i: n for n, (_, ids) in enumerate(ref.zones) for i in ids}
    n = len(ref.zones)
    m = [[0] * (n + 1) for _ in range(n + 1)]
    for fs in crycheck.edge_faces(ref.coords).values():
        a, b = (z[fs[0]], n) if len(fs) == 1 else (z[fs[0]], z[fs[1]])
        m[a][b] += 1
        if a != b:
            m[b][a] += 1
    return m


def check_report(g, ref):
    """What the grid prints about itself.

    :return: None or problem
    """
    m = adjacency(ref)
    n = len(ref.zones)
    sizes = [len(ids) for _, ids in ref.zones]
    outer = [sum(m[i]) - m[i][i] for i in range(n)]
    dist = all(outer)
    out = core.current_proc().stdout
    at = len(out.getvalue())
    g.print_info(True, dist, True)
    text = out.getvalue()[at:]
    c = euler_counts(ref)
    border, inner = sum(m[n]), sum(m[i][i] for i in range(n))
    cross = sum(m[i][j] for i in range(n) for j in range(i))
    want = ['%d nodes' % c['nodes'], '%d edges' % c['edges'], '%d faces' % c['faces'], '%d zones' % n]
    for k, x in (('border', border), ('inner', inner), ('cross', cross)):
        want.append('%d %s (%.2f%%)' % (x, k, 100.0 * x / (border + inner + cross)))
    want.append('max cross-zones border length : %d' % max(max([0] + [m[i][j] for j in range(n) if j != i]) for i in range(n)))
    if dist:
        want += ['%d faces, %d outer edges, QF = %.3f' % (s, o, s ** 0.5 / o) for s, o in zip(sizes, outer)]
        want.append('max zone faces %d' % max(sizes))
    for w in want:
        if not re.search(r'(?<![\d.])' + re.escape(w), text):
            return 'the printed report does not say %r: %r' % (w, text[:400])
    rows = [[int(x) for x in x.split()] for x in text.split('\n') if re.fullmatch(r'[\d ]+', x)]
    if [r for r in rows if r] != m:
        return 'the printed adjacency of zones is %r instead of %r' % (rows, m)
    return None


def check_counts(g, ref, zones=True):
    w = apart_counts(ref) if getattr(ref, 'apart', False) else euler_counts(ref)
    got = {'nodes': g.nodes_count(), 'edges': g.edges_count(), 'faces': g.faces_count(), 'zones': g.zones_count()}
    if not zones:
        w.pop('zones'), got.pop('zones')
    if w != got:
        return 'counts %r instead of %r' % (got, w)
    return None


class Session:
    """Shared parts of the checks."""

    def __init__(self, scn, ctx):
        self.scn, self.ctx = scn, ctx
        self.root = os.path.realpath(ctx.dir('disk'))
        world.tmp_inside(self.root)
        self.fs = fsim.FileSystem(self.root, ctx.choices, None, scn['sched_seed'])
        self.nprobe = 0

    def path(self, rel):
        return os.path.join(self.root, rel)

    def quiet(self):
        p = core.current_proc()
        p.faults = []
        p.heal()
        return p

    def arm(self, specs):
        p = core.current_proc()
        p.heal()
        p.faults = [fsim.Fault({'kind': f['kind'], 'at': f['at'], 'arg': f['arg']}) for f in specs]
        return p

    def probe(self, g, what):
        """The grid as a user sees it: store it and read the file."""
        self.quiet()
        p = self.path('probe.dat')
        try:
            g.store(p)
        except (Exception,) as e:
            raise Violation('store-fails', 'after %s: %s: %s' % (what, type(e).__name__, e))
        try:
            return grids.parse_dat(p)
        except (grids.FormatError, ValueError, IndexError) as e:
            raise Violation('bad-file', 'after %s: stored file: %s' % (what, e))

    def mpi_set(self, g, ref, rf, what):
        """Files for the parallel solver, checked against the model."""
        self.quiet()
        self.nprobe += 1
        d = self.path('mpi%d' % self.nprobe)
        os.makedirs(d, exist_ok=True)
        g.store_mpi(d + '/m', '000000000000')
        n = g.zones_count()
        files, e = crycheck.read_set(d, 'm', '000000000000')
        if e is None and len(files) != n:
            e = '%d files for %d zones' % (len(files), n)
        if e is None:
            e = crycheck.check_files(ref.plain(), files, None, [], rf)
        if e is None:
            for f, (t, ids) in zip(files, ref.zones):
                if f['title'] != t or f['gloid'] != ids:
                    e = 'file of zone %r has other faces than the zone' % t
                    break
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
        if e:
            raise Violation('inconsistent-set', 'after %s: %s' % (what, e))

    def count_faults(self):
        for k, n in self.fs.fired.items():
            self.ctx.count('fault:' + k, n)
        self.ctx.sim_time += max(0.0, self.fs.clock - self.fs.base_clock - sum(self.fs.clock_jumps))


def small_faults(rng, kinds, n=None):
    return [{'kind': rng.choice(kinds), 'at': rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30, 60]), 'arg': rng.randrange(1 << 16)}
            for _ in range(n or rng.choice([1, 1, 2]))]


STALL = ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']
ODD_NAMES = ['a b', 'zone=1', 'x==y', '#1', 'TITLE', 'zone,2', 'a;b', '  lead', 'f(x)=y', "it's",
             'TITLE=x', 'VARIABLES=3', 'trail ', 'a\tb', 'крыло', 'ZONE T=a', 'NODES=1', 'farhat 0', 'h', 'hl', 'mono']
ODD_TITLES = ['a = b', 'k=v', '#c', 'wing, left', 'T="x', 'ZONE', 'VARIABLES=x', 'ZONE T=x', 'TITLE=t', 'обледенение', ' x ']
VALUES = [0.0, -0.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.5, 1 / 3.0, 1e-7, 123456789.987654321,
          0.1, 1e22, -9.87654321e-205, float('inf'), float('-inf')]


def odd_grid(rng, spec, job_seed):
    g = grids.build(spec)
    r = random.Random(job_seed)
    names = ODD_NAMES[:]
    r.shuffle(names)
    if r.random() < 0.5:
        for z, n in zip(g['zones'], names):
            z['name'] = n
    if r.random() < 0.5:
        g['title'] = r.choice(ODD_TITLES)
    for z in g['zones']:
        for d in z['data']:
            if r.random() < 0.2:
                d[r.randrange(len(d))] = r.choice(VALUES)
    return g


def grid_ok(s):
    return bool(s['parts']) and all(len(p) == 2 and p[1] >= 1 for p in s['parts']) and s['zones'] >= 1 and s['vars']


# -- C11 -------------------------------------------------------------------------------------------


class C11(Check):
    ID = 'C11'
    RUNS = {'quick': 10000, 'thorough': 400000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct histories: sequences of (operation, faults that fired, outcome)'
    REAL = REAL
    STUBS = STUBS
    ASSUMPTIONS = ['nodes of one surface are farther apart than 1e-9; names contain no quotes or line breaks',
                   'after a failed or killed store the previous checkpoint file is used']

    def gen(self, rng, i, tier):
        gs = [grids.spec(rng, 2, 16 if tier == 'quick' else 40, big=0.01, huge=0.002) for _ in range(rng.choice([1, 1, 2]))]
        for g in gs:
            if rng.random() < 0.2:
                g['vars'] = rng.choice([grids.BASE_VARS + STALL, STALL + ['HTC'], ['T'] + STALL + ['Hi', 'Hw']])
            g['scale'] = rng.choice([None, None, 1e-3, 1e4, 1 / 3.0, 3e-8])
        ops = []
        for _ in range(rng.choice([4, 6, 9, 14])):
            k = rng.choice(['load', 'store', 'store', 'values', 'decomp', 'calc_store', 'calc_load', 'restart', 'check',
                            'clean', 'stall', 'new_var', 'explode'])
            o = {'op': k}
            if k == 'check':
                o['links'] = rng.random() < 0.7
            if k == 'new_var':
                o['seed'] = rng.randrange(1 << 30)
            if k == 'explode':
                o['k'] = rng.choice([0.1, 0.5, -0.25, 2.0])
            if k == 'decomp':
                o = decomp_spec(rng)
            if k == 'store':
                o['to'] = rng.randrange(3)
            if k == 'load':
                o['from'] = rng.randrange(5)
                o['apart'] = rng.random() < 0.3
            if k == 'values':
                o['seed'] = rng.randrange(1 << 30)
                o['n'] = rng.choice([1, 3, 10])
            if k == 'calc_store':
                o['to'] = rng.randrange(2)
            if k == 'calc_load':
                o['from'] = rng.randrange(2)
                o['ranks'] = rng.choice([0, 0, 1, 3])
                o['seed'] = rng.randrange(1 << 30)
            if k in ('load', 'store', 'calc_store', 'calc_load') and rng.random() < 0.4:
                o['faults'] = small_faults(rng, rng.choice([FAILING, BENIGN, ['kill', 'kill', 'power']]))
            ops.append(o)
        return {'grids': gs, 'odd': rng.randrange(1 << 30), 'ops': ops, 'io': world.io_profile(rng)}

    def valid(self, scn):
        return bool(scn['grids']) and all(grid_ok(s) for s in scn['grids']) and all(v >= 1 for v in scn['io'].values()) \
            and all(o.get('n', 1) >= 1 for o in scn['ops'])

    def run(self, scn, ctx):
        s = Session(scn, ctx)
        files = {}          # path -> parsed content of complete checkpoints
        calc = {}           # path -> [(id, values)]
        for n, sp in enumerate(scn['grids']):
            g = odd_grid(None, sp, derive(scn['odd'], n))
            rel = 'in%d.dat' % n
            tools.put(s.root, rel, grids.dat_text(g))
            files[rel] = grids.parse_dat(text=grids.dat_text(g))
        order = sorted(files)
        st = {'i': 0, 'ref': None, 'latest': order[0], 'life': 0}
        ops = scn['ops']
        sig = []

        def life():
            """One life of the process: from a load of the latest checkpoint to the end or to a crash."""
            import gsu
            g = gsu.Grid()
            st['ref'] = None
            self.load(s, g, st, files, st['latest'], [], scn, sig)
            while st['i'] < len(ops):
                o = ops[st['i']]
                st['i'] += 1
                if o['op'] == 'restart':
                    sig.append('restart')
                    return
                if st['ref'] is None and o['op'] != 'load':
                    self.load(s, g, st, files, st['latest'], [], scn, sig)
                getattr(self, 'op_' + o['op'])(s, g, st, files, calc, o, scn, sig)
            if st['ref'] is not None:
                self.verify(s, g, st, 'the end')

        while True:
            st['life'] += 1
            if st['life'] > len(ops) + 3:
                break
            power = s.fs.fired.get('power', 0)
            r, p = world.call(s.fs, 'life%d' % st['life'], life, s.root, scn['sched_seed'] + st['life'], (), scn['io'])
            if r.status == -9:
                sig.append('killed')
                ctx.count('crash restarts')
                # What the dead process was writing is gone for good; a power loss may also take
                # recent checkpoints, which nobody has synced.
                st['ref'] = None
                self.survivors(s, files, calc, st, s.fs.fired.get('power', 0) > power)
                continue
            if not r.ok:
                raise Violation('history-fails', '%r at operation %d %r' % (r, st['i'] - 1, ops[max(0, st['i'] - 1)]),
                                tb=r.tb)
            if st['i'] >= len(ops):
                break
        s.count_faults()
        ctx.nontrivial = True
        ctx.sigs.add('|'.join(sig))
        ctx.log += sig
        ctx.sample = {'history': sig[:14], 'grid': scn['grids'][0]['parts']}

    def survivors(self, s, files, calc, st, power):
        for d in (files, calc):
            for rel in sorted(d):
                try:
                    if d is files:
                        ok = grids.same_grid(d[rel], grids.parse_dat(s.path(rel))) is None
                    else:
                        with fsim.real_open(s.path(rel)) as f:
                            t = f.read()
                        ok = t.endswith('\n') and [(int(l.split()[0]), [float(x) for x in l.split()[1:]])
                                                   for l in t.split('\n')[1:-1]] == d[rel]
                except (OSError, grids.FormatError, ValueError, IndexError):
                    ok = False
                if not ok:
                    if not power:
                        raise Violation('lost-checkpoint', 'killed process has damaged %s' % rel)
                    del d[rel]
        s.fs.before.clear()
        if st['latest'] not in files:
            st['latest'] = sorted(files)[-1]

    def verify(self, s, g, st, what):
        h = s.probe(g, what)
        e = st['ref'].compare(h) or check_counts(g, st['ref'])
        if e:
            raise Violation('content', 'after %s: %s' % (what, e))

    def attempt(self, s, o, fn):
        """:return: None if it has worked, else the exception"""
        fired = dict(s.fs.fired)
        p = s.arm(o.get('faults', ()))
        err = None
        try:
            fn()
        except (Exception, KeyboardInterrupt) as e:
            if not p.alive:
                raise
            if isinstance(e, Violation):
                raise
            err = '%s: %s' % (type(e).__name__, e)
            core.drop_exception(e)
        s.quiet()
        new = sorted(k for k, v in s.fs.fired.items() if v != fired.get(k, 0))
        if err is not None and all(k in BENIGN for k in new):
            raise Violation('fails', '%s fails with %s although only %s happened' % (o['op'], err, new or 'nothing'))
        return err, new

    def load(self, s, g, st, files, rel, faults, scn, sig, apart=False):
        st['ref'] = None
        err, new = self.attempt(s, {'op': 'load', 'faults': faults},
                                lambda: g.load(s.path(rel), **({'is_merge_same_nodes': False} if apart else {})))
        sig.append('load%s %s %s' % (' apart' if apart else '', ','.join(new), 'fails' if err else 'ok'))
        if err is None:
            st['ref'] = Ref(files[rel])
            st['ref'].apart = apart
            self.verify(s, g, st, 'load of %s%s' % (rel, ' with ' + ','.join(new) if new else ''))
        return err

    def op_load(self, s, g, st, files, calc, o, scn, sig):
        order = sorted(files)
        self.load(s, g, st, files, order[o['from'] % len(order)], o.get('faults', ()), scn, sig, o.get('apart', False))

    def op_store(self, s, g, st, files, calc, o, scn, sig):
        rel = 'ck%d.dat' % o['to']
        files.pop(rel, None)
        if st['latest'] == rel:
            st['latest'] = sorted(files)[0]
        err, new = self.attempt(s, o, lambda: g.store(s.path(rel)))
        sig.append('store %s %s' % (','.join(new), 'fails' if err else 'ok'))
        if err is None:
            try:
                h = grids.parse_dat(s.path(rel))
            except (OSError, grids.FormatError, ValueError, IndexError) as e:
                raise Violation('lost-checkpoint', 'store of %s reports success (%s): %s' % (rel, new, e))
            e = st['ref'].compare(h)
            if e:
                raise Violation('lost-checkpoint', 'store of %s reports success (%s): %s' % (rel, new, e))
            files[rel] = h
            st['latest'] = rel
        self.verify(s, g, st, 'store')

    def op_values(self, s, g, st, files, calc, o, scn, sig):
        r = random.Random(o['seed'])
        vs = list(st['ref'].data[0])
        for _ in range(o['n']):
            i, v = r.randrange(len(st['ref'].data)), r.choice(vs)
            x = r.choice(VALUES) if r.random() < 0.5 else r.uniform(-1, 1) * 10 ** r.uniform(-12, 12)
            g.Faces[i][v] = x
            st['ref'].data[i][v] = x
        sig.append('values')

    def op_clean(self, s, g, st, files, calc, o, scn, sig):
        g.clean_t_hw_hi()
        for d in st['ref'].data:
            d.update({'T': 0.0, 'Hw': 0.0, 'Hi': 0.0})
        sig.append('clean')
        self.verify(s, g, st, 'cleaning of T, Hw, Hi')

    def op_stall(self, s, g, st, files, calc, o, scn, sig):
        ref = st['ref']
        if any(v not in d for v in STALL for d in ref.data):
            return
        g.convert_grid_stall_to_check_point()
        for d in ref.data:
            for v in STALL:
                d.pop(v)
        sig.append('stall')
        self.verify(s, g, st, 'removal of stall data')

    def op_new_var(self, s, g, st, files, calc, o, scn, sig):
        r = random.Random(o['seed'])
        v = r.choice(['New', 'Beta', 'T', 'q'])
        for f, d in zip(g.Faces, st['ref'].data):
            d[v] = r.uniform(-5, 5)
            f[v] = d[v]
        sig.append('new variable')
        self.verify(s, g, st, 'a new variable')

    def op_explode(self, s, g, st, files, calc, o, scn, sig):
        ref = st['ref']
        if not ref.apart or not all(ids for _, ids in ref.zones):
            return
        h = s.probe(g, 'explosion')
        g.move_from_mean_point(o['k'])
        a = s.probe(g, 'explosion')
        pts = [p for z in h['zones'] for p in z['nodes']]
        gm = [math.fsum(p[x] for p in pts) / len(pts) for x in range(3)]
        size = max(abs(x) for p in pts for x in p)
        if [z['name'] for z in a['zones']] != [z['name'] for z in h['zones']]:
            raise Violation('content', 'explosion changes zones')
        for z, w in zip(a['zones'], h['zones']):
            zm = [math.fsum(p[x] for p in w['nodes']) / len(w['nodes']) for x in range(3)]
            want = [tuple(p[x] + (zm[x] - gm[x]) * o['k'] for x in range(3)) for p in w['nodes']]
            if z['faces'] != w['faces'] or len(want) != len(z['nodes']):
                raise Violation('content', 'explosion changes faces of zone %r' % z['name'])
            for p, q in zip(z['nodes'], want):
                if max(abs(x - y) for x, y in zip(p, q)) > 1e-9 * size:
                    raise Violation('content', 'explosion moves a node of %r to %r instead of %r' % (z['name'], p, q))
        new = Ref(a)
        new.apart, new.title = True, ref.title
        if [x for _, x in new.zones] != [x for _, x in ref.zones]:
            st['ref'] = None        # numbering of zones is not that of faces: the model would need a mapping
            return
        new.data = ref.data
        st['ref'] = new
        sig.append('explode')
        self.verify(s, g, st, 'explosion')

    def op_decomp(self, s, g, st, files, calc, o, scn, sig):
        ref = st['ref']
        if ref.apart:
            return
        do_decomp(g, o, [n for n, _ in ref.zones])
        ref.title = o.get('name', ref.title)
        h = s.probe(g, 'decomposition')
        ps, e = ref.parts(h)
        if e:
            raise Violation('content', 'after decomposition %r: %s' % (o, e))
        ref.zones = ps
        sig.append('decomp %s' % o['kind'])
        self.verify(s, g, st, 'decomposition')

    def op_calc_store(self, s, g, st, files, calc, o, scn, sig):
        rel = 'calc%d.txt' % o['to']
        calc.pop(rel, None)
        ref = st['ref']
        err, new = self.attempt(s, o, lambda: g.store_faces_calc_data(s.path(rel)))
        sig.append('calc_store %s %s' % (','.join(new), 'fails' if err else 'ok'))
        if err is None:
            want = [(i, [d.get(v, 0.0) for v in ('T', 'Hw', 'Hi')]) for i, d in enumerate(ref.data)]
            with fsim.real_open(s.path(rel)) as f:
                lines = f.read().split('\n')
            rows = [(int(l.split()[0]), [float(x) for x in l.split()[1:]]) for l in lines[1:-1]]
            # This function produces test data: the values get a random addition from [0, 1).
            if lines[0] != 'VARIABLES="GloId", "T", "Hw", "Hi"' or lines[-1] != '' or \
                    [i for i, _ in rows] != list(range(len(want))) or \
                    not all(len(x) == 3 and all(a <= b <= a + 1 for a, b in zip(w, x)) for (_, w), (_, x) in zip(want, rows)):
                raise Violation('lost-calc-data', 'file of face values does not have the values of the grid (%s)' % new)
            calc[rel] = rows

    def op_calc_load(self, s, g, st, files, calc, o, scn, sig):
        ref = st['ref']
        n = len(ref.data)
        r = random.Random(o['seed'])
        if o['ranks']:
            # Files of a parallel solver.
            own = [r.randrange(o['ranks']) for _ in range(n)]
            paths, rows = [], []
            for k in range(o['ranks']):
                part = [(i, [r.choice(VALUES) if r.random() < 0.2 else r.uniform(0, 1) * 10 ** r.randint(-9, 9) for _ in range(3)])
                        for i in range(n) if own[i] == k]
                r.shuffle(part)
                rows += part
                tools.put(s.root, 'rank%d.txt' % k, tools.txt_text(part))
                paths.append('rank%d.txt' % k)
        else:
            ok = [p for p in sorted(calc) if len(calc[p]) == n]
            if not ok:
                return
            p = ok[o['from'] % len(ok)]
            paths, rows = [p], calc[p]

        def fn():
            for p in paths:
                g.load_faces_calc_data(s.path(p))
        err, new = self.attempt(s, o, fn)
        sig.append('calc_load %s %s' % (','.join(new), 'fails' if err else 'ok'))
        if err is not None:
            st['ref'] = None            # partly applied: the program reloads the grid
            return
        for i, v in rows:
            ref.data[i] = dict(zip(('T', 'Hw', 'Hi'), v))
        self.verify(s, g, st, 'load of face values')

    def op_check(self, s, g, st, files, calc, o, scn, sig):
        self.verify(s, g, st, 'check')
        if o.get('links') and not st['ref'].apart:
            e = check_report(g, st['ref'])
            if e:
                raise Violation('wrong-report', 'after %s: %s' % (sig[-1:], e))
            s.mpi_set(g, st['ref'], None, '%s' % sig[-1:])


# -- C12 -------------------------------------------------------------------------------------------


class C12(Check):
    ID = 'C12'
    RUNS = {'quick': 18000, 'thorough': 400000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct sequences of decomposition requests and outcomes on one grid'
    REAL = REAL
    STUBS = STUBS
    ASSUMPTIONS = ['requests come from one user at a time; failing requests are those with impossible counts or '
                   'interrupted by a signal or failing allocation']

    def gen(self, rng, i, tier):
        sp = grids.spec(rng, 2, 18 if tier == 'quick' else 60, big=0.01, huge=0.001)
        ops = []
        for _ in range(rng.choice([2, 4, 6, 10])):
            o = decomp_spec(rng, bad=0.2)
            if rng.random() < 0.25:
                o['interrupt'] = {'what': rng.choice(sorted(EXC)), 'line': int(10 ** rng.uniform(0, 3.6))}
            if rng.random() < 0.1:
                o['seed'] = rng.randrange(1 << 30)
            o['mpi'] = rng.random() < 0.6
            o['report'] = rng.random() < 0.3
            ops.append(o)
        return {'grid': sp, 'ops': ops}

    def valid(self, scn):
        return grid_ok(scn['grid'])

    def run(self, scn, ctx):
        s = Session(scn, ctx)
        g0 = grids.build(scn['grid'])
        tools.put(s.root, 'in.dat', grids.dat_text(g0))
        sig = []

        def fn():
            import gsu
            g = gsu.Grid()
            g.load(s.path('in.dat'))
            ref = Ref(g0)
            known = True
            for n, o in enumerate(scn['ops']):
                names = [x for x, _ in ref.zones] if known else []
                old = list(ref.zones) if known else []
                bad = o['kind'] != 'mono' and o['n'] < 1
                err, fixed, it = None, [], None
                if 'seed' in o:
                    random.seed(o['seed'])
                try:
                    if 'interrupt' in o:
                        it = Interrupter(o['interrupt']['line'], EXC[o['interrupt']['what']])
                        with it:
                            fixed = do_decomp(g, o, names)
                    else:
                        fixed = do_decomp(g, o, names)
                except (Exception, KeyboardInterrupt) as e:
                    err = '%s: %s' % (type(e).__name__, e)
                    import traceback
                    tb = traceback.format_exc()
                    core.drop_exception(e)
                if it is not None and it.fired:
                    ctx.count('fault:' + o['interrupt']['what'])
                sig.append('%s%s%s %s' % (o['kind'], o.get('n', ''), '+%d' % o['fix'] if o.get('fix') else '',
                                          'fails' if err else 'ok'))
                if it is not None and it.fired or bad:
                    if err is not None:
                        known = False       # nothing is promised until the next accepted request
                        continue
                if err is not None:
                    raise Violation('request-fails', 'request %d %r fails: %s (before: %s)'
                                    % (n, o, err, '; '.join(sig[:-1])), tb=tb)
                h = s.probe(g, 'request %r' % (o,))
                if bad:
                    known = False
                    continue
                if known:
                    ref.title = o.get('name', ref.title)
                elif 'name' in o:
                    ref.title = o['name']
                else:
                    ref.title = h['title']      # the failed request may have renamed the grid
                e = self.promise(ref, h, o, fixed, old, g) or ref.compare(h) or check_counts(g, ref)
                known = True
                if e:
                    raise Violation('wrong-decomposition', 'request %d %r: %s (before: %s)'
                                    % (n, o, e, '; '.join(sig[:-1])))
                if o['mpi']:
                    s.mpi_set(g, ref, None, 'request %d %r' % (n, o))
                if o.get('report'):
                    e = check_report(g, ref)
                    if e:
                        raise Violation('wrong-report', 'request %d %r: %s (before: %s)' % (n, o, e, '; '.join(sig[:-1])))

        r, p = world.call(s.fs, 'session', fn, s.root, scn['sched_seed'])
        if not r.ok:
            raise Violation('session-fails', '%r' % r, tb=r.tb)
        s.count_faults()
        ctx.nontrivial = True
        ctx.sigs.add('|'.join(sig))
        ctx.log += sig
        ctx.sample = {'requests': sig[:10], 'grid': scn['grid']['parts']}

    def promise(self, ref, h, o, fixed, old, g):
        """What the request promises; on success the model takes over the zones."""
        ps, e = ref.parts(h)
        if e:
            return e
        left = list(ps)
        for f, ids in old:
            if f not in fixed:
                continue
            m = [p for p in left if p[0] == f and sorted(p[1]) == sorted(ids)]
            if not m:
                return 'fixed zone %r does not have its own faces' % f
            left.remove(m[0])
        sizes = [len(x) for _, x in left]
        k = o['kind']
        total = len(ref.coords)
        if k == 'mono' and sizes != [total]:
            return 'sizes %r' % sizes
        if k in ('linear', 'farhat', 'random') and len(sizes) != o['n']:
            return '%d zones instead of %d' % (len(sizes), o['n'])
        if k in ('linear', 'farhat') and max(sizes) - min(sizes) > 1:
            return 'sizes %r differ by more than one' % sizes
        if k == 'linear':
            if [i for _, x in left for i in x] != list(range(total)):
                return 'linear zones are not consecutive'
        if k == 'hier':
            if not 1 <= len(sizes) <= 2 ** (o['n'] - 1):
                return '%d zones at %d levels' % (len(sizes), o['n'])
            if len(sizes) > 1 and min(sizes) == 0:
                return 'empty zone: %r' % sizes
            if o['n'] > 1 and not o.get('fix') and len(sizes) == 1 and total >= 2 and self.separable(ref):
                return 'not split at all'
            e = crycheck.check_tree(ref.coords, left, o['n'], [tuple(f.get_center()[k] for k in range(3)) for f in g.Faces])
            if e:
                return e
        ref.zones = ps
        return None

    @staticmethod
    def separable(ref):
        """More than half of ... : some direction has its median strictly above its minimum."""
        for k in range(3):
            c = sorted((a[k] + b[k] + d[k]) / 3.0 for a, b, d in ref.coords)
            if c[0] < c[len(c) // 2]:
                return True
        return False


# -- C13 -------------------------------------------------------------------------------------------


class C13(Check):
    ID = 'C13'
    RUNS = {'quick': 18000, 'thorough': 400000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct histories of failed, interrupted and completed operations before the comparison'
    REAL = REAL
    STUBS = STUBS
    ASSUMPTIONS = ['interruptions are exceptions raised at any executed line (signal, failing allocation) or by I/O']

    def gen(self, rng, i, tier):
        gs = [grids.spec(rng, 2, 14 if tier == 'quick' else 40, big=0.01) for _ in range(2)]
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            k = rng.choice(['load', 'load', 'decomp', 'decomp', 'store', 'mpi', 'mark', 'calc', 'bad_load'])
            o = {'op': k}
            if k == 'decomp':
                o = decomp_spec(rng, bad=0.2)
            if k in ('load', 'bad_load'):
                o['which'] = rng.randrange(2)
                o['cut'] = rng.randrange(1000000)
                o['raw'] = rng.random() < 0.2
            if k in ('load', 'store', 'mpi', 'calc') and rng.random() < 0.4:
                o['faults'] = small_faults(rng, FAILING)
            if rng.random() < 0.4:
                o['interrupt'] = {'what': rng.choice(sorted(EXC)), 'line': int(10 ** rng.uniform(0, 3.7))}
            ops.append(o)
        final = [{'op': 'load', 'which': rng.randrange(2), 'raw': rng.random() < 0.2}] if rng.random() < 0.6 else []
        d = decomp_spec(rng)
        d['fix'] = 0
        if d['kind'] == 'random':
            d['seed'] = rng.randrange(1 << 30)
        final.append(d)
        if rng.random() < 0.3:
            d2 = decomp_spec(rng)
            if d2['kind'] == 'random':
                d2['seed'] = rng.randrange(1 << 30)
            final.append(d2)
        final += [{'op': k} for k in ('store', 'mpi', 'calc_store') if rng.random() < 0.8]
        if final[0]['op'] == 'load' and rng.random() < 0.5:
            final.append({'op': 'mark'})
        return {'grids': gs, 'odd': rng.randrange(1 << 30), 'untitled': rng.random() < 0.4, 'ops': ops, 'final': final}

    def valid(self, scn):
        if len(scn['grids']) != 2 or not all(grid_ok(s) for s in scn['grids']) or not scn['final']:
            return False
        if any(o['op'] == 'decomp' and o['kind'] != 'mono' and o['n'] < 1 for o in scn['final']):
            return False
        return scn['final'][0]['op'] in ('load', 'decomp')

    def apply(self, s, g, o, zones=True):
        k = o['op']
        if k == 'load':
            g.load(s.path('in%d.dat' % o['which']), not o.get('raw'))
        elif k == 'bad_load':
            g.load(s.path('bad.dat'))
        elif k == 'decomp':
            if 'seed' in o:
                random.seed(o['seed'])
            do_decomp(g, o, [z.Name for z in g.Zones])
        elif k == 'store':
            g.store(s.path('o.dat'))
        elif k == 'mpi':
            g.store_mpi(s.path('o'), '000000000001')
        elif k == 'calc_store':
            random.seed(7)
            g.store_faces_calc_data(s.path('o.txt'))
        elif k == 'calc':
            g.load_faces_calc_data(s.path('calc.txt'))
        elif k == 'mark':
            g.mark_all_fixed_nodes()

    def final(self, s, g, scn, base):
        """Final operations.

        :return: what a user can see
        """
        s.quiet()
        out = []
        for o in scn['final']:
            for f in sorted(os.listdir(s.root)):
                if f.startswith('o.') or f.startswith('o_'):
                    os.remove(s.path(f))
            self.apply(s, g, o)
            files = {f: fsim.real_open(s.path(f), 'rb').read() for f in sorted(os.listdir(s.root))
                     if f.startswith('o.') or f.startswith('o_')}
            seen = [g.Name, g.nodes_count(), g.edges_count(), g.faces_count(), g.zones_count(),
                    [z.Name for z in g.Zones], [z.outer_edges_count() for z in g.Zones]]
            if o['op'] == 'mark':
                seen.append(g.number_of_border_nodes)
            out.append((o['op'], seen, files))
        return out

    def run(self, scn, ctx):
        s = Session(scn, ctx)
        for n, sp in enumerate(scn['grids']):
            g = grids.build(sp) if n else odd_grid(None, sp, scn['odd'])
            t = grids.dat_text(g)
            if n == 1 and scn['untitled']:
                t = ''.join(l + '\n' for l in t.split('\n')[:-1] if not l.startswith('TITLE='))
            tools.put(s.root, 'in%d.dat' % n, t)
        faces = [sum(len(z['faces']) for z in grids.build(sp)['zones']) for sp in scn['grids']]
        tools.put(s.root, 'calc.txt', tools.txt_text([(i, [1.0 + i, 2.0, 3.0]) for i in range(min(faces))]))
        sig = []
        res = {}
        reload = scn['final'][0]['op'] == 'load'

        def dirty():
            import gsu
            g = gsu.Grid()
            base, changed = None, False
            title = None
            if not reload:
                g.load(s.path('in0.dat'))
                base = {'which': 0}
            for o in scn['ops']:
                if not reload and o['op'] in ('calc', 'bad_load', 'mark'):
                    continue            # the object must still be the grid of a known file
                if not reload and o['op'] == 'load' and ('interrupt' in o or o.get('faults')):
                    continue
                if o['op'] == 'bad_load':
                    t = tools.get(s.root, 'in%d.dat' % o['which'])
                    tools.put(s.root, 'bad.dat', t[:o['cut'] * len(t) // 1000000])
                p = s.arm(o.get('faults', ()))
                err, it = None, Interrupter(o['interrupt']['line'], EXC[o['interrupt']['what']]) \
                    if 'interrupt' in o else None
                try:
                    if it is not None:
                        with it:
                            self.apply(s, g, o)
                    else:
                        self.apply(s, g, o)
                    if o['op'] == 'load':
                        base = {'which': o['which'], 'raw': o.get('raw')}
                except (Exception, KeyboardInterrupt) as e:
                    err = '%s: %s' % (type(e).__name__, e)
                    core.drop_exception(e)
                s.quiet()
                if it is not None and it.fired:
                    ctx.count('fault:' + o['interrupt']['what'])
                sig.append('%s%s %s' % (o['op'], o.get('kind', ''), 'fails' if err else 'ok'))
            if not reload:
                res['base'] = base
                # A failed request may or may not have renamed the grid: give it the name explicitly.
                g.Name = 'same'
            try:
                res['dirty'] = self.final(s, g, scn, base)
            except (Exception, KeyboardInterrupt) as e:
                import traceback
                res['error'] = ('%s: %s' % (type(e).__name__, e), traceback.format_exc())

        def fresh():
            import gsu
            g = gsu.Grid()
            if not reload:
                g.load(s.path('in%d.dat' % res['base']['which']), not res['base'].get('raw'))
                g.Name = 'same'
            res['fresh'] = self.final(s, g, scn, None)
        r, p = world.call(s.fs, 'used', dirty, s.root, scn['sched_seed'])
        if not r.ok:
            raise HarnessError('C13: %r %s' % (r, r.tb))
        fired = dict(s.fs.fired)
        r, p = world.call(s.fs, 'fresh', fresh, s.root, scn['sched_seed'])
        if not r.ok:
            raise Violation('fresh-fails', 'on a new grid object: %r' % r, tb=r.tb)
        how = '; '.join(sig)
        if 'error' in res:
            raise Violation('used-fails', 'after [%s] %r fails: %s'
                            % (how, [o['op'] + o.get('kind', '') for o in scn['final']], res['error'][0]),
                            tb=res['error'][1])
        for a, b in zip(res['dirty'], res['fresh']):
            if a[1] != b[1]:
                raise Violation('used-differs', 'after [%s] then %s: %r instead of %r' % (how, a[0], a[1], b[1]))
            d = sorted(a[2]) != sorted(b[2]) and 'files %r instead of %r' % (sorted(a[2]), sorted(b[2])) \
                or tools.differs(sorted(b[2]), b[2], a[2])
            if d:
                raise Violation('used-differs', 'after [%s] then %s: %s' % (how, a[0], d))
        for k, n in fired.items():
            ctx.count('fault:' + k, n)
        ctx.nontrivial = any(x.endswith('fails') for x in sig)
        ctx.sim_time += max(0.0, s.fs.clock - s.fs.base_clock)
        ctx.sigs.add(how + '|' + str([o['op'] for o in scn['final']]))
        ctx.log += sig
        ctx.sample = {'history': sig[:10], 'then': [o['op'] + o.get('kind', '') for o in scn['final']]}
