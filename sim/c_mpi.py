"""
C01, C02, C03: the parallel driver (crys.py) on a simulated machine.
"""

import os
import random

from . import core, fsim, grids, mods, mpi, world
from .core import HarnessError, Kernel, Proc, Violation
from .runner import Check

VARS = ['T', 'Hw', 'Hi']


def rank_value(rank, face, name, mode=''):
    """Value a rank's own solver state holds for a face."""
    if mode == 'dry' and name != 'T' and (face * 5 + rank * 3) % 4 == 0:
        return 0.0
    if mode == 'wild' and name != 'Hi' and (face * 3 + rank) % 5 < 2:
        # Signs and magnitudes which a conversion or a shortcut would lose.
        return [-273.15, 1e18, 1e-300, -0.5][(face + rank) % 4] * (1 + face * 2.0 ** -40 + rank * 2.0 ** -20)
    base = {'T': 300.0, 'Hw': 0.25, 'Hi': 0.02}[name]
    step = {'T': 1.0, 'Hw': 1e-3, 'Hi': 1e-5}[name]
    return base + step * face + (rank + 1) * base * 0.125 + step * 0.01 * ((face * 7 + rank * 13) % 11)


def solved(solver, t, hi, hw):
    """Ice height after the solver step."""
    if solver == 'melt':
        # Heights that fall, vanish, and depend on the other values of the face.
        k = int(round(t * 100.0 + hw * 1e5)) % 7
        return max([hi * 0.5, 0.0, hi + (t - 300.0) * 2.0 ** -12, hi - 2.0 ** -9, hi, hi + hw * 0.0625, hi][k], 0.0)
    return hi + 2.0


def fake_hi(T, HI, HW):
    """Solver step with the interface of the extension (arrays are changed in place)."""
    for i in range(len(T)):
        HI[i] = solved('melt', float(T[i]), float(HI[i]), float(HW[i]))
        T[i] += 1.0
        HW[i] += 3.0


def want_hi(rank, face, mode, solver):
    return solved(solver, *[rank_value(rank, face, v, mode) for v in VARS[:1] + ['Hi', 'Hw']])


def gen_crys(rng, i, tier):
    big = tier == 'thorough'
    size = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8] + ([9, 12] if big else [11] if rng.random() < 0.3 else []))
    # Very small grids give empty zones and isolated ranks; two components give ranks with no neighbour.
    lo, hi = rng.choice([(2, 8), (6, 24), (10, 40), (20, 70)])
    sp = grids.spec(rng, lo, hi, big=0.03, huge=0.003, vars=rng.choice([VARS, VARS + ['HTC', 'Beta']]))
    if rng.random() < 0.25:
        sp['parts'] = [[rng.choice(['sheet', 'fan', 'strip', 'octa']), rng.randint(3, 14)] for _ in range(rng.choice([2, 3, 4]))]
    pol = rng.choice([{'kind': 'uniform'}, {'kind': 'sticky', 'stick': rng.choice([4.0, 20.0])},
                      {'kind': 'prio', 'change': rng.choice([0.0, 0.01, 0.1])},
                      {'kind': 'starve', 'who': [rng.choice(['net', 'rank%d' % rng.randrange(size)])]}])
    return {'size': size, 'grid': sp,
            'protocol': rng.choice(['mixed', 'mixed', 'rendezvous', 'eager']),
            'sync': rng.random() < 0.5, 'poison': rng.random() < 0.8, 'policy': pol,
            'json': {'remesh_nsteps_max': rng.choice([1, 2, 3])},
            'io_points': rng.random() < 0.3, 'mode': rng.choice(['', '', 'dry', 'wild'])}


def simulate(scn, ctx):
    """Run crys.py on scn['size'] simulated ranks.

    :return: dict with everything observed
    """
    size = scn['size']
    root = ctx.dir('disk')
    for d in ('run', 'cases/grids', 'views', 'tmp'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    g = grids.build(scn['grid'])
    fs = fsim.FileSystem(root, ctx.choices, None, scn['sched_seed'])
    grid_path = os.path.join(fs.root, 'cases/grids/bunny.dat')
    nfaces = sum(len(z['faces']) for z in g['zones'])
    for r in range(size):
        n = 0
        for z in g['zones']:
            for d in z['data']:
                for k, v in enumerate(g['vars']):
                    if v in VARS:
                        d[k] = rank_value(r, n, v, scn.get('mode', ''))
                n += 1
        p = os.path.join(root, 'views/rank%d.dat' % r)
        grids.write_dat(p, g)
        fs.views[('rank%d' % r, grid_path)] = p
        if r == 0:
            grids.write_dat(grid_path, g)
    with fsim.real_open(os.path.join(root, 'cases/grids/bunny.json'), 'w') as f:
        import json
        json.dump(scn['json'], f)
    world.tmp_inside(root)

    kernel = Kernel(ctx.choices, dict(scn['policy']), max_steps=60000)
    fs.kernel = kernel
    fs.schedule = scn.get('io_points', False)
    w = mpi.World(kernel, size, {'protocol': scn['protocol'], 'sync_collectives': scn['sync'],
                                 'poison': scn['poison']}, ctx.probe)
    import multiprocessing
    multiprocessing.Pool = mpi.FakePool
    mpi.FakePool.kernel = kernel
    obs = {'size': size, 'snap': {}, 'grids': {}, 'results': {}, 'pending': {}, 'remesh': None, 'world': w,
           'kernel': kernel, 'fs': fs, 'root': root, 'nfaces': nfaces, 'g': g, 'p2p': {}}

    over = [False]          # set when the scheduler stops: what unwinds later is not an outcome

    def take_snapshot(rank):
        gs = obs['grids'].get(rank)
        if gs:
            obs['snap'][rank] = snapshot(gs[-1])

    def on_collective(rank, name):
        if 'ather' in name and rank not in obs['snap']:
            take_snapshot(rank)
    w.on_collective = on_collective

    def rank_main(rank):
        def fn():
            import gsu
            obs['grids'][rank] = []
            init = gsu.Grid.__init__

            def recording(self, *a, **k):
                init(self, *a, **k)
                obs['grids'][rank].append(self)
            gsu.Grid.__init__ = recording
            import remeshing
            orig = remeshing.TongRemesher.__call__

            def remesh(self, grid, *a, **k):
                if obs['remesh'] is None:
                    obs['remesh'] = (rank, [(f.GloId, f.Data.get('Hi')) for f in grid.Faces])
                return orig(self, grid, *a, **k)
            remeshing.TongRemesher.__call__ = remesh
            if scn.get('solver'):
                import swim
                swim.hi = fake_hi
            return mods.run_script('crys.py', [])
        return fn

    def task_main(rank, proc):
        def run():
            r = world.body(fs, proc, rank_main(rank))
            if rank not in obs['snap']:
                take_snapshot(rank)
            obs['pending'][rank] = [q.kind for q in w.requests
                                    if q.comm is not None and q.comm.rank == rank and not q.complete
                                    and q.kind in ('send', 'recv')]
            if not over[0]:
                obs['results'][rank] = r
            return r
        return run
    with fsim.using(fs):
        for r in range(size):
            p = Proc('rank%d' % r, os.path.join(root, 'run'), seed=r, rank=r)
            m, M = mpi.make_modules(w, r)
            p.modules = {'mpi4py': m, 'mpi4py.MPI': M}
            kernel.spawn('rank%d' % r, task_main(r, p), p)
        kernel.on_end = lambda: over.__setitem__(0, True)
        kernel.run()
    obs['grids'] = None
    ctx.count('messages', w.sent)
    ctx.count('steps', kernel.steps)
    ctx.count('context_switches', kernel.switches)
    ctx.sim_time += kernel.now
    ctx.log += kernel.trace
    import hashlib
    if size > 1:
        ctx.sigs.add(hashlib.sha1('|'.join(kernel.trace).encode()).hexdigest()[:16])
    ctx.count('fault:delayed_delivery', w.delivered)
    if scn['policy']['kind'] == 'starve':
        ctx.count('fault:stalled_rank_or_network')
    ctx.count('fault:rendezvous_transfers', ctx.stats.get('probe:rendezvous_transfer', 0))
    if scn['poison']:
        ctx.count('fault:undefined_receive_buffers', w.sent)
    for t in kernel.tasks:
        if t.exc is not None and t.name not in obs['results']:
            raise HarnessError('task %s: %s' % (t.name, t.tb))
    ctx.sample = {'ranks': size, 'faces': nfaces, 'grid': scn['grid']['parts'], 'protocol': scn['protocol'],
                  'policy': scn['policy']['kind'], 'steps': kernel.steps, 'messages': w.sent,
                  'trace_head': kernel.trace[:12]}
    return obs


def snapshot(g):
    """Plain copy of the ownership and the values of a grid."""
    zones = [[f.GloId for f in z.Faces] for z in g.Zones]
    data = {f.GloId: {k: float(f.Data[k]) for k in VARS if k in f.Data} for f in g.Faces}
    edges = {}
    for f in g.Faces:
        ns = [n.GloId for n in f.Nodes]
        for a, b in ((0, 1), (1, 2), (0, 2)):
            edges.setdefault((min(ns[a], ns[b]), max(ns[a], ns[b])), []).append(f.GloId)
    return {'zones': zones, 'data': data, 'edges': edges}


def must_finish(obs):
    """Common liveness part: every rank ended normally."""
    k = obs['kernel']
    for r in sorted(obs['results']):
        res = obs['results'][r]
        if not res.ok:
            raise Violation('rank-failed', 'rank %d of %d: %s' % (r, obs['size'], res.exc or res.status))
    if k.deadlock:
        raise Violation('deadlock', 'ranks wait for ever: %s' % k.deadlock)
    if k.overrun:
        raise Violation('no-progress', 'not finished within %d steps' % k.max_steps)


def owners(obs):
    """Global face -> owning rank, and agreement of all ranks about it."""
    own = None
    for r, s in sorted(obs['snap'].items()):
        o = {}
        for k, fs in enumerate(s['zones']):
            for f in fs:
                o[f] = k
        if len(s['zones']) != obs['size'] or len(o) != obs['nfaces']:
            raise Violation('partition', 'rank %d: %d zones, %d faces owned of %d'
                            % (r, len(s['zones']), len(o), obs['nfaces']))
        if own is None:
            own = o
        elif own != o:
            raise Violation('partition', 'ranks disagree about the owners of faces')
    return own


class CrysCheck(Check):
    NEED_SWIM = True
    REAL = ['crys.py (all of it)', 'split.py', 'gsu/*', 'zones_adjacency_matrix', 'remeshing.TongRemesher',
            'swim extension (built from cpp/)', 'numpy']
    STUBS = ['mpi4py.MPI (simulated: eager/rendezvous, arbitrary delivery order across channels, collectives)',
             'multiprocessing.Pool (in-process, order chosen by the simulator)',
             'solver step (C02: in a third of the runs a stub with the same interface whose heights also fall and '
             'depend on the other values of the face)',
             'disk (scratch directory behind the I/O seam, per-rank contents of the input grid)']
    ASSUMPTIONS = ['MPI semantics as in the MPI 4 standard (non-overtaking, buffers undefined until completion); a '
                   'rendezvous message is read from the sender buffer at transfer time',
                   'the per-rank solver state is represented by per-rank contents of the input grid file']
    RULE = ('seeded random grid (sheet/tube/torus/closed/strips, 1-4 components, 1-5 zones), 1-8 ranks, protocol '
            '(eager/rendezvous/mixed per message), collective synchronisation, scheduling policy; every scheduling '
            'step, message delivery and transfer chosen from the seed.  Non-trivial: more than one rank and at least '
            'one message; distinct = different full schedule trace')
    RUNS = {'quick': 3500, 'thorough': 30000}
    WALL = {'quick': 110, 'thorough': 1500}

    def gen(self, rng, i, tier):
        return gen_crys(rng, i, tier)

    def valid(self, scn):
        sp = scn['grid']
        return (scn['size'] >= 1 and sp['parts'] and all(len(p) == 2 and p[1] >= 1 for p in sp['parts']) and
                sp['zones'] >= 1 and scn['json'].get('remesh_nsteps_max', 0) >= 1 and scn['policy'].get('kind') and
                all(w for w in scn['policy'].get('who', ['net'])))

    def run(self, scn, ctx):
        obs = simulate(scn, ctx)
        ctx.nontrivial = obs['size'] > 1 and obs['world'].sent > 0
        self.judge(scn, ctx, obs)


class C01(CrysCheck):
    ID = 'C01'

    def judge(self, scn, ctx, obs):
        must_finish(obs)
        own = owners(obs)
        mode = scn.get('mode', '')
        checked = 0
        for r, s in sorted(obs['snap'].items()):
            ghosts = set()
            for fs in s['edges'].values():
                if len(fs) == 2:
                    a, b = fs
                    if own[a] == r and own[b] != r:
                        ghosts.add(b)
                    if own[b] == r and own[a] != r:
                        ghosts.add(a)
            for f in sorted(s['data']):
                for v in VARS:
                    got = s['data'][f].get(v)
                    if own[f] == r:
                        want, what = rank_value(r, f, v, mode), 'own'
                    elif f in ghosts:
                        want, what = rank_value(own[f], f, v, mode), 'ghost'
                        checked += 1
                    else:
                        want, what = rank_value(r, f, v, mode), 'foreign'
                    if got != want:
                        raise Violation('wrong-%s-value' % what, 'rank %d: %s face %d (owner %d): %s = %r, expected %r'
                                        % (r, what, f, own[f], v, got, want))
        ctx.count('ghost_values_checked', checked)
        if checked == 0:
            ctx.nontrivial = False


class C02(CrysCheck):
    ID = 'C02'
    RUNS = {'quick': 2500, 'thorough': 20000}

    def gen(self, rng, i, tier):
        s = gen_crys(rng, i, tier)
        if rng.random() < 0.7:
            # Sizes that do not divide evenly are where routing by offsets is delicate.
            s['size'] = rng.choice([2, 3, 4, 5, 7])
        if s['mode'] != 'wild' and rng.random() < 0.35:
            s['solver'] = 'melt'
        return s

    def judge(self, scn, ctx, obs):
        must_finish(obs)
        own = owners(obs)
        if obs['remesh'] is None:
            raise Violation('no-remesh', 'no rank rebuilt the surface')
        rank, his = obs['remesh']
        mode = scn.get('mode', '')
        solver = scn.get('solver')
        # The solver step of the extension adds 2 to every height of the rank's own faces.
        bad = []
        for f, h in his:
            want = want_hi(own[f], f, mode, solver)
            if h is None or not abs(h - want) < 1e-9:
                bad.append((f, h, want))
        if len(his) != obs['nfaces']:
            raise Violation('faces-lost', '%d faces instead of %d are rebuilt' % (len(his), obs['nfaces']))
        if bad:
            f, h, want = bad[0]
            src = [(q, r) for r in range(obs['size']) for q in own
                   if own[q] == r and h is not None and abs(want_hi(r, q, mode, solver) - h) < 1e-12]
            raise Violation('wrong-height', '%d of %d faces get a wrong height at the root; face %d (owner %d) gets %r '
                            'instead of %r%s' % (len(bad), len(his), f, own[f], h, want,
                                                 ' (the height of face %d of rank %d)' % src[0] if src else ''))
        out = os.path.join(obs['root'], 'remeshed.dat')
        if not os.path.exists(out):
            raise Violation('no-output', 'no remeshed grid is stored')
        try:
            r = grids.parse_dat(out)
        except grids.FormatError as e:
            raise Violation('bad-output', 'remeshed grid: %s' % e)
        ref = self.reference(scn, ctx, obs, own, rank)
        if ref is not None:
            if len(ref['zones']) != len(r['zones']):
                raise Violation('wrong-output', '%d zones instead of %d' % (len(r['zones']), len(ref['zones'])))
            for zi, (a, b) in enumerate(zip(ref['zones'], r['zones'])):
                if a['name'] != b['name'] or a['faces'] != b['faces'] or len(a['nodes']) != len(b['nodes']):
                    raise Violation('wrong-output', 'zone %d has another structure than in a sequential run' % zi)
                for j, (p, q) in enumerate(zip(a['nodes'], b['nodes'])):
                    if any(abs(x - y) > 1e-7 * (1 + abs(x)) for x, y in zip(p, q)):
                        raise Violation('wrong-output', 'zone %d node %d is at %r; a sequential run puts it at %r'
                                        % (zi, j, q, p))
                for j, (p, q) in enumerate(zip(a['data'], b['data'])):
                    if len(p) != len(q) or any(abs(x - y) > 1e-9 * (1 + abs(x)) for x, y in zip(p, q)):
                        raise Violation('wrong-output', 'zone %d face %d has values %r, after a sequential run %r'
                                        % (zi, j, q, p))
            if ref['vars'] != r['vars']:
                raise Violation('wrong-output', 'variables %r instead of %r' % (r['vars'], ref['vars']))
            ctx.count('outputs_compared_with_sequential_run')

    def reference(self, scn, ctx, obs, own, rank=0):
        """The same solver step and rebuild executed by one process."""
        d = ctx.dir('ref')
        fs = fsim.FileSystem(d, None, None, 1)
        src = os.path.join(obs['root'], 'views/rank0.dat')
        mode, solver = scn.get('mode', ''), scn.get('solver')
        heights = {f: want_hi(own[f], f, mode, solver) for f in own}
        import shutil
        shutil.copy(src, os.path.join(d, 'bunny.dat'))
        shutil.copy(os.path.join(obs['root'], 'cases/grids/bunny.json'), os.path.join(d, 'bunny.json'))

        def fn():
            from split import split
            from remeshing import TongRemesher
            g = split('bunny.dat', cry_dir='.', out_dat_file='res.dat', split_strategy='n%d' % obs['size'])
            for f in g.Faces:
                # (border values which the root has got from other ranks are judged by C01)
                f.Data.update(obs['snap'][rank]['data'][f.GloId])
                f.Data['Hi'] = heights[f.GloId]
            TongRemesher(mesh_filename='bunny.dat', json_file='bunny.json', outdir='./')(g)
            g.store('remeshed.dat')
            return 0
        res, _ = world.call(fs, 'ref', fn, d)
        if not res.ok:
            return None
        return grids.parse_dat(os.path.join(d, 'remeshed.dat'))


class C03(CrysCheck):
    ID = 'C03'
    RUNS = {'quick': 3500, 'thorough': 40000}

    def gen(self, rng, i, tier):
        s = gen_crys(rng, i, tier)
        if rng.random() < 0.5:
            s['protocol'] = 'rendezvous'
        # All ranks write the same res.dat: real ranks write the same bytes, so values here must have the same width.
        s['mode'] = rng.choice(['', 'dry'])
        return s

    def judge(self, scn, ctx, obs):
        must_finish(obs)
        for r in sorted(obs['pending']):
            if obs['pending'][r]:
                raise Violation('leaked-request', 'rank %d ends with %d unfinished operations (%s): their buffers are '
                                'reused or released while the transfer may be in progress'
                                % (r, len(obs['pending'][r]), ', '.join(sorted(set(obs['pending'][r])))))
        left = obs['world'].leftovers()
        if left:
            raise Violation('leaked-message', '; '.join(left[:4]))
        for f in ('res.dat', 'remeshed.dat'):
            p = os.path.join(obs['root'], f)
            try:
                g = grids.parse_dat(p)
                n = sum(len(z['faces']) for z in g['zones'])
            except (OSError, grids.FormatError) as e:
                raise Violation('bad-output', '%s: %s' % (f, e))
            if n != obs['nfaces']:
                raise Violation('bad-output', '%s has %d faces instead of %d' % (f, n, obs['nfaces']))
