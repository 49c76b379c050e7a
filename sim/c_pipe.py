"""
C09, C10: the cycle split -> parallel solver -> merge -> remesh, and the files a parallel solver starts from.

The solver is a stub (the real one is not in the repository): a stencil program, one simulated process per *.cry
file, which knows nothing but its own file and the messages of its neighbours.
"""

import json
import math
import os
import random

from . import crycheck, fsim, grids, model, tools, world
from .c_tools import CRASH, FAILING, REAL_TOOLS, fault_spec, place_fault, valid_job
from .core import HarnessError, Kernel, Proc, Violation
from .runner import Check, derive


# -- reference -------------------------------------------------------------------------------------


def adjacency(g):
    """For every face: the faces behind its three edges (None - border of the surface)."""
    fs = grids.faces(g)
    edges = {}
    for i, (c, _, _) in enumerate(fs):
        for k in range(3):
            edges.setdefault(frozenset((c[k], c[(k + 1) % 3])), []).append(i)
    r = []
    for i, (c, _, _) in enumerate(fs):
        row = []
        for k in range(3):
            e = edges[frozenset((c[k], c[(k + 1) % 3]))]
            row.append(next((x for x in e if x != i), None))
        r.append(row)
    return r


def update(own, nbs):
    """One step of the stencil on one face: own values and the values behind its edges (any order)."""
    t = own[0] * 0.7 + 0.1 * sum(sorted(n[0] for n in nbs))
    hw = own[1] + 0.01 * sum(sorted(n[1] - own[1] for n in nbs)) + 1e-6
    hi = own[2] * 0.5 + 1e-4 + 1e-3 * max(n[2] for n in nbs)
    # Some faces stay dry, some get almost nothing.
    hi *= [1.0, 1.0, 1.0, 1.0, 0.0, 1e-8, 1e-14, 1.0][int(t * 64.0) % 8]
    return (t, hw, hi)


def initial(d):
    return (d.get('T', 0.0), d.get('Hw', 0.0), d.get('Hi', 0.0))


def sequential(g, steps):
    adj = adjacency(g)
    v = [initial(d) for _, d, _ in grids.faces(g)]
    out = [v]
    for _ in range(steps):
        v = [update(v[i], [v[n] if n is not None else v[i] for n in adj[i]]) for i in range(len(v))]
        out.append(v)
    return out


# -- solver ----------------------------------------------------------------------------------------


class Net:
    """Reliable ordered channels with arbitrary delays."""

    def __init__(self):
        self.ch = {}
        self.inbox = {}
        self.delivered = 0
        self.sent = 0

    def send(self, src, dst, tag, data):
        self.ch.setdefault((src, dst), []).append((tag, data))
        self.sent += 1

    def events(self):
        return [('net %d>%d' % k, lambda k=k: self.deliver(k)) for k in sorted(self.ch) if self.ch[k]]

    def deliver(self, k):
        tag, data = self.ch[k].pop(0)
        self.inbox[(k[0], k[1], tag)] = data
        self.delivered += 1


class BadFile(Exception):
    pass


def solver(rank, path, steps, kernel, net, result, write=None):
    """One rank of the stub solver."""
    with open(path) as f:
        text = f.read()
    try:
        c = grids.parse_cry(text=text)
    except (grids.FormatError, ValueError, IndexError) as e:
        raise BadFile('%s: %s' % (os.path.basename(path), e))
    if c['rank'] != rank:
        raise BadFile('%s: MPI=%d' % (os.path.basename(path), c['rank']))
    nf = len(c['gloid'])
    by_edge = {}
    for j, t in enumerate(c['fe']):
        for e in t:
            by_edge.setdefault(e, []).append(j)
    border = {}
    for k, es in c['borders']:
        for e in es:
            border[e] = k
    vals = [initial(d) for d in c['data']]
    if write:
        write(0, c['gloid'], vals)
    for s in range(steps):
        for k, es in c['borders']:
            for e in es:
                if len(by_edge.get(e, ())) != 1:
                    raise BadFile('rank %d: border edge %d has %d own faces' % (rank, e, len(by_edge.get(e, ()))))
            net.send(rank, k, s, [vals[by_edge[e][0]] for e in es])
            kernel.point('sent')
        ghost = {}
        for k, es in c['borders']:
            kernel.block(lambda k=k: (k, rank, s) in net.inbox, 'message of %d' % k)
            got = net.inbox.pop((k, rank, s))
            if len(got) != len(es):
                raise BadFile('rank %d gets %d values from %d for %d edges' % (rank, len(got), k, len(es)))
            for e, v in zip(es, got):
                ghost[e] = v
        new = []
        for j in range(nf):
            nbs = []
            for e in c['fe'][j]:
                o = [x for x in by_edge[e] if x != j]
                nbs.append(vals[o[0]] if o else ghost.get(e, vals[j]))
            new.append(update(vals[j], nbs))
        vals = new
        if write:
            write(s + 1, c['gloid'], vals)
    result[rank] = dict(zip(c['gloid'], vals))


def policy(rng, n):
    return rng.choice([{'kind': 'uniform'}, {'kind': 'sticky', 'stick': rng.choice([4.0, 20.0])},
                       {'kind': 'prio', 'change': rng.choice([0.01, 0.1])},
                       {'kind': 'starve', 'who': [rng.choice(['net', 'rank%d' % rng.randrange(n)])]}])


STUBS = ['the parallel solver (stencil program on simulated ranks and network)', 'disk, clock, process boundary']


class C10(Check):
    ID = 'C10'
    RUNS = {'quick': 9000, 'thorough': 100000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct schedules (order of rank steps and message deliveries) of the simulated parallel solver'
    REAL = ['split.py', 'gsu/*', 'geom/*', 'utils.py']
    STUBS = STUBS
    ASSUMPTIONS = ['the solver reads the files as documented (strict independent reader)',
                   'channels between ranks are reliable and ordered; delays and rank speeds are arbitrary']

    def gen(self, rng, i, tier):
        j = tools.gen_job(rng, 'split_c', small=(tier == 'quick' and rng.random() < 0.6))
        if rng.random() < 0.002:
            j['grid'] = grids.spec(rng, huge=1.0, vars=j['grid']['vars'])
        scn = {'job': j, 'steps': rng.choice([1, 1, 2, 4]), 'policy': policy(rng, 4), 'io': world.io_profile(rng)}
        if rng.random() < 0.06:
            scn['refuse'] = {'what': rng.choice(['zone', 'zone', 'strategy', 'many']), 'pick': rng.randrange(1000),
                             'after': rng.random() < 0.5}
        return scn

    def refused(self, scn, ctx, job, fs, root):
        """A request which cannot be satisfied fails and changes nothing."""
        q, m = scn['refuse'], job.model
        d = os.path.join(root, m['dir'])
        if q['after']:
            r, p = world.script(fs, 'split', job.rel, job.args, job.cwd, scn['sched_seed'], (), scn['io'])
            if not r.ok:
                raise Violation('split-fails', 'split.py %r: %r' % (scn['job']['strategy'], r), tb=r.tb)
        names = [z['name'] for z in m['g']['zones']]
        fixed, strategy = list(m['fixed']), m['strategy']
        if q['what'] == 'zone':
            other = next(x for x in ('no such zone', 'another', 'one more') if x not in names)
            fixed.insert(q['pick'] % (len(fixed) + 1), other)
        elif q['what'] == 'strategy':
            bad = ['x3', 'q', 'n0', 'h', 'n', '3', 'nn2', 'n2.5', 'z']
            strategy = bad[q['pick'] % len(bad)]
        else:
            fixed = fixed or [names[q['pick'] % len(names)]]
            strategy = 'n%d' % (1 + q['pick'] % len([x for x in names if x in fixed]))
        tools.put(root, 'refuse.json', json.dumps({'heating_system': {'elements': [{'zone': z} for z in fixed]}}))
        args = [job.args[0], job.args[1], job.args[2], '-s', strategy, '-j', os.path.join(root, 'refuse.json')]
        was = grids.snapshot(d) if os.path.isdir(d) else {}
        r, p = world.script(fs, 'split', job.rel, args, job.cwd, scn['sched_seed'], (), scn['io'])
        now = grids.snapshot(d) if os.path.isdir(d) else {}
        ctx.log.append(['refused', q['what'], strategy, fixed, r.status])
        ctx.sigs.add('refused %s %s' % (q['what'], strategy))
        ctx.count('requests which cannot be satisfied')
        what = 'strategy %r, fixed zones %r, zones %r' % (strategy, fixed, names)
        if r.ok:
            raise Violation('not-refused', 'split.py reports success: ' + what)
        if now != was:
            raise Violation('refused-changes', 'split.py fails, but has changed %r: %s'
                            % (sorted(k for k in set(was) | set(now) if was.get(k) != now.get(k))[:3], what))
        ctx.nontrivial = True

    def valid(self, scn):
        return scn['steps'] >= 1 and valid_job(scn['job']) and all(v >= 1 for v in scn['io'].values())

    def run(self, scn, ctx):
        root = os.path.realpath(ctx.dir('disk'))
        job = tools.make(scn['job'], root)
        world.tmp_inside(root)
        fs = fsim.FileSystem(root, ctx.choices, None, scn['sched_seed'])
        if scn.get('refuse'):
            return self.refused(scn, ctx, job, fs, root)
        r, p = world.script(fs, 'split', job.rel, job.args, job.cwd, scn['sched_seed'], (), scn['io'])
        if not r.ok:
            raise Violation('split-fails', 'split.py %r: %r' % (scn['job']['strategy'], r), tb=r.tb)
        m = job.model
        d = os.path.join(root, m['dir'])
        files, e = crycheck.read_set(d, m['nm'], m['ts'])
        if e:
            raise Violation('bad-file', e)
        e = crycheck.check_files(m['g'], files, m['strategy'], m['fixed'], m['rf'])
        if e:
            raise Violation('inconsistent-set', e)
        n = len(files)
        kernel = Kernel(ctx.choices, dict(scn['policy']), max_steps=100000)
        fs.kernel, fs.schedule = kernel, False
        net = Net()
        kernel.sources.append(net)
        result, ends = {}, {}
        with fsim.using(fs):
            for k in range(n):
                proc = Proc('rank%d' % k, d, k)

                def main(k=k, proc=proc):
                    path = os.path.join(d, '%s_%05d_%s.cry' % (m['nm'], k, m['ts']))
                    ends[k] = world.body(fs, proc, lambda: solver(k, path, scn['steps'], kernel, net, result))
                kernel.spawn('rank%d' % k, main, proc)
            kernel.run()
        bad = [x for x in ends.values() if not x.ok and 'BadFile' in (x.exc or '')]
        if bad:
            raise Violation('solver-fails', '%r' % bad[0])
        if kernel.deadlock:
            raise Violation('solver-hangs', 'ranks wait for each other: %r' % kernel.deadlock[:3])
        if kernel.overrun or len(result) != n:
            raise HarnessError('solver: %r' % ends)
        want = sequential(m['g'], scn['steps'])[-1]
        got = {}
        for k in range(n):
            got.update(result[k])
        for i, v in enumerate(want):
            if got.get(i) != v:
                raise Violation('parallel-differs', 'face %d: %r on %d ranks instead of %r' % (i, got.get(i), n, v))
        ctx.nontrivial = n > 1 and net.sent > 0
        ctx.count('messages', net.sent)
        ctx.count('ranks', n)
        ctx.count('fault:delayed_delivery', net.delivered)
        if scn['policy']['kind'] == 'starve':
            ctx.count('fault:stalled_rank_or_network')
        ctx.sim_time += kernel.now
        ctx.log += kernel.trace
        ctx.sigs.add('%x' % derive(*kernel.trace))
        ctx.probe('ranks_%s' % min(n, 9))
        ctx.sample = {'strategy': m['strategy'], 'fixed': m['fixed'], 'ranks': n, 'faces': len(want),
                      'messages': net.sent, 'trace_head': kernel.trace[:10]}


class C09(Check):
    ID = 'C09'
    RUNS = {'quick': 1700, 'thorough': 40000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct schedules of the solver phases together with the interruptions of the tools'
    REAL = [x for x in REAL_TOOLS if 'convert' not in x and 'drops' not in x]
    STUBS = STUBS
    ASSUMPTIONS = C10.ASSUMPTIONS + ['a dying rank ends the whole parallel job; the job is then started again']

    def gen(self, rng, i, tier):
        cycles = rng.choice([1, 1, 2, 2, 3])
        g = grids.spec(rng, 4, 16 if tier == 'quick' else 30, big=0.03, kinds=['sheet', 'plane', 'tube', 'octa', 'fan'], comps=False,
                       vars=rng.choice([grids.BASE_VARS, grids.FULL_VARS]))
        cyc = []
        for _ in range(cycles):
            cyc.append({'strategy': rng.choice(['n1', 'n2', 'n3', 'n4', 'h1', 'h2', 'h3', 'h3' if rng.random() < 0.6 else 'n11']),
                        'fixed': rng.choice([0, 0, 1]),
                        'steps': rng.choice([1, 2, 3]), 'policy': policy(rng, 4),
                        'dt': rng.choice([1, 10, 1000, 98765432100]),
                        'job_kill': rng.randrange(1000000) if rng.random() < 0.35 else None,
                        'early_merge': rng.random() < 0.4,
                        'bad': {t: [fault_spec(rng, CRASH + FAILING) for _ in range(rng.choice([1, 1, 2]))]
                                for t in ('split', 'merge', 'remesh') if rng.random() < 0.3},
                        'io': world.io_profile(rng), 'twice': rng.random() < 0.2, 'zero': rng.random() < 0.25,
                        'tidy': rng.random() < 0.7})
        return {'grid': g, 'stem': rng.choice(tools.STEMS), 'cycles': cyc, 'rough': rng.random() < 0.5, 'twins': rng.random() < 0.15,
                'same_dir': rng.random() < 0.3, 'nest': rng.random() < 0.3}

    def valid(self, scn):
        try:
            return (scn['cycles'] and scn['stem'] and scn['grid']['parts'] and
                    all(p[1] >= 1 for p in scn['grid']['parts']) and scn['grid']['zones'] >= 1 and
                    all(c['steps'] >= 1 and c['dt'] >= 1 and int(c['strategy'][1:]) >= 1 and
                        all(v >= 1 for v in c['io'].values()) for c in scn['cycles']))
        except (ValueError, KeyError, IndexError):
            return False

    def tool(self, ctx, root, scn, cyc, name, rel, args, seed):
        """Run a tool; before that, possibly, interrupted attempts."""
        fs = fsim.FileSystem(root, ctx.choices, None, seed)
        for f in cyc['bad'].get(name, ()):
            f = dict(f)
            f['at'] = f.pop('pos') % 60
            r, p = world.script(fs, name, rel, args, root, seed, [f], cyc['io'])
            for k, v in fs.fired.items():
                ctx.count('fault:' + k, v)
            ctx.log.append([name, r.status, sorted(fs.fired)])
            fs = fsim.FileSystem(root, ctx.choices, None, seed)
        for _ in range(2 if cyc['twice'] else 1):
            r, p = world.script(fs, name, rel, args, root, seed, (), cyc['io'])
            if not r.ok:
                raise Violation(name + '-fails', '%s %s: %r' % (rel, ' '.join(map(str, args)), r), tb=r.tb)
        ctx.sim_time += max(0.0, fs.clock - fs.base_clock)
        ctx.log.append([name, len(p.ops)])

    def solve(self, ctx, root, scn, cyc, nm, ts0, crydir, txtdir, n, merge_args, kill):
        """The parallel job.

        :return: True if it has run to its end
        """
        kernel = Kernel(ctx.choices, dict(cyc['policy']), max_steps=200000)
        fs = fsim.FileSystem(root, ctx.choices, kernel, scn['sched_seed'])
        net = Net()
        kernel.sources.append(net)
        result, ends = {}, {}
        os.makedirs(os.path.join(root, txtdir), exist_ok=True)
        t0 = int(ts0)

        def writer(rank):
            rows = []

            def write(s, gloid, vals):
                if s == 0 and not cyc.get('zero'):
                    return
                ts = '%012d' % (t0 + s * cyc['dt'])
                with open('%s/%s_%05d_%s.txt' % (txtdir, nm, rank, ts), 'w') as f:
                    f.write(tools.txt_text(list(zip(gloid, vals))))
                rows.append([float(s)] + csv_row(gloid, vals, scn))
                with open('%s/%s_%05d.csv' % (txtdir, nm, rank), 'w') as f:
                    f.write(tools.csv_text(rows))
            return write
        procs = []
        with fsim.using(fs):
            for k in range(n):
                proc = Proc('rank%d' % k, root, k)
                proc.io = dict(cyc['io'])
                procs.append(proc)

                def main(k=k, proc=proc):
                    path = '%s/%s_%05d_%s.cry' % (crydir, nm, k, ts0)
                    ends[k] = world.body(fs, proc, lambda: solver(k, path, cyc['steps'], kernel, net, result,
                                                                  writer(k)))
                kernel.spawn('rank%d' % k, main, proc)
            if cyc['early_merge']:
                # The user looks at intermediate results while the job is running.
                from . import mods
                proc = Proc('early', root, 99)

                def early():
                    world.body(fs, proc, lambda: mods.run_script('merge.py', merge_args))
                kernel.spawn('early', early, proc)
                ctx.count('merges during the job')
            if kill is not None:
                at = kill % ((12 if kill % 2 else 40) * n * cyc['steps'])

                def watch():
                    if kernel.steps >= at:
                        kernel.stop = True
                kernel.invariant = watch
            kernel.run()
        ctx.log += kernel.trace
        ctx.sim_time += kernel.now
        ctx.sigs.add('%x' % derive(*kernel.trace))
        ctx.count('messages', net.sent)
        ctx.count('fault:delayed_delivery', net.delivered)
        if kernel.stop:
            ctx.count('fault:job_killed')
            return False
        bad = [x for x in ends.values() if not x.ok]
        if bad:
            raise Violation('solver-fails', '%r' % bad[0], tb=bad[0].tb)
        if kernel.deadlock or kernel.overrun or len(result) != n:
            raise Violation('solver-hangs', '%r' % (kernel.deadlock,))
        return True

    def run(self, scn, ctx):
        root = os.path.realpath(ctx.dir('disk'))
        nm = scn['stem']
        g = grids.build(scn['grid'])
        cur = 'case/%s.dat' % nm
        tools.put(root, cur, grids.dat_text(g))
        tools.put(root, 'case/%s.remesh.json' % nm, json.dumps({'remesh_nsteps_max': 1}))
        world.tmp_inside(root)
        ts0 = '000000000000'
        for c, cyc in enumerate(scn['cycles']):
            seed = derive(scn['sched_seed'], c) % (1 << 30)
            w = 'case' if scn['same_dir'] else 'c%d' % c
            cry, txt, rdir, out = w + '/cry%d' % c, w + '/txt%d' % c, w + '/r%d' % c, w + '/out%d' % c
            if scn['nest']:
                rdir = txt + '/r'
            names = [z['name'] for z in g['zones']]
            n = int(cyc['strategy'][1:])
            fixed = random.Random(seed).sample(names, min(cyc['fixed'], len(names)))
            nf = sum(x in fixed for x in names)
            if cyc['strategy'][0] == 'n' and nf >= n or nf == len(names):
                fixed = []
            # The first cycle's variables may contain everything; later ones only T, Hw, Hi.
            cfg = {'recovery_factor': 0.9375, 'heating_system': {'elements': [{'zone': z} for z in fixed]}}
            tools.put(root, 'case/cfg%d.json' % c, json.dumps(cfg))
            self.tool(ctx, root, scn, cyc, 'split', 'split.py',
                      [cur, '-c', cry, '-s', cyc['strategy'], '-j', 'case/cfg%d.json' % c], seed)
            e = crycheck.check_set(g, os.path.join(root, cry), nm, ts0, cyc['strategy'], fixed, 0.9375)
            if e:
                raise Violation('wrong-partition', 'cycle %d: %s' % (c, e))
            files, _ = crycheck.read_set(os.path.join(root, cry), nm, ts0)
            margs = [cur, txt, rdir]
            if cyc['job_kill'] is not None:
                self.solve(ctx, root, scn, cyc, nm, ts0, cry, txt, len(files), margs, cyc['job_kill'])
                if cyc.get('look', True):
                    self.look(ctx, root, scn, cyc, g, nm, txt, rdir, margs, seed)
            if not self.solve(ctx, root, scn, cyc, nm, ts0, cry, txt, len(files), margs, None):
                raise HarnessError('the job was stopped')
            self.tool(ctx, root, scn, cyc, 'merge', 'merge.py', margs, seed)
            ref = sequential(g, cyc['steps'])
            owner = {x: r for r, f in enumerate(files) for x in f['gloid']}
            last = None
            # (the solver may also write the state it starts from)
            first = 0 if cyc.get('zero') else 1
            for s in range(first, cyc['steps'] + 1):
                ts = '%012d' % (int(ts0) + s * cyc['dt'])
                h = self.parse(root, '%s/%s_r_%s.dat' % (rdir, nm, ts), 'merge')
                d = grids.same_grid(tools.merged_grid(g, {i: list(v) for i, v in enumerate(ref[s])}), h)
                if d:
                    raise Violation('wrong-merge', 'cycle %d, time %s: %s' % (c, ts, d))
                last = ts
            tables = []
            for r, f in enumerate(files):
                tables.append([[float(s)] + csv_row(f['gloid'], [ref[s][x] for x in f['gloid']], scn)
                               for s in range(first, cyc['steps'] + 1)])
            e = tools.check_csv(os.path.normpath(os.path.join(root, rdir, '..', nm + '.csv')), tables)
            if e:
                raise Violation('wrong-csv', 'cycle %d: %s' % (c, e))
            # Grow the ice.
            self.tool(ctx, root, scn, cyc, 'remesh', 'remesh.py',
                      ['-d', rdir, '-o', out, '-j', 'case/%s.remesh.json' % nm], seed)
            for s in range(first, cyc['steps'] + 1):
                ts = '%012d' % (int(ts0) + s * cyc['dt'])
                h = self.parse(root, '%s/%s' % (out, ('%s_r_%s.dat' % (nm, ts)).replace('_r_', '_')), 'remesh')
                want = tools.merged_grid(g, {i: [v[0], v[1], 0.0] for i, v in enumerate(ref[s])})
                grown = model.accreted(tools.merged_grid(g, {i: list(v) for i, v in enumerate(ref[s])}), {'nsteps_max': 1})
                if grown:
                    ctx.count('grids grown as in the model')
                e = same_but_moved(want, h, grown)
                if e:
                    raise Violation('wrong-remesh', 'cycle %d, time %s: %s' % (c, ts, e))
                if ts == last:
                    g = h
            cur = '%s/%s' % (out, ('%s_r_%s.dat' % (nm, last)).replace('_r_', '_'))
            ts0 = last
            ctx.nontrivial = ctx.nontrivial or len(files) > 1
            ctx.count('cycles')
        ctx.sample = {'grid': scn['grid']['parts'], 'stem': nm,
                      'cycles': [{k: c[k] for k in ('strategy', 'steps', 'early_merge')} for c in scn['cycles']]}

    def look(self, ctx, root, scn, cyc, g, nm, txt, rdir, margs, seed):
        """Merge what a killed job has left."""
        times, torn, shapes, tables = {}, [], set(), []
        for f in sorted(os.listdir(os.path.join(root, txt))):
            rel = txt + '/' + f
            if not f.startswith(nm + '_') or os.path.isdir(os.path.join(root, rel)):
                continue
            lines = tools.get(root, rel).split('\n')
            rows = [l.split(';' if f.endswith('.csv') else None) for l in lines[1:-1]]
            if not rows or lines[-1] != '' or any(len(r) != (10 if f.endswith('.csv') else 4) for r in rows):
                torn.append(rel)
            elif f.endswith('.csv'):
                tables.append(rel)
                shapes.add(len(lines))
            else:
                v = times.setdefault(f[-16:-4], {})
                for r in rows:
                    v[int(r[0])] = dict(zip(tools.BASE, map(float, r[1:])))
        if len(shapes) > 1:
            torn += tables
        if torn and not cyc.get('tidy'):
            # The tool may refuse these files.
            return
        for rel in torn:
            os.remove(os.path.join(root, rel))
        fs = fsim.FileSystem(root, ctx.choices, None, seed)
        r, p = world.script(fs, 'merge', 'merge.py', margs, root, seed, (), cyc['io'])
        if not r.ok:
            raise Violation('merge-fails', 'merge of what a killed job has left: %r' % (r,), tb=r.tb)
        orig = [d for _, d, _ in grids.faces(g)]
        for ts, v in sorted(times.items()):
            h = self.parse(root, '%s/%s_r_%s.dat' % (rdir, nm, ts), 'merge')
            d = tools.check_merged(g, {i: v.get(i, orig[i]) for i in range(len(orig))}, h)
            if d:
                raise Violation('wrong-merge', 'merge of what a killed job has left, time %s: %s' % (ts, d))
        ctx.count('merges of a killed job')
        if any(len(v) < len(orig) for v in times.values()):
            ctx.count('merges of partial results')
            if len(times) > 1:
                ctx.count('merges of partial results of several times')

    def parse(self, root, rel, who):
        try:
            return grids.parse_dat(os.path.join(root, rel))
        except (OSError, grids.FormatError, ValueError, IndexError) as e:
            raise Violation('bad-output', '%s: %s: %s' % (who, rel, e))


def csv_row(gloid, vals, scn):
    rough = scn['rough']
    if scn.get('twins'):
        # Tables of all ranks are the same.
        return [1.0 / 3, 2.5e-7, 0.0, 4.0, 1e5, 0.1, 0.2, 0.3, 1.0]
    s = [sum(v[k] for _, v in sorted(zip(gloid, vals))) for k in range(3)]
    k = 1e3 if rough else 1.0
    return [s[0], s[1] * k, s[2], float(len(gloid)), s[0] / 3.0, s[1] * k, s[2] / 7.0, s[0] + s[2], 1.0]


def same_but_moved(a, b, grown=None):
    """Equality of two grids except for the coordinates of the nodes.

    grown : places of nodes by the reference model and tolerance
    :return: None or difference
    """
    if a['title'] != b['title'] or a['vars'] != b['vars']:
        return 'header %r %r instead of %r %r' % (b['title'], b['vars'], a['title'], a['vars'])
    if [z['name'] for z in a['zones']] != [z['name'] for z in b['zones']]:
        return 'zones %r' % [z['name'] for z in b['zones']]
    glob = {}
    for zi, (x, y) in enumerate(zip(a['zones'], b['zones'])):
        if len(x['faces']) != len(y['faces']) or len(x['nodes']) != len(y['nodes']):
            return 'zone %r: %d nodes and %d faces instead of %d and %d' \
                % (x['name'], len(y['nodes']), len(y['faces']), len(x['nodes']), len(x['faces']))
        m = {}
        for t, u in zip(x['faces'], y['faces']):
            for p, q in zip(t, u):
                if m.setdefault(p, q) != q:
                    return 'zone %r: connectivity differs' % x['name']
        if len(set(m.values())) != len(m):
            return 'zone %r: connectivity differs' % x['name']
        for p, q in m.items():
            # One node of the surface moves to one place, in all zones.
            old, new = tuple(x['nodes'][p]), tuple(y['nodes'][q])
            if glob.setdefault(old, new) != new:
                return 'node %r of zone %r has moved to two places' % (old, x['name'])
            if grown and not math.dist(grown[0][zi][p], new) <= grown[1]:
                return 'node %r of zone %r is at %r instead of %r' % (old, x['name'], new, grown[0][zi][p])
        if [list(d) for d in x['data']] != [list(d) for d in y['data']]:
            return 'zone %r: values of faces differ' % x['name']
    return None
