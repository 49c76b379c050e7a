"""
C04 - C08: the command-line tools on a simulated disk.
"""

import json
import os
import random
import subprocess
import sys

import numpy as np

from . import core, fsim, grids, mods, tools, world
from .core import HarnessError, Kernel, Proc, Violation
from .runner import Check, derive

FAILING = ['enospc', 'enospc', 'edquot', 'eio_write', 'eio_read', 'eacces_open', 'emfile_open', 'eio_close', 'eio_close',
           'enospc_open', 'eio_open', 'emkdir', 'elist', 'interrupt']
BENIGN = ['short_write', 'eintr_write', 'short_read', 'eintr_read', 'clock_jump']
CRASH = ['kill', 'kill', 'power']
DATA = ('.dat', '.cry', '.txt', '.csv')          # what another tool would take for its input

REAL_TOOLS = ['split.py', 'merge.py', 'remesh.py', 'remeshing.py', 'smoothing.py', 'drops.py',
              'convert/interpolate.py', 'convert/lazurit_to_crystal.py', 'convert/lazurit_add_beta_from_ansys.py',
              'convert/ansys_to_crystal.py', 'convert/gsu_converter.py', 'gsu/*', 'geom/*', 'utils.py',
              'CPython io stack (TextIOWrapper, Buffered*), numpy, scipy']
STUBS_TOOLS = ['raw file descriptors, directory operations, clock and sleep (simulated disk in a scratch directory)',
               'process boundary (argv, cwd, modules, stdout, random stream) simulated in one interpreter']


def fault_spec(rng, kinds):
    return {'kind': rng.choice(kinds), 'pos': rng.randrange(1000000), 'arg': rng.randrange(1 << 16)}


def line_fault(rng, p=0.1):
    """Ctrl-C or a failing allocation at some executed line of the tool."""
    return {'what': rng.choice(sorted(world.EXC)), 'pos': rng.randrange(1000000)} if rng.random() < p else None


def place_fault(f, ops):
    """Absolute position of a fault, from its relative one and the operations of an undisturbed run.

    :return: Fault spec or None if the run has no such operation
    """
    cls = fsim.Fault.APPLIES[f['kind']]
    n = sum(1 for o in ops if o[0] in cls)
    if n == 0:
        return None
    # Half of the weight on the last operations: tails of files, reports, closes.
    pos = f['pos']
    return {'kind': f['kind'], 'at': pos * n // 1000000, 'arg': f['arg']}


class Bench:
    """A job laid out on a simulated disk together with the record of its undisturbed run."""

    def __init__(self, scn, ctx, name='disk', with_decoys=True, stale=False):
        self.scn, self.ctx = scn, ctx
        self.root = os.path.realpath(ctx.dir(name))
        self.job = tools.make(scn['job'], self.root)
        self.io = scn.get('io', {})
        rng = random.Random(derive('decoys', scn['job']['seed']))
        self.decoys = tools.decoys(rng, self.job, self.root) if with_decoys else set()
        self.tmp = world.tmp_inside(self.root)
        self.before = grids.snapshot(self.root)
        self.dirs = all_dirs(self.root)
        self.seed = scn['sched_seed']
        self.lines = {}

    def reset(self, extra=None):
        grids.restore(self.root, dict(self.before, **(extra or {})))
        for d in sorted(all_dirs(self.root) - self.dirs, key=len, reverse=True):
            if not any(k.startswith(d + '/') for k in (extra or {})):
                try:
                    os.rmdir(os.path.join(self.root, d))
                except OSError:
                    pass
        world.tmp_inside(self.root)

    def fs(self, kernel=None):
        return fsim.FileSystem(self.root, self.ctx.choices, kernel, self.seed)

    def run(self, faults=(), io=None, fs=None, name='tool', line=None):
        """
        :param line: fault at an executed line; without self.lines - counted only
        """
        fs = fs or self.fs()
        it = None
        if line:
            n = self.lines.get('n')
            it = world.Interrupter(1 << 60 if n is None else line['pos'] * n // 1000000, world.EXC[line['what']])
        r, p = world.script(fs, name, self.job.rel, self.job.args, self.job.cwd, self.seed, faults,
                            self.io if io is None else io, interrupt=it)
        if it and it.fired:
            fs.fired[line['what']] = fs.fired.get(line['what'], 0) + 1
        elif it:
            self.lines['n'] = it.lines
        for k, n in fs.fired.items():
            self.ctx.count('fault:' + k, n)
        self.ctx.sim_time += max(0.0, fs.clock - fs.base_clock - sum(fs.clock_jumps))
        return r, p, fs

    def clean(self):
        """Undisturbed run; its outputs are judged by the independent model."""
        r, p, fs = self.run()
        self.after = grids.snapshot(self.root)
        self.made = [k for k in tools.produced(self.before, self.after) if not k.startswith('tmp/')]
        self.ops = p.ops
        if not r.ok:
            raise Violation('undisturbed-run-fails', '%s %s: %r' % (self.job.rel, self.describe(), r), tb=r.tb)
        for o in sorted(self.job.outputs):
            if o not in self.after:
                raise Violation('output-missing', '%s: exit status 0, but %s does not exist' % (self.job.rel, o))
        e = self.job.oracle()
        if e:
            raise Violation('wrong-output', '%s: exit status 0, but %s' % (self.job.rel, e))
        self.ctx.count('tool:' + self.job.kind)
        self.ctx.probe(self.job.kind)
        return r, p, fs

    def describe(self):
        return ' '.join(str(a).replace(self.root, '') for a in self.job.args)

    def outputs_differ(self, snap=None):
        return tools.differs(self.made, self.after, grids.snapshot(self.root) if snap is None else snap)

    def extra(self, suffixes=('',)):
        """Files which the undisturbed run does not leave."""
        for k in sorted(grids.snapshot(self.root)):
            if k not in self.after and not k.startswith('tmp/') and k.endswith(suffixes):
                return '%s is left over' % k
        return None

    def stale(self, rng):
        """Older versions of the outputs, as left by an earlier run with other data."""
        r = {}
        for k in self.made:
            d = self.after[k]
            how = rng.randrange(4)
            if how == 0:
                continue
            if how == 1:
                r[k] = d + b'stale tail ' * rng.randint(1, 400) + b'\n'
            elif how == 2:
                r[k] = d[:len(d) // 2]
            else:
                r[k] = b'stale\n'
        return r


def all_dirs(root):
    r = set()
    for d, ds, _ in os.walk(root):
        for x in ds:
            r.add(os.path.relpath(os.path.join(d, x), root))
    return r


class ToolCheck(Check):
    REAL = REAL_TOOLS
    STUBS = STUBS_TOOLS
    ASSUMPTIONS = ['file operations behave as POSIX says; the simulated disk has no other failure modes than the listed',
                   'generated inputs: surfaces of 1..~40 triangles with 1..5 zones; larger ones in the thorough tier']

    HUGE = 0.0

    def job(self, rng, i, tier, kind=None):
        ks = tools.KINDS
        return tools.gen_job(rng, kind or ks[i % len(ks)], small=(tier == 'quick' or rng.random() < 0.5),
                             huge=self.HUGE)

    def valid(self, scn):
        ios = [scn.get('io', {})] + [p.get('io', {}) for p in scn.get('plans', []) + scn.get('envs', [])]
        if any(v < 1 for io in ios for k, v in io.items() if isinstance(v, int) and not isinstance(v, bool)):
            return False
        return valid_job(scn['job']) if 'job' in scn else all(valid_job(j) for j in scn['jobs'])


def valid_job(j):
    """Shrunk descriptions must stay meaningful."""
    def ok_grid(s):
        return s['parts'] and all(len(p) == 2 and p[1] >= 1 for p in s['parts']) and s['zones'] >= 1
    try:
        for k in ('grid', 'grid2'):
            if k in j and not ok_grid(j[k]):
                return False
        if 'grids' in j and not (j['grids'] and all(ok_grid(s) for s in j['grids'])):
            return False
        if j.get('kind') == 'remesh_g' and len(j['grids']) != 1:
            return False
        for k, lo in (('ranks', 1), ('times', 1), ('rows', 1), ('steps', 1), ('air', 1)):
            if k in j and j[k] < lo:
                return False
        if 'blocks' in j and not (j['blocks'] and all(len(b) == 2 and min(b) >= 2 for b in j['blocks'])):
            return False
        if j['kind'] == 'ansys' and not (j['zones'] and all(len(z) == 3 and min(z[:2]) >= 2 for z in j['zones'])
                                         and any(z[2] for z in j['zones'])):
            return False
        if 'tvars' in j and not j['tvars']:
            return False
        return j['stem'] != ''
    except (KeyError, TypeError, IndexError):
        return False


class C04(ToolCheck):
    ID = 'C04'
    HUGE = 0.01
    RUNS = {'quick': 3000, 'thorough': 60000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct (tool, fault kinds that fired, outcome, operation class hit) reached'

    def gen(self, rng, i, tier):
        n = 6 if tier == 'quick' else 12
        plans = []
        for _ in range(n):
            kinds = rng.choice([FAILING, FAILING, BENIGN, FAILING + BENIGN])
            plans.append({'faults': [fault_spec(rng, kinds) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
                          'io': world.io_profile(rng), 'stale': rng.random() < 0.3, 'line': line_fault(rng)})
        return {'job': self.job(rng, i, tier), 'io': {}, 'plans': plans}

    def run(self, scn, ctx):
        b = Bench(scn, ctx)
        b.clean()
        for n, plan in enumerate(scn['plans']):
            rng = random.Random(derive('stale', scn['sched_seed'], n))
            extra = b.stale(rng) if plan['stale'] else None
            b.reset(extra)
            # Where operations happen depends on the buffers: record an undisturbed run with them.
            b.lines = {}
            r0, p0, _ = b.run(io=plan['io'], line=plan.get('line'))
            if not r0.ok:
                raise Violation('benign-fails', '%s fails with small buffers and short transfers %r: %r'
                                % (b.job.rel, plan['io'], r0), tb=r0.tb)
            d = b.outputs_differ()
            if d:
                raise Violation('benign-differs', '%s with buffers %r%s: %s'
                                % (b.job.rel, plan['io'], ' over older outputs' if extra else '', d))
            b.reset(extra)
            faults = [x for x in (place_fault(f, p0.ops) for f in plan['faults']) if x]
            if plan.get('line'):
                faults = []
            elif not faults:
                continue
            r, p, fs = b.run(faults=faults, io=plan['io'], line=plan.get('line'))
            kinds = sorted(fs.fired)
            ctx.sigs.add('%s|%s|%s' % (b.job.kind, ','.join(kinds), 'ok' if r.ok else 'fail'))
            if kinds:
                ctx.nontrivial = True
            if r.ok:
                d = b.outputs_differ()
                if d:
                    raise Violation('incomplete-success', '%s exits with status 0 although its output is wrong: %s; '
                                    'faults that fired: %s' % (b.job.rel, d, ', '.join(kinds) or 'none'))
            elif all(k in BENIGN for k in kinds):
                raise Violation('benign-fails', '%s fails (%r) although only %s happened'
                                % (b.job.rel, r, ', '.join(kinds) or 'nothing'), tb=r.tb)
            ctx.log.append([n, r.status, kinds])
        ctx.sample = {'tool': b.job.rel, 'args': b.describe()[:160], 'plans': len(scn['plans'])}


class C05(ToolCheck):
    ID = 'C05'
    RUNS = {'quick': 2400, 'thorough': 60000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct (tool, how it was interrupted, operation class at the interruption, number of interruptions) reached'

    def gen(self, rng, i, tier):
        n = 5 if tier == 'quick' else 10
        plans = []
        for _ in range(n):
            chain = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                chain.append({'faults': [fault_spec(rng, rng.choice([CRASH, CRASH, FAILING]))]})
            plans.append({'chain': chain, 'io': world.io_profile(rng, benign=False), 'line': line_fault(rng)})
        return {'job': self.job(rng, i, tier), 'io': {}, 'plans': plans}

    def run(self, scn, ctx):
        b = Bench(scn, ctx)
        b.clean()
        # Repeating a finished run changes nothing.
        r, p, fs = b.run()
        d = b.outputs_differ() or b.extra()
        if not r.ok or d:
            raise Violation('rerun-differs', '%s repeated after success: %s' % (b.job.rel, d or r))
        how = []
        for n, plan in enumerate(scn['plans']):
            b.reset()
            b.lines = {}
            r0, p0, _ = b.run(io=plan['io'], line=plan.get('line'))
            b.reset()
            how = []
            for q, step in enumerate(plan['chain']):
                faults = [x for x in (place_fault(f, p0.ops) for f in step['faults']) if x]
                fs = b.fs()
                if q == 0 and plan.get('line'):
                    r, p, fs = b.run(io=plan['io'], fs=fs, line=plan['line'])
                else:
                    r, p, fs = b.run(faults=faults, io=plan['io'], fs=fs)
                last = p.ops[-1][0] if p.ops else 'start'
                how.append('%s@%s' % (','.join(sorted(fs.fired)) or 'none', last))
                if fs.fired:
                    ctx.nontrivial = True
            ctx.sigs.add('%s|%s' % (b.job.kind, ';'.join(how)))
            r, p, fs = b.run()
            if not r.ok:
                raise Violation('rerun-fails', '%s fails when repeated after interruption(s) %s: %r'
                                % (b.job.rel, '; '.join(how), r), tb=r.tb)
            d = b.outputs_differ() or b.extra(DATA)
            if d:
                raise Violation('rerun-differs', '%s repeated after interruption(s) %s: %s'
                                % (b.job.rel, '; '.join(how), d))
            # And once more after success: repeating a finished run changes nothing.
            if n == 0:
                r, p, fs = b.run()
                d = None if not r.ok else b.outputs_differ()
                if not r.ok or d:
                    raise Violation('rerun-differs', '%s repeated after success: %s' % (b.job.rel, d or r))
            ctx.log.append([n, how])
        ctx.sample = {'tool': b.job.rel, 'args': b.describe()[:160], 'last interruptions': how}


class C06(ToolCheck):
    ID = 'C06'
    RUNS = {'quick': 3000, 'thorough': 60000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct (tool, placement of outputs, fault kinds, outcome) reached'

    def gen(self, rng, i, tier):
        n = 5 if tier == 'quick' else 10
        plans = []
        for _ in range(n):
            kinds = rng.choice([CRASH, FAILING, BENIGN + FAILING])
            plans.append({'faults': [fault_spec(rng, kinds) for _ in range(rng.choice([1, 1, 2]))],
                          'io': world.io_profile(rng), 'line': line_fault(rng, 0.05)})
        return {'job': self.job(rng, i, tier), 'io': {}, 'plans': plans}

    def inspect(self, b, fs, when):
        job = b.job
        if fs.escapes:
            raise Violation('outside', '%s (%s) touches %r outside of its files' % (job.rel, when, fs.escapes[0][1:]))
        snap = grids.snapshot(b.root)
        keep = (set(b.before) - set(job.outputs)) | job.inputs
        for k in sorted(keep):
            if k not in snap:
                raise Violation('removed', '%s (%s) removed %s' % (job.rel, when, k))
            if snap[k] != b.before[k]:
                raise Violation('modified', '%s (%s) changed %s, %s' % (job.rel, when, k, 'its input' if k in job.inputs
                                                                      else 'which is not its own'))
        for _, what, rel in fs.changed:
            if rel in keep:
                raise Violation('touched', '%s (%s): %s of %s, %s' % (job.rel, when, what, rel, 'its input'
                                if rel in job.inputs else 'which is not its own'))
            d = os.path.dirname(rel) or '.'
            if what.startswith(('mkdir', 'rmdir')):
                if rel == 'tmp' or rel.startswith('tmp/'):
                    continue
                if not any(o == rel or o.startswith(rel + '/') or rel.startswith(o + '/') for o in job.outdirs):
                    raise Violation('elsewhere', '%s (%s): %s of %s, not an output location'
                                    % (job.rel, when, what, rel))
            elif d not in job.outdirs and not d.startswith('tmp') and \
                    not any(d.startswith(o + '/') for o in job.outdirs if o != '.'):
                raise Violation('elsewhere', '%s (%s): %s of %s, not in an output location'
                                % (job.rel, when, what, rel))

    def run(self, scn, ctx):
        b = Bench(scn, ctx)
        r, p, fs = b.clean()
        self.inspect(b, fs, 'undisturbed run')
        for n, plan in enumerate(scn['plans']):
            b.reset()
            b.lines = {}
            r0, p0, fs0 = b.run(io=plan['io'], line=plan.get('line'))
            self.inspect(b, fs0, 'undisturbed run')
            b.reset()
            faults = [x for x in (place_fault(f, p0.ops) for f in plan['faults']) if x]
            r, p, fs = b.run(faults=[] if plan.get('line') else faults, io=plan['io'], line=plan.get('line'))
            kinds = ','.join(sorted(fs.fired)) or 'none'
            self.inspect(b, fs, 'faults: %s, status %d' % (kinds, r.status))
            if fs.fired:
                ctx.nontrivial = True
            ctx.sigs.add('%s|%d|%s|%d' % (b.job.kind, scn['job']['place'], kinds, r.status))
            ctx.log.append([n, r.status, kinds])
        ctx.count('bystander files', len(b.decoys))
        ctx.sample = {'tool': b.job.rel, 'args': b.describe()[:160], 'bystanders': sorted(b.decoys)[:5]}


class C07(ToolCheck):
    ID = 'C07'
    RUNS = {'quick': 1500, 'thorough': 60000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct interleavings (order of the file operations of the processes) reached'

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 3, 4])
        jobs = []
        same = rng.random() < 0.5
        k0 = rng.choice(tools.KINDS)
        for q in range(n):
            j = self.job(rng, i, 'quick', k0 if same else rng.choice(tools.KINDS))
            j['style'] = rng.choice([0, 1]) if rng.random() < 0.7 else 2
            if same and rng.random() < 0.5 and q:
                j = dict(json.loads(json.dumps(jobs[0])), seed=rng.randrange(1 << 30))
            jobs.append(j)
        pol = rng.choice([{'kind': 'uniform'}, {'kind': 'sticky', 'stick': rng.choice([3.0, 12.0])},
                          {'kind': 'prio', 'change': 0.05}])
        share, alike, pool = rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 1, 2]), rng.random() < 0.5
        if n <= 3 and rng.random() < 0.06:
            # Results of cases with similar names in one directory.
            share, alike, pool = 2, rng.choice([1, 1, 2]), True
            jobs = [dict(self.job(rng, i, 'quick', 'merge'), style=rng.choice([0, 1])) for _ in range(n)]
        return {'jobs': jobs, 'share': share, 'policy': pol, 'alike': alike, 'pool': pool,
                'io': world.io_profile(rng), 'kill': fault_spec(rng, ['kill']) if rng.random() < 0.4 else None}

    def place(self, scn, root):
        """Jobs in the given directory; share: 0 - nothing, 1 - output directory, 2 - one working directory."""
        jobs = []
        for q, j in enumerate(scn['jobs']):
            j = dict(j)
            ns = 'abcdefgh'[q]
            ind, outd = 'in_' + ns, 'out_' + ns
            if scn['share'] >= 1:
                outd = 'out'
            if scn['share'] == 2:
                ind = 'in'
                if j['place'] == 2:
                    j['place'] = 1
                if j['kind'] == 'remesh_g':
                    j['place'] = 0
            if scn['share'] == 1 and j['place'] == 1:
                j['place'] = 0
            pre = ns + '_'
            if scn.get('alike'):
                # Names of cases begin or end with one another.
                pre, j['stem'] = '', scn['jobs'][0]['stem']
                if scn['alike'] == 1:
                    j['stem'] += ['', '_1', 'x', '-slat'][q]
                else:
                    j['stem'] = ['', '1_', 'x', 'slat-'][q] + j['stem']
            if scn.get('pool') and scn['share'] == 2 and j['kind'] == 'merge':
                # Results of several cases in one directory.
                j.update(src='pool', csv=0, foreign=False, nest=False, place=1)
            jobs.append(tools.make(j, root, pre, ind, outd))
        # A directory one job creates may already exist because of another one.
        return jobs

    def run(self, scn, ctx):
        root = os.path.realpath(ctx.dir('disk'))
        jobs = self.place(scn, root)
        world.tmp_inside(root)
        before = grids.snapshot(root)
        dirs = all_dirs(root)
        outs = []
        volat = set()
        for q, job in enumerate(jobs):
            for o in job.outputs:
                if tools.volatile(o):
                    volat.add(o)
        # Alone.
        for q, job in enumerate(jobs):
            fs = fsim.FileSystem(root, ctx.choices, None, scn['sched_seed'])
            r, p = world.script(fs, 'alone%d' % q, job.rel, job.args, job.cwd, q)
            if not r.ok:
                raise Violation('undisturbed-run-fails', '%s %r: %r' % (job.rel, job.args, r), tb=r.tb)
            after = grids.snapshot(root)
            made = [k for k in tools.produced(before, after) if not k.startswith('tmp/')]
            outs.append({k: after[k] for k in made})
            job.n_ops = p.ops
            grids.restore(root, before)
            for d in sorted(all_dirs(root) - dirs, key=len, reverse=True):
                os.rmdir(os.path.join(root, d))
            world.tmp_inside(root)
        # Together.
        kernel = Kernel(ctx.choices, dict(scn['policy']), max_steps=200000)
        fs = fsim.FileSystem(root, ctx.choices, kernel, scn['sched_seed'])
        res = {}
        victim = None
        with fsim.using(fs):
            for q, job in enumerate(jobs):
                proc = Proc('p%d' % q, job.cwd, q)
                proc.io = dict(scn['io'])
                if scn['kill'] is not None and q == len(jobs) - 1 and len(jobs) > 1:
                    f = place_fault(scn['kill'], job.n_ops)
                    if f:
                        proc.faults = [fsim.Fault(f)]
                        victim = q

                def main(q=q, job=job, proc=proc):
                    res[q] = world.body(fs, proc, lambda: mods.run_script(job.rel, job.args))
                kernel.spawn('p%d' % q, main, proc)
            kernel.run()
        if kernel.deadlock or kernel.overrun:
            raise Violation('no-progress', 'concurrent tools do not finish: %r' % (kernel.deadlock,))
        ctx.sim_time += kernel.now
        after = grids.snapshot(root)
        for q, job in enumerate(jobs):
            if q == victim:
                continue
            r = res[q]
            if not r.ok:
                raise Violation('concurrent-fails', '%s fails beside %s: %r'
                                % (job.rel, ', '.join(x.rel for x in jobs if x is not job), r), tb=r.tb)
            # A report in a shared directory belongs to whoever finished last; merges write it at the end.
            names = [k for k in outs[q] if not (tools.volatile(k) and sum(k in o for o in outs) > 1)]
            d = tools.differs(names, outs[q], after)
            if d:
                raise Violation('concurrent-differs', '%s beside %s: %s'
                                % (job.rel, ', '.join(x.rel for x in jobs if x is not job), d))
        for k in before:
            if after.get(k) != before[k]:
                raise Violation('concurrent-input', 'input %s has changed' % k)
        if kernel.switches > len(jobs):
            ctx.nontrivial = True
        ctx.count('context switches', kernel.switches)
        ctx.count('fault:kill', fs.fired.get('kill', 0))
        ctx.sigs.add('%x' % derive(*kernel.trace))
        ctx.log.append(kernel.trace)
        ctx.sample = {'tools': [x.rel for x in jobs], 'share': scn['share'], 'switches': kernel.switches}


# -- C08 -------------------------------------------------------------------------------------------


class Server:
    """Interpreter with another hash seed, executing jobs of the same scratch code."""

    def __init__(self, hash_seed):
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), CRYSIM_CODE=core.REPO_ROOT)
        self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.dirname(__file__)), 'check.py'),
                                   '--serve'], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, d):
        try:
            self.p.stdin.write((json.dumps(d) + '\n').encode())
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except OSError as e:
            raise HarnessError('server: %s' % e)
        if not l:
            raise HarnessError('server died')
        return json.loads(l)


_servers = {}


def server(hash_seed):
    k = (os.getpid(), hash_seed)
    if k not in _servers:
        _servers[k] = Server(hash_seed)
    return _servers[k]


def serve():
    """Main of the server process."""
    import importlib
    core.REPO_ROOT = os.environ['CRYSIM_CODE']
    mods.SCRATCH = os.path.dirname(core.REPO_ROOT)
    mods.preload()
    fsim.install()
    for line in sys.stdin:
        d = json.loads(line)
        # Different addresses of everything.
        junk = [object() for _ in range(d['junk'])] + [dict(a=1) for _ in range(d['junk'] // 7)]
        del junk[::3]
        root = d['root']
        job = tools.Job.__new__(tools.Job)
        world.tmp_inside(root)
        fs = fsim.FileSystem(root, None, None, d['seed'])
        fs.shuffle_listing = d['shuffle']
        fs.clock = d['clock']
        fs.tz, fs.cpus = d['tz'], d['cpus']
        core.Proc.count = d['seed'] % 700
        os.environ.update(d['env'])
        np.random.seed(d['seed'] % (1 << 32))
        rng = random.Random(d['seed'])
        for q in sorted(grids.snapshot(root)):
            t = rng.randrange(1, 2000000000)
            os.utime(os.path.join(root, q), (t, t))
        r, p = world.script(fs, 'other', d['rel'], d['args'], d['cwd'], d['seed'], d['faults'], d['io'])
        sys.stdout.write(json.dumps({'status': r.status, 'exc': r.exc, 'tb': r.tb, 'hash': hash('x'),
                                     'listings': sum(1 for o in p.ops if o[0] == 'list'),
                                     'fired': fs.fired, 'time_reads': fs.time_reads}) + '\n')
        sys.stdout.flush()
        del junk
    return 0


class C08(ToolCheck):
    ID = 'C08'
    RUNS = {'quick': 5000, 'thorough': 50000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct (tool, listing permuted or not, clock jumps, hash seed) environments compared'
    STUBS = STUBS_TOOLS + ['the second interpreter (other PYTHONHASHSEED, other addresses) is a real process running '
                           'the same simulated disk']
    HASHES = [1, 4242]

    def gen(self, rng, i, tier):
        envs = []
        for _ in range(2 if tier == 'quick' else 4):
            envs.append({'hash': rng.choice(self.HASHES), 'shuffle': rng.random() < 0.85, 'seed': rng.randrange(1 << 30),
                         'clock': rng.choice([0.0, 1.7e9, 4.0e9, 86399.9]), 'junk': rng.choice([0, 10, 1000, 7777]),
                         'jumps': [fault_spec(rng, ['clock_jump']) for _ in range(rng.choice([0, 1, 2]))],
                         'tz': rng.choice([0, 0, 10800, -36000]), 'cpus': rng.choice([1, 2, 3, 64]),
                         'env': {'USER': 'user%d' % rng.randrange(9), 'HOME': '/home/u%d' % rng.randrange(9),
                                 'LANG': rng.choice(['C', 'de_DE.UTF-8']), 'COLUMNS': str(rng.randrange(20, 300)),
                                 'HOSTNAME': 'h%d' % rng.randrange(9)},
                         'away': rng.random() < 0.5, 'io': world.io_profile(rng)})
        j = self.job(rng, i, tier)
        if rng.random() < 0.3:
            j = self.job(rng, i, tier, rng.choice(['merge', 'remesh_d', 'lazurit', 'split_c']))
        return {'job': j, 'io': {}, 'envs': envs}

    def run(self, scn, ctx):
        b = Bench(scn, ctx)
        b.clean()
        for n, env in enumerate(scn['envs']):
            b.reset()
            faults = [dict(x, at=x['pos'] % max(1, len(b.ops))) for x in env['jumps']]
            for f in faults:
                del f['pos']
            cwd = b.job.cwd
            if scn['job']['style'] == 0 and env.get('away'):
                cwd = b.tmp         # all paths are absolute
            a = server(env['hash'] or 1).ask({'rel': b.job.rel, 'args': b.job.args, 'cwd': cwd, 'root': b.root,
                                              'tz': env.get('tz', 0), 'cpus': env.get('cpus', 8) or 1, 'env': env.get('env', {}),
                                              'seed': env['seed'], 'shuffle': env['shuffle'], 'junk': env['junk'],
                                              'clock': env['clock'], 'faults': faults, 'io': env['io']})
            for k, v in a['fired'].items():
                ctx.count('fault:' + k, v)
            if env['shuffle'] and a['listings']:
                ctx.count('fault:listing_order', a['listings'])
            if a['status'] != 0:
                raise Violation('environment-fails', '%s fails with another directory order / clock / hash seed: %s'
                                % (b.job.rel, a['exc']), tb=a['tb'])
            d = b.outputs_differ()
            if d:
                raise Violation('environment-differs', '%s: output depends on directory order, clock or hash seed: %s'
                                % (b.job.rel, d))
            extra = [k for k in tools.produced(b.before, grids.snapshot(b.root))
                     if k not in b.made and not k.startswith('tmp/')]
            if extra:
                raise Violation('environment-differs', '%s: output file %s exists only in another environment'
                                % (b.job.rel, extra[0]))
            ctx.nontrivial = True
            ctx.sigs.add('%s|%d|%s|%s|%s' % (b.job.kind, bool(env['shuffle'] and a['listings']), sorted(a['fired']),
                                             env['hash'], env['clock']))
            ctx.log.append([n, a['status'], a['listings']])
        ctx.sample = {'tool': b.job.rel, 'args': b.describe()[:160]}


# -- C16 -------------------------------------------------------------------------------------------


def well_formed(rel, data, others, orig):
    """Damaged input which still is a complete file of its format, so nobody can notice."""
    try:
        t = data.decode()
    except UnicodeDecodeError:
        return False
    u = t if t.endswith('\n') or not t else t + '\n'
    try:
        if rel.endswith('.dat'):
            grids.parse_dat(text=u)
            return True
        if rel.endswith('.txt'):
            lines = u.split('\n')[:-1]
            # Names of values are free text: a garbled name is not an incomplete file.
            head = orig.decode().split('\n')[0]
            n = head.count(',') + 1
            if not lines or 'VARIABLES=' not in lines[0] or lines[0].count('"') != 2 * n or lines[0].count(',') != n - 1:
                return False
            if t.count('\n') == 0:
                return False
            rows = [l.split() for l in lines[1:]]
            [(int(r[0]), [float(x) for x in r[1:]]) for r in rows]
            return all(len(r) == n for r in rows)
        if rel.endswith('.csv'):
            lines = u.split('\n')[:-1]
            n = {x.decode().count('\n') for x in others}
            rows = [[float(x) for x in l.split(';')] for l in lines[1:]]
            return lines[0] == tools.CSV_HEAD and all(len(r) == 10 for r in rows) and n <= {len(lines)}
        if rel.endswith('.json'):
            json.loads(t)
            return True
    except (grids.FormatError, ValueError, IndexError):
        return False
    return False


def good_table(data):
    """Table of numbers under its header."""
    lines = data.decode().split('\n')[:-1]
    return len(lines) > 1 and b'nan' not in data \
        and all(l.count(';') == lines[0].count(';') for l in lines[1:])


class C16(ToolCheck):
    ID = 'C16'
    RUNS = {'quick': 6000, 'thorough': 60000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct (tool, kind of damaged input, kind of damage, outcome) and damage positions'
    ASSUMPTIONS = ToolCheck.ASSUMPTIONS + [
        'damage that leaves a complete well-formed file (cut at a zone or row boundary, inside the last number) is '
        'undetectable and not counted; a total table with NaN, without rows or with rows shorter than its header counts as visible damage']

    def gen(self, rng, i, tier):
        n = 8 if tier == 'quick' else 16
        dm = []
        for _ in range(n):
            dm.append({'file': rng.randrange(1000), 'kind': rng.choice(['cut', 'cut', 'cut', 'zero', 'hole']),
                       'pos': rng.randrange(1000000), 'near': rng.choice(['any', 'any', 'line', 'end', 'token', 'start']),
                       'len': rng.randint(1, 64)})
        return {'job': self.job(rng, i, tier), 'io': {}, 'damage': dm}

    def valid(self, scn):
        return ToolCheck.valid(self, scn) and all(d['len'] >= 1 for d in scn['damage'])

    @staticmethod
    def place(d, data):
        n = len(data)
        p = d['pos'] * n // 1000000
        if d['near'] == 'line':
            q = data.rfind(b'\n', 0, p)
            p = max(0, min(n - 1, q + d['len'] % 4 - 1))
        elif d['near'] == 'end':
            p = max(0, n - 1 - d['len'])
        elif d['near'] == 'token':
            q = max(data.rfind(c, 0, p) for c in (b' ', b';', b'\n'))
            p = max(0, q + d['len'] % 2)
        elif d['near'] == 'start':
            p = min(n - 1, d['len'] - 1)
        return min(p, n - 1)

    def run(self, scn, ctx):
        b = Bench(scn, ctx)
        b.clean()
        ins = sorted(k for k in b.job.inputs if b.before[k])
        total = getattr(b.job, 'total', None)
        n_ops = len(b.ops)
        for d in scn['damage']:
            rel = ins[d['file'] % len(ins)]
            data = b.before[rel]
            own = rel.endswith(('.txt', '.csv', '.json')) or (rel.endswith('.dat') and b.job.kind != 'ansys'
                                                             and not rel.endswith('_air.dat'))
            kind = d['kind'] if own else 'cut'
            p = self.place(d, data)
            if kind != 'cut' and rel.endswith(('.txt', '.csv')):
                # Names of values and columns are free text, zeroes are put into the values.
                p = max(p, data.index(b'\n') + 1)
            elif kind != 'cut' and rel.endswith('.dat'):
                p = max(p, data.index(b'NODES='))
            if p >= len(data) or (kind == 'hole' and b'"' in data[p:p + d['len']]):
                continue
            if kind == 'cut':
                bad = data[:p]
            elif kind == 'zero':
                bad = data[:p] + bytes(len(data) - p)
            else:
                bad = data[:p] + bytes(min(d['len'], len(data) - p)) + data[p + d['len']:]
            if bad == data:
                continue
            if own:
                others = [b.before[k] for k in ins if k != rel and k.endswith('.csv')] if rel.endswith('.csv') else []
                if well_formed(rel, bad, others, data):
                    continue
            elif not data[p:].split() or data[p:].lstrip().startswith(b'ZONE') \
                    or data[p:].partition(b'\n')[2].startswith(b'ZONE') or (p and not data[p - 1:p].isspace() and len(data[p:].split()) == 1):
                continue
            b.reset()
            tools.put(b.root, rel, bad)
            fs = b.fs()
            fs.max_ops = 50 * n_ops + 5000
            r, pr, fs = b.run(fs=fs)
            ctx.count('fault:%s_input' % {'cut': 'truncated', 'zero': 'zeroed_tail', 'hole': 'zeroed_block'}[kind])
            if fs.hung:
                raise Violation('endless', '%s does not end with %s damaged (%s at byte %d of %d)'
                                % (b.job.rel, rel, kind, p, len(data)))
            if r.ok:
                snap = grids.snapshot(b.root)
                e = tools.differs([k for k in b.made if k in b.job.outputs], b.after, snap)
                if e and total and total in e and not good_table(snap.get(total, b'')):
                    e = None
                if e:
                    raise Violation('accepted', '%s exits with status 0 although %s is incomplete (%s at byte %d of %d, '
                                    '...%r): %s' % (b.job.rel, rel, kind, p, len(data), bad[max(0, p - 20):p], e))
            ctx.nontrivial = True
            ctx.sigs.add('%s|%s|%s|%s|%d' % (b.job.kind, rel.rsplit('.', 1)[-1], kind, 'ok' if r.ok else r.exc[:40]
                                             if r.exc else r.status, p))
            ctx.log.append([rel, p, r.status])
        ctx.sample = {'tool': b.job.rel, 'args': b.describe()[:160], 'damage': scn['damage'][0]}
