"""
C14: several users of the library in one interpreter (threads of one simulated process).
"""

import inspect
import os
import sys
import traceback

from . import c_grid, core, fsim, grids, mods, tools, world
from .c_tools import Check, ToolCheck, all_dirs, valid_job
from .core import HarnessError, Kernel, Proc, SimKilled, Violation
from .runner import derive

GAPS = [1, 2, 5, 20, 100, 500, 2500]


class Preempter:
    """Lets the scheduler switch threads between any two executed lines of the code under test."""

    def __init__(self, kernel, weights, root):
        self.kernel = kernel
        self.weights = weights
        self.root = root
        self.left = 1

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root) \
                or not frame.f_code.co_flags & inspect.CO_OPTIMIZED:      # bodies of modules and classes
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left <= 0:
                self.left = GAPS[self.kernel.choices.pick(len(GAPS), self.weights)]
                self.kernel.point(frame.f_code.co_name)
        return self.local


def program(root, prog, src):
    """A user of the Grid class; leaves its files in its own directory.

    :return: what it has seen
    """
    import gsu
    g = gsu.Grid()
    seen = []
    out = prog['out']
    g.load(os.path.join(root, src))
    for n, o in enumerate(prog['ops']):
        k = o['op']
        p = os.path.join(root, out, '%d' % n)
        if k == 'load':
            g = gsu.Grid() if o['fresh'] else g
            g.load(os.path.join(root, src))
        elif k == 'store':
            g.store(p + '.dat')
        elif k == 'mpi':
            g.store_mpi(p, '000000000001')
        elif k == 'decomp':
            c_grid.do_decomp(g, o, [z.Name for z in g.Zones])
        elif k == 'values':
            for f in g.Faces[::o['step']]:
                f['T'] = f['T'] + 0.5 + n
        elif k == 'calc':
            g.load_faces_calc_data(os.path.join(root, out, 'calc.txt'))
        seen.append([g.Name, g.nodes_count(), g.edges_count(), g.faces_count(), [z.Name for z in g.Zones],
                     [z.faces_count() for z in g.Zones]])
    return seen


class C14(Check):
    ID = 'C14'
    RUNS = {'quick': 2800, 'thorough': 40000}
    WALL = {'quick': 110, 'thorough': 1500}
    RULE = 'distinct interleavings of threads (preemption between any two executed lines) reached'
    REAL = ToolCheck.REAL
    STUBS = ['thread scheduler', 'raw file descriptors']
    ASSUMPTIONS = ['each thread works with objects and files of its own', 'module-level code of scripts is not preempted '
                   '(command-line arguments are per process)', 'requests that draw from the global random stream are '
                   'not compared']

    def gen(self, rng, i, tier):
        users = []
        same = rng.random() < 0.4
        k0 = rng.choice(tools.KINDS)
        for q in range(rng.choice([2, 2, 3])):
            if rng.random() < 0.55:
                sp = grids.spec(rng, 2, 14)
                ops = []
                for _ in range(rng.choice([1, 2, 3, 5])):
                    k = rng.choice(['load', 'store', 'store', 'mpi', 'decomp', 'decomp', 'values', 'calc'])
                    o = {'op': k}
                    if k == 'decomp':
                        o = c_grid.decomp_spec(rng)
                        while o['kind'] == 'random':
                            o = c_grid.decomp_spec(rng)
                    if k == 'load':
                        o['fresh'] = rng.random() < 0.5
                    if k == 'values':
                        o['step'] = rng.choice([1, 2])
                    ops.append(o)
                ops.append({'op': 'store'})
                users.append({'grid': sp, 'ops': ops})
            else:
                j = tools.gen_job(rng, k0 if same else None)
                j['style'] = rng.choice([0, 1])
                users.append({'job': j})
        return {'users': users, 'gaps': [rng.choice([0.05, 1, 1, 4]) for _ in GAPS],
                'policy': rng.choice([{'kind': 'uniform'}, {'kind': 'sticky', 'stick': 4.0}, {'kind': 'prio', 'change': 0.05}])}

    def valid(self, scn):
        try:
            for u in scn['users']:
                if 'job' in u:
                    if not valid_job(u['job']) or u['job']['style'] not in (0, 1):
                        return False
                elif not c_grid.grid_ok(u['grid']) or any(o['op'] == 'decomp' and o['kind'] != 'mono' and o['n'] < 1
                                                          for o in u['ops']):
                    return False
            return len(scn['gaps']) == len(GAPS) and all(w > 0 for w in scn['gaps']) and len(scn['users']) > 0
        except (KeyError, TypeError):
            return False

    def run(self, scn, ctx):
        root = os.path.realpath(ctx.dir('disk'))
        users = []
        for q, u in enumerate(scn['users']):
            ns = 'abcdefgh'[q]
            if 'job' in u:
                job = tools.make(u['job'], root, ns + '_', 'in_' + ns, 'out_' + ns)
                users.append((job.rel, lambda job=job: mods.run_script(job.rel, job.args)))
            else:
                g = grids.build(u['grid'])
                src = 'in_%s/g.dat' % ns
                prog = {'ops': u['ops'], 'out': 'out_' + ns}
                tools.put(root, src, grids.dat_text(g))
                n = sum(len(z['faces']) for z in g['zones'])
                tools.put(root, prog['out'] + '/calc.txt',
                          tools.txt_text([(i, [1.0 + i, 2.0, 3.0 * q]) for i in range(n)]))
                users.append(('grid program', lambda prog=prog, src=src: program(root, prog, src)))
        world.tmp_inside(root)
        before = grids.snapshot(root)
        dirs = all_dirs(root)
        alone = []
        for q, (name, fn) in enumerate(users):
            fs = fsim.FileSystem(root, ctx.choices, None, scn['sched_seed'])
            box = {}

            def solo(fn=fn, box=box):
                box['seen'] = fn()
            r, p = world.call(fs, 'alone%d' % q, solo, root, 1)
            if not r.ok or isinstance(box['seen'], int) and box['seen']:
                raise Violation('undisturbed-run-fails', '%s: %r' % (name, r), tb=r.tb)
            after = grids.snapshot(root)
            made = {k: after[k] for k in tools.produced(before, after) if not k.startswith('tmp/')
                    and not tools.volatile(k)}
            alone.append((box['seen'], made))
            grids.restore(root, before)
            for d in sorted(all_dirs(root) - dirs, key=len, reverse=True):
                os.rmdir(os.path.join(root, d))
            world.tmp_inside(root)
        # Together: threads of one process.
        kernel = Kernel(ctx.choices, dict(scn['policy']), max_steps=400000)
        fs = fsim.FileSystem(root, ctx.choices, kernel, scn['sched_seed'])
        fs.schedule = False
        proc = Proc('threads', root, 1)
        res = {}
        with fsim.using(fs):
            core.enter_proc(proc)
            try:
                # Imports are done before the threads start (the import lock is not simulated).
                import drops, gsu, merge, remeshing, smoothing, split, utils      # noqa
                import geom, gsu_converter                                       # noqa
            except ImportError as e:
                raise HarnessError('import: %s' % e)
            finally:
                core.leave_proc()
            for q, (name, fn) in enumerate(users):
                def main(q=q, fn=fn):
                    try:
                        res[q] = (fn(), None, None)
                    except SimKilled:
                        raise
                    except SystemExit as e:
                        res[q] = (None, 'SystemExit: %s' % e.code, None)
                    except BaseException as e:      # noqa: everything a thread can die of is recorded
                        res[q] = (None, '%s: %s' % (type(e).__name__, e), traceback.format_exc())
                        core.drop_exception(e)
                t = kernel.spawn('t%d' % q, main, proc)
                t.tracer = Preempter(kernel, scn['gaps'], core.REPO_ROOT).trace
            kernel.run()
            core.enter_proc(proc)
            try:
                fs.finish(proc)
            finally:
                core.leave_proc()
        if kernel.overrun or kernel.deadlock:
            raise Violation('no-progress', 'threads do not finish: %r' % (kernel.deadlock,))
        after = grids.snapshot(root)
        for q, (name, fn) in enumerate(users):
            others = ', '.join(n for x, (n, _) in enumerate(users) if x != q)
            seen, exc, tb = res[q]
            if exc:
                raise Violation('thread-fails', '%s fails beside %s in one process: %s' % (name, others, exc), tb=tb)
            if seen != alone[q][0]:
                raise Violation('thread-differs', '%s beside %s in one process sees %r instead of %r'
                                % (name, others, seen, alone[q][0]))
            d = tools.differs(sorted(alone[q][1]), alone[q][1], after)
            if d:
                raise Violation('thread-differs', '%s beside %s in one process: %s' % (name, others, d))
        for k in before:
            if after.get(k) != before[k]:
                raise Violation('thread-input', 'input %s has changed' % k)
        if kernel.switches > len(users):
            ctx.nontrivial = True
        ctx.sim_time += kernel.now
        ctx.count('thread switches', kernel.switches)
        ctx.count('fault:preemption', kernel.switches)
        ctx.sigs.add('%x' % derive(*kernel.trace))
        ctx.log.append(kernel.trace)
        ctx.sample = {'users': [n for n, _ in users], 'switches': kernel.switches}
