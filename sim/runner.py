"""
Search driver: seeded runs in parallel workers, minimisation, replay files, evidence.
"""

import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core, fsim, mods
from .core import Choices, HarnessError, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_CPU = float(os.environ.get('CRYSIM_HANG_CPU', '60'))


class Ctx:
    """Everything one run may use."""

    def __init__(self, choices, workdir):
        self.choices = choices
        self.workdir = workdir
        self.stats = {}             # counters, summed over runs
        self.sigs = set()           # signatures of what was reached (interleavings, states)
        self.log = []               # event log, for determinism checks
        self.sim_time = 0.0
        self.nontrivial = False
        self.sample = None
        self._n = 0

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def probe(self, name):
        self.count('probe:' + name)

    def dir(self, name=None):
        """A fresh scratch directory of this run."""
        self._n += 1
        d = os.path.join(self.workdir, name or 'd%d' % self._n)
        fsim_real_makedirs(d)
        return d


def fsim_real_makedirs(d):
    os.makedirs(d, exist_ok=True)


def rmtree(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def derive(*parts):
    """Stable integer from a tuple of parts."""
    import hashlib
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], 'big')


def execute(check, scn, sched=None, keep=None):
    """One simulated run.

    :return: dict(outcome, kind, msg, sched, stats, ...)
    """
    import tempfile
    choices = Choices(scn['sched_seed'], sched)
    wd = tempfile.mkdtemp(prefix='run.', dir=mods.SCRATCH)
    # Directory names must not depend on the run: rename to a constant-length canonical name per worker.
    canon = os.path.join(mods.SCRATCH, 'w%06d' % (os.getpid() % 1000000))
    rmtree(canon)
    os.rename(wd, canon)
    ctx = Ctx(choices, canon)
    res = {'outcome': 'ok', 'kind': None, 'msg': None, 'info': {}}
    random.seed(scn['sched_seed'])
    core.Proc.count = 0
    import numpy as np
    np.random.seed(scn['sched_seed'] % (1 << 32))
    try:
        check.run(scn, ctx)
    except Violation as v:
        res.update(outcome='violation', kind=v.kind, msg=v.msg[:2000], info=v.info)
    except HarnessError as e:
        res.update(outcome='error', msg=str(e)[:3000])
    except Exception:
        res.update(outcome='error', msg=traceback.format_exc()[-3000:])
    finally:
        if core.current_proc() is not None:
            core.leave_proc()
        os.chdir('/')
        rmtree(canon)
    res.update(sched=choices.log, stats=ctx.stats, sigs=sorted(ctx.sigs), sim_time=ctx.sim_time,
               nontrivial=ctx.nontrivial, sample=ctx.sample)
    if keep is not None:
        res['log'] = ctx.log
    if res['msg']:
        res['msg'] = res['msg'].replace(canon, '<disk>').replace(mods.SCRATCH, '<scratch>')
    return res


def scenario(check, seed, i, tier):
    rng = random.Random(derive('scn', check.ID, seed, i))
    scn = check.gen(rng, i, tier)
    scn['sched_seed'] = derive('sched', check.ID, seed, i)
    scn['index'] = i
    return scn


def _worker(check, seed, tier, indices, out, deadline):
    fsim.install()

    def emit(d):
        data = (json.dumps(d) + '\n').encode()
        while data:
            data = data[os.write(out, data):]

    current = {}

    def hang(sig, frame):
        emit({'i': current.get('i', -1), 'outcome': 'violation', 'kind': 'no-progress',
              'msg': 'the run consumed %g s of CPU without finishing (normal: well below 1 s)' % HANG_CPU,
              'scn': current.get('scn'), 'sched': [], 'stats': {}, 'sigs': [], 'sim_time': 0.0,
              'nontrivial': True, 'sample': None, 'info': {}})
        emit({'done': True})
        os._exit(0)
    signal.signal(signal.SIGPROF, hang)
    import gc
    for n, i in enumerate(indices):
        if time.time() > deadline:
            emit({'late': len(indices) - n})
            break
        try:
            scn = scenario(check, seed, i, tier)
        except Exception:
            emit({'i': i, 'outcome': 'error', 'msg': 'gen: ' + traceback.format_exc()[-2000:], 'stats': {},
                  'sigs': [], 'sched': [], 'sim_time': 0, 'nontrivial': False, 'sample': None, 'info': {}})
            continue
        current.update(i=i, scn=scn)
        signal.setitimer(signal.ITIMER_PROF, HANG_CPU)
        r = execute(check, scn)
        signal.setitimer(signal.ITIMER_PROF, 0)
        r['i'] = i
        if r['outcome'] != 'ok':
            r['scn'] = scn
        else:
            r['sched'] = len(r['sched'])
        if n % 50 == 49:
            gc.collect()
        emit(r)
        if r['outcome'] == 'violation' and not known(check, scn, r):
            break
    emit({'done': True})
    os._exit(0)


def known(check, scn, r):
    """Entry of the known-findings file this violation is an instance of."""
    for k in load_known():
        if k.get('property') == check.ID and k.get('status') == 'open' and check.is_known(k, scn, r):
            return k
    return None


_known = None


def load_known():
    global _known
    if _known is None:
        p = os.path.join(VERIF, 'known_findings.json')
        _known = []
        if os.path.exists(p):
            with fsim.real_open(p) as f:
                _known = json.load(f)['findings']
    return _known


def run_batch(check, seed, tier, n, wall, workers=None):
    """Run scenarios 0..n-1 on forked workers; results sorted by index."""
    workers = workers or min(8, os.cpu_count() or 1)
    deadline = time.time() + wall
    procs = []
    sys.stdout.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q, _, _ in procs:
                    pass
                # Low indices first on every worker, so that the smallest failing index is found early.
                _worker(check, seed, tier, list(range(w, n, workers)), wr, deadline)
            finally:
                os._exit(3)
        os.close(wr)
        procs.append((pid, r, bytearray()))
    results, late, dead = [], 0, []
    fds = {r: (pid, buf) for pid, r, buf in procs}
    done = set()
    hard = deadline + 240
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 5.0)
        if time.time() > hard:
            for pid, r, _ in procs:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            raise HarnessError('workers did not finish in time')
        for r in rl:
            pid, buf = fds[r]
            data = os.read(r, 1 << 20)
            if not data:
                os.close(r)
                del fds[r]
                _, st = os.waitpid(pid, 0)
                if pid not in done:
                    dead.append(st)
                continue
            buf += data
            while True:
                k = buf.find(b'\n')
                if k < 0:
                    break
                d = json.loads(bytes(buf[:k]))
                del buf[:k + 1]
                if d.get('done'):
                    done.add(pid)
                elif 'late' in d:
                    late += d['late']
                else:
                    results.append(d)
    results.sort(key=lambda d: d['i'])
    return results, late, dead


# -- minimisation ----------------------------------------------------------------------------------


def in_child(fn, timeout=300):
    """Run fn() in a forked child, return its JSON-able result (None if it dies or hangs)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            fsim.install()

            def hang(sig, frame):
                os.write(w, json.dumps({'outcome': 'violation', 'kind': 'no-progress',
                                        'msg': 'the run does not finish', 'sched': []}).encode())
                os._exit(0)
            signal.signal(signal.SIGPROF, hang)
            signal.setitimer(signal.ITIMER_PROF, HANG_CPU)
            data = json.dumps(fn()).encode()
            signal.setitimer(signal.ITIMER_PROF, 0)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    end = time.time() + timeout
    while True:
        rl, _, _ = select.select([r], [], [], max(0.1, end - time.time()))
        if not rl:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(bytes(buf))
    except ValueError:
        return None


def shrinks(scn):
    """Simpler scenarios: drop list elements, shrink numbers (generic, over the JSON tree)."""
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in x:
                if k not in ('sched_seed', 'index', 'seed', 'vars'):
                    walk(x[k], path + [k])
        elif isinstance(x, list):
            paths.append(('list', path, len(x)))
            for j, y in enumerate(x):
                walk(y, path + [j])
        elif isinstance(x, bool):
            if x:
                paths.append(('bool', path, x))
        elif isinstance(x, int):
            if x > 0:
                paths.append(('int', path, x))
    walk(scn, [])

    def change(path, fn):
        c = json.loads(json.dumps(scn))
        if not path:
            return fn(c)
        o = c
        for p in path[:-1]:
            o = o[p]
        o[path[-1]] = fn(o[path[-1]])
        return c
    for kind, path, n in paths:
        if kind == 'list' and n > 0:
            size = n
            while size >= 1:
                for st in range(0, n, size):
                    if n - min(size, n - st) >= 0:
                        yield change(path, lambda l, st=st, size=size: l[:st] + l[st + size:])
                size //= 2
    for kind, path, n in paths:
        if kind == 'bool':
            yield change(path, lambda v: False)
        if kind == 'int':
            for v in sorted({0, 1, 2, n // 2, n - 1}):
                if v < n:
                    yield change(path, lambda _, v=v: v)


def minimise(check, scn, first, budget):
    """Smaller scenario and schedule with the same violation class."""
    end = time.time() + budget
    best_scn, best = scn, first
    tried = 0

    def attempt(s, sched):
        nonlocal tried
        tried += 1
        r = in_child(lambda: execute(check, s, sched), 120)
        if r and r['outcome'] == 'violation' and r['kind'] == first['kind'] and not known(check, s, r):
            return r
        return None
    if first['kind'] == 'no-progress':
        return best_scn, best, tried
    # Schedule: try the plainest one first.
    for sched in ([], best['sched'][:len(best['sched']) // 2]):
        r = attempt(best_scn, sched)
        if r:
            best = r
            break
    progress = True
    while progress and time.time() < end:
        progress = False
        for s in shrinks(best_scn):
            if time.time() > end:
                break
            if not check.valid(s):
                continue
            r = attempt(s, best['sched'])
            if r is None and best['sched'] and tried % 4 == 0:
                r = attempt(s, None)
            if r:
                best_scn, best = s, r
                progress = True
                break
    # Schedule: truncate, then zero single choices.
    sched = list(best['sched'])
    k = len(sched)
    while k > 0 and time.time() < end:
        cut = max(1, k // 2)
        r = attempt(best_scn, sched[:len(sched) - cut])
        if r:
            sched = sched[:len(sched) - cut]
            best = r
            k = min(k, len(sched))
        else:
            k = cut // 2 if cut > 1 else 0
    j = 0
    while j < len(sched) and time.time() < end and j < 400:
        if sched[j]:
            c = sched[:j] + [0] + sched[j + 1:]
            r = attempt(best_scn, c)
            if r:
                sched = c
                best = r
        j += 1
    while sched and sched[-1] == 0:
        sched.pop()
    best = dict(best)
    best['sched'] = sched
    return best_scn, best, tried


# -- main ------------------------------------------------------------------------------------------


def replay_file(path):
    with fsim.real_open(path) as f:
        return json.load(f)


def main(check, argv):
    if '--replay' in argv:
        return do_replay(check, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    print('seed=%d tier=%s property=%s' % (seed, tier, check.ID))
    sys.stdout.flush()
    mods.setup(need_swim=check.NEED_SWIM)
    check.prepare()
    n = check.RUNS[tier]
    if os.environ.get('CRYSIM_RUNS'):
        n = int(os.environ['CRYSIM_RUNS'])
    wall = check.WALL[tier]
    results, late, dead = run_batch(check, seed, tier, n, wall)
    errors = [r for r in results if r['outcome'] == 'error']
    viol = [r for r in results if r['outcome'] == 'violation']
    knowns, fresh = {}, []
    for r in viol:
        k = known(check, r['scn'], r)
        if k:
            knowns[k['id']] = k
        else:
            fresh.append(r)
    extra = []
    if not fresh:
        try:
            extra = check.after(seed, tier, results) or []
        except Violation as v:
            fresh.append({'i': -1, 'kind': v.kind, 'msg': v.msg, 'scn': v.info.get('scn'), 'sched': [],
                          'direct': True})
    write_evidence(check, seed, tier, results, late, time.time() - t0, len(fresh), knowns, extra)
    for k in knowns.values():
        print('KNOWN-FINDING: property=%s %s' % (check.ID, k['what']))
    if fresh:
        return report(check, fresh, seed)
    if errors:
        print('ERROR: %d runs gave no answer; first (run %d):\n%s' % (len(errors), errors[0]['i'], errors[0]['msg']))
        return 2
    if dead:
        print('ERROR: worker died with status %r' % (dead,))
        return 2
    if late and len(results) < max(10, n // 20):
        print('ERROR: only %d of %d runs were executed' % (len(results), n))
        return 2
    print('OK property=%s runs=%d (%d not reached in time) wall=%.1fs' % (check.ID, len(results), late,
                                                                         time.time() - t0))
    return 0


def report(check, fresh, seed):
    """Report the first violation which reproduces in a fresh worker and, minimised, in a fresh process."""
    for r in fresh[:6]:
        rc = report_one(check, r, seed)
        if rc == 1:
            return 1
    return 2


def report_one(check, r, seed):
    print('run %d violates: %s: %s' % (r['i'], r['kind'], r['msg']))
    sys.stdout.flush()
    scn, best, tried = r['scn'], r, 0
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (check.ID, seed, r['i']))
    if not r.get('direct'):
        again = in_child(lambda: execute(check, scn, r['sched'] if r['kind'] != 'no-progress' else None), 300)
        if not again or again['outcome'] != 'violation' or again['kind'] != r['kind']:
            # State left by an earlier run of the same worker mattered: not a pure function of the seed.
            print('ERROR: run %d does not reproduce in a fresh worker: %s'
                  % (r['i'], again and (again['outcome'], again['kind'], again['msg'])))
            return 2
        scn, best, tried = minimise(check, scn, again, check.SHRINK_WALL)
    for scn, best in ((scn, best), (r['scn'], r)):
        with fsim.real_open(path, 'w') as f:
            json.dump({'property': check.ID, 'seed': seed, 'run': r['i'], 'kind': best['kind'], 'msg': best['msg'],
                       'scenario': scn, 'schedule': best['sched'], 'original_scenario': r['scn'],
                       'minimisation_attempts': tried, 'direct': bool(r.get('direct')),
                       'how': 'python check.py %s --replay <this file>' % check.ID}, f, indent=1)
        if r.get('direct'):
            break
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), check.ID, '--replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if p.returncode == 1:
            break
        print('ERROR: the replay file does not reproduce in a fresh process:\n%s'
              % p.stdout.decode(errors='replace')[-2000:])
    else:
        return 2
    print('minimised in %d attempts: %s: %s' % (tried, best['kind'], best['msg']))
    print('VIOLATION property=%s replay=%s' % (check.ID, path))
    return 1


def do_replay(check, path):
    d = replay_file(path)
    mods.setup(need_swim=check.NEED_SWIM)
    check.prepare()
    if d.get('direct'):
        try:
            check.replay_direct(d)
        except Violation as v:
            print('replayed: %s: %s' % (v.kind, v.msg))
            print('VIOLATION property=%s replay=%s' % (check.ID, path))
            return 1
        print('the violation does not occur')
        return 0
    r = in_child(lambda: execute(check, d['scenario'], d['schedule'] if d['kind'] != 'no-progress' else None), 600)
    if r is None:
        print('ERROR: the replay gave no answer')
        return 2
    if r['outcome'] == 'violation':
        print('replayed: %s: %s' % (r['kind'], r['msg']))
        if r['kind'] != d['kind'] or (r['msg'] != d['msg'] and r['kind'] != 'no-progress'):
            print('note: recorded as %s: %s' % (d['kind'], d['msg']))
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    if r['outcome'] == 'error':
        print('ERROR: %s' % r['msg'])
        return 2
    print('the violation does not occur')
    return 0


def write_evidence(check, seed, tier, results, late, wall, violations, knowns, extra):
    stats, sigs = {}, set()
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        sigs.update(r['sigs'])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')}
    other = {k: v for k, v in sorted(stats.items()) if ':' not in k}
    nontrivial = [r for r in results if r['nontrivial']]
    samples = []
    for r in nontrivial:
        if r['sample'] is not None and len(samples) < 4:
            samples.append(dict(run=r['i'], **r['sample']))
    cov = {
        'evaluations': len(results),
        'distinct_nontrivial': len(sigs) if sigs else len(nontrivial),
        'rule': check.RULE,
        'samples': samples or [{'run': 0, 'note': 'no sample'}],
        'simulated_runs': len(results),
        'nontrivial_runs': len(nontrivial),
        'runs_not_reached_in_time': late,
        'seeds_per_hour': int(len(results) / max(wall, 1e-6) * 3600),
        'simulated_time_s': round(sum(r['sim_time'] for r in results), 3),
        'faults_injected_that_fired': faults,
        'reach_probes': probes,
        'counters': other,
        'scheduling_choices': sum(r['sched'] if isinstance(r['sched'], int) else len(r['sched']) for r in results),
        'real_code': check.REAL,
        'stubs': check.STUBS,
        'known_findings_seen': sorted(knowns),
    }
    for e in extra:
        cov.update(e)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with fsim.real_open(os.path.join(d, check.ID + '.json'), 'w') as f:
        json.dump({'property': check.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': check.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)


class Check:
    """Base of a property check."""

    ID = None
    TITLE = ''
    NEED_SWIM = False
    RUNS = {'quick': 400, 'thorough': 20000}
    WALL = {'quick': 60, 'thorough': 1500}
    SHRINK_WALL = 25
    RULE = ''
    REAL = []
    STUBS = []
    ASSUMPTIONS = []

    def prepare(self):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, scn, ctx):
        raise NotImplementedError

    def valid(self, scn):
        return True

    def is_known(self, k, scn, r):
        return k.get('kind') == r['kind'] and k.get('match', '') in (r['msg'] or '')

    def after(self, seed, tier, results):
        return []

    def replay_direct(self, d):
        raise HarnessError('no direct replay')
