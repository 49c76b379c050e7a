"""
Simulation kernel: choices, tasks, simulated processes.

One controller thread owns the execution.  Every simulated task is a parked real thread; exactly one
thread runs at a time and the controller decides which, through `Choices`.  A run is therefore a pure
function of (scenario, list of choices, code under test).
"""

import gc
import io
import os
import random
import sys
import threading
import traceback


class SimCrash(BaseException):
    """The simulated process has been killed at this point."""


class SimKilled(BaseException):
    """The simulation is over: unwind this task without any effect."""


class Violation(Exception):
    """A property is broken."""

    def __init__(self, kind, msg, **info):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.info = info


class HarnessError(Exception):
    """The machinery itself cannot give an answer."""


# --------------------------------------------------------------------------------------------------


class Choices:
    """Source of every run-time decision.  0 is always the plainest alternative."""

    def __init__(self, seed=0, replay=None):
        self.rng = random.Random(seed)
        self.replay = replay
        self.log = []
        self.pos = 0

    def pick(self, n, weights=None):
        """Choose a number in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = v % n
        elif weights is None:
            v = self.rng.randrange(n)
        else:
            v = self.rng.choices(range(n), weights)[0]
        self.log.append(v)
        return v


# --------------------------------------------------------------------------------------------------


REPO_ROOT = None            # scratch copy of /repo/crysgsu, set by mods.setup()
EXTRA_MODULES = ('mpi4py', 'mpi4py.MPI')


_foreign = set()            # names of modules known not to belong to the code under test


def repo_modules():
    """Names of the loaded modules of the code under test."""
    r = []
    for n in sys.modules.keys() - _foreign:
        m = sys.modules.get(n)
        if is_repo_module(n, m):
            r.append(n)
        elif n not in EXTRA_MODULES and n not in ('__main__', '__mp_main__'):
            _foreign.add(n)
    return r


def is_repo_module(name, mod):
    f = getattr(mod, '__file__', None)
    if f is None:
        if REPO_ROOT is not None and any(str(q).startswith(REPO_ROOT) for q in getattr(mod, '__path__', ())):
            return True
        return name in EXTRA_MODULES and getattr(mod, '_sim', False)
    return REPO_ROOT is not None and f.startswith(REPO_ROOT + '/')


class Proc:
    """A simulated operating-system process: own modules, argv, cwd, stdout, random stream, clock."""

    count = 0           # processes started in this run

    def __init__(self, name, cwd, seed=0, rank=None):
        self.name = name
        self.cwd = cwd
        self.rank = rank
        self.argv = ['sim']
        self.path = [REPO_ROOT] + _base_path
        self.modules = {}
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.rng_state = random.Random(seed).getstate()
        Proc.count += 1
        self.entropy = random.Random('entropy %s %s %d' % (name, seed, Proc.count))     # random bytes of the system
        self.pid = 1000 + (Proc.count * 37) % 30000
        self.alive = True           # False after a simulated kill
        self.ops = []               # log of I/O operations
        self.counts = {}            # applicable-operation counters, per fault class
        self.faults = []            # pending faults
        self.files = []             # open simulated files
        self.io = {}                # buffer sizes and benign behaviours
        self.heal()
        self.read_paths = []        # what this process has read and written so far
        self.write_paths = []
        self.trace_hook = None

    def heal(self):
        """The disk works again."""
        self.sticky = None          # errno of a full disk
        self.sticky_left = None     # writes that fail before space is free again (None - for ever)
        self.bad = {}               # path -> errno: files which cannot be written any more


_base_path = None
_current_proc = None
_outside = None


def current_proc():
    return _current_proc


class swapped_proc:
    """Context in which the interpreter looks like the given simulated process."""

    def __init__(self, proc):
        self.proc = proc

    def __enter__(self):
        enter_proc(self.proc)
        return self.proc

    def __exit__(self, *a):
        leave_proc()
        return False


def enter_proc(proc):
    global _current_proc, _outside
    if proc is None:
        return
    assert _current_proc is None
    _outside = (sys.argv, sys.path[:], sys.stdout, sys.stderr, random.getstate())
    sys.argv = proc.argv
    sys.path[:] = proc.path
    for name in repo_modules():
        del sys.modules[name]
    sys.modules.update(proc.modules)
    sys.stdout = proc.stdout
    sys.stderr = proc.stderr
    random.setstate(proc.rng_state)
    os.chdir(proc.cwd)
    _current_proc = proc


def leave_proc():
    global _current_proc, _outside
    proc = _current_proc
    if proc is None:
        return
    proc.argv = sys.argv
    proc.path = sys.path[:]
    proc.modules = {n: sys.modules[n] for n in sorted(repo_modules())}
    for name in proc.modules:
        del sys.modules[name]
    proc.rng_state = random.getstate()
    proc.cwd = os.getcwd()
    sys.argv, path, sys.stdout, sys.stderr, st = _outside
    sys.path[:] = path
    random.setstate(st)
    os.chdir('/')
    _current_proc = None
    _outside = None


# --------------------------------------------------------------------------------------------------


class Task:
    """A schedulable flow of control (parked thread)."""

    def __init__(self, kernel, name, fn, proc):
        self.kernel = kernel
        self.name = name
        self.fn = fn
        self.proc = proc
        self.go = threading.Lock()
        self.go.acquire()
        self.state = 'ready'
        self.pred = None
        self.why = 'start'
        self.exc = None
        self.tb = None
        self.result = None
        self.killed = False
        self.tracer = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.go.acquire()
        try:
            if self.killed:
                raise SimKilled()
            if self.tracer is not None:
                sys.settrace(self.tracer)
            self.result = self.fn()
        except SimKilled:
            pass
        except BaseException as e:      # noqa: everything a process can die of is recorded
            self.exc = e
            self.tb = traceback.format_exc()
        finally:
            sys.settrace(None)
            self.state = 'done'
            self.kernel.back.release()


class Kernel:
    """Deterministic cooperative scheduler."""

    def __init__(self, choices, policy=None, max_steps=200000):
        self.choices = choices
        self.tasks = []
        self.sources = []               # objects with .events() -> list of (label, callable, weight)
        self.back = threading.Lock()
        self.back.acquire()
        self.current = None
        self.max_steps = max_steps
        self.steps = 0
        self.now = 0.0
        self.policy = dict({'kind': 'uniform'}, **(policy or {}))
        self.trace = []                 # compact schedule trace (for interleaving signatures)
        self.switches = 0
        self.deadlock = None
        self.overrun = False
        self.stop = False
        self.invariant = None

    def spawn(self, name, fn, proc=None):
        t = Task(self, name, fn, proc)
        self.tasks.append(t)
        t.thread.start()
        return t

    # -- called from task threads ------------------------------------------------------------------

    def me(self):
        return self.current

    def point(self, why=''):
        """Scheduling point."""
        t = self.current
        t.why = why
        self._hand_over(t)

    def block(self, pred, why=''):
        """Wait until pred() holds (evaluated by the controller)."""
        t = self.current
        t.why = why
        t.pred = pred
        t.state = 'blocked'
        self._hand_over(t)

    def _hand_over(self, t):
        tr = sys.gettrace()
        if tr is not None:
            sys.settrace(None)
        self.back.release()
        t.go.acquire()
        if t.killed:
            raise SimKilled()
        if tr is not None:
            sys.settrace(tr)

    # -- controller --------------------------------------------------------------------------------

    def _weights(self, options):
        kind = self.policy['kind']
        if kind == 'uniform':
            return None
        w = []
        for k, o in options:
            if kind == 'sticky':
                w.append(self.policy.get('stick', 8.0) if o is self.last else 1.0)
            elif kind == 'starve':
                starved = (k == 'task' and o.name in self.policy['who']) or \
                          (k == 'event' and 'net' in self.policy['who'])
                w.append(0.02 if starved else 1.0)
            elif kind == 'prio':
                nm = o.name if k == 'task' else o[0].split(' ')[0]
                pr = self.policy.setdefault('prios', {})
                if nm not in pr or self.choices.rng.random() < self.policy.get('change', 0.02):
                    pr[nm] = self.choices.rng.random()
                w.append(1e-6 + pr[nm] ** 8)
            else:
                w.append(1.0)
        return w

    last = None

    def run(self):
        try:
            while True:
                options = []
                for t in self.tasks:
                    if t.state == 'ready' or (t.state == 'blocked' and t.pred()):
                        options.append(('task', t))
                for s in self.sources:
                    for e in s.events():
                        options.append(('event', e))
                # The task that ran last goes first: choice 0 means "no context switch".
                for i, (k, o) in enumerate(options):
                    if o is self.last:
                        options.insert(0, options.pop(i))
                        break
                if not options or self.stop:
                    live = [t for t in self.tasks if t.state != 'done']
                    if live and not self.stop:
                        self.deadlock = [(t.name, t.why) for t in live]
                    return
                if self.steps >= self.max_steps:
                    self.overrun = True
                    return
                self.steps += 1
                i = self.choices.pick(len(options), self._weights(options))
                k, o = options[i]
                self.now += 1e-4 * (1 + (self.steps * 7919) % 97)
                if k == 'event':
                    self.trace.append(o[0])
                    o[1]()
                else:
                    if o is not self.last:
                        self.switches += 1
                    self.last = o
                    self.trace.append(o.name)
                    self._resume(o)
                if self.invariant is not None:
                    self.invariant()
        finally:
            self._kill_rest()

    def _resume(self, t):
        t.state = 'ready'
        t.pred = None
        self.current = t
        enter_proc(t.proc)
        t.go.release()
        self.back.acquire()
        leave_proc()
        self.current = None

    on_end = None

    def _kill_rest(self):
        if self.on_end is not None:
            self.on_end()
        for t in self.tasks:
            n = 0
            while t.state != 'done':
                t.killed = True
                if t.proc is not None:
                    t.proc.alive = False
                n += 1
                if n > 1000:
                    raise HarnessError('task %s does not unwind' % t.name)
                self._resume(t)
        for t in self.tasks:
            t.thread.join(10)


def drop_exception(e):
    """Release everything an exception keeps alive (frames, open files)."""
    while e is not None:
        e.__traceback__ = None
        e = e.__context__
    gc.collect(0)
