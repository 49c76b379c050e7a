"""
Helpers shared by the checks: running repository code in simulated processes.
"""

import os
import sys
import tempfile

from . import core, fsim, mods
from .core import Proc, SimCrash, SimKilled, Violation


class Result:
    """How a simulated process ended."""

    def __init__(self, status, exc, out, err, tb=None):
        self.status = status        # 0 success, >0 failure, -9 killed
        self.exc = exc              # 'Type: message' or None
        self.out = out
        self.err = err
        self.tb = tb

    @property
    def ok(self):
        return self.status == 0

    def __repr__(self):
        return 'status %d%s' % (self.status, ' (%s)' % self.exc if self.exc else '')


def body(fs, proc, fn):
    """Run fn inside the (already entered) process and translate its end to a Result."""
    import gc
    import traceback
    st, exc, tb = 0, None, None
    try:
        r = fn()
        if isinstance(r, int) and not isinstance(r, bool):
            st = r
    except SimCrash:
        st, exc = -9, None
    except SimKilled:
        raise
    except SystemExit as e:
        st = 0 if e.code in (None, 0) else (e.code if isinstance(e.code, int) else 1)
    except Violation:
        raise
    except BaseException as e:
        if not proc.alive:
            st = -9
        else:
            st, exc = 1, '%s: %s' % (type(e).__name__, e)
            tb = traceback.format_exc()
        core.drop_exception(e)
        del e
    gc.collect(0)
    fs.finish(proc)
    if not proc.alive:
        st = -9
    return Result(st, exc, proc.stdout.getvalue(), proc.stderr.getvalue(), tb)


class Interrupter:
    """Raises an exception at the n-th executed line of the code under test (Ctrl-C, failing allocation)."""

    def __init__(self, n, exc):
        self.left = n
        self.exc = exc
        self.fired = False
        self.where = None
        self.lines = 0
        self.root = core.REPO_ROOT

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' and not self.fired:
            self.lines += 1
            if self.left <= 0:
                self.fired = True
                self.where = frame.f_code.co_name
                raise self.exc('injected')
            self.left -= 1
        return self.local

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


EXC = {'ctrl-c': KeyboardInterrupt, 'no-memory': MemoryError}


def run_proc(fs, proc, fn):
    """Run one process alone, to its end."""
    with fsim.using(fs):
        core.enter_proc(proc)
        try:
            return body(fs, proc, fn)
        finally:
            core.leave_proc()


def script(fs, name, rel, args, cwd, seed=0, faults=(), io=None, setup=None, interrupt=None):
    """Run a script of the repository alone.

    :return: (Result, Proc)
    """
    p = Proc(name, cwd, seed)
    p.faults = [fsim.Fault(f) for f in faults]
    p.io = dict(io or {})

    def fn():
        if setup is not None:
            setup()
        if interrupt is None:
            return mods.run_script(rel, args)
        with interrupt:
            return mods.run_script(rel, args)
    return run_proc(fs, p, fn), p


def call(fs, name, fn, cwd, seed=0, faults=(), io=None):
    p = Proc(name, cwd, seed)
    p.faults = [fsim.Fault(f) for f in faults]
    p.io = dict(io or {})
    return run_proc(fs, p, fn), p


def tmp_inside(d):
    """Temporary files of the code under test stay on the simulated disk."""
    t = os.path.join(d, 'tmp')
    os.makedirs(t, exist_ok=True)
    tempfile.tempdir = t
    tempfile._name_sequence = None
    return t


def io_profile(rng, benign=True):
    """Random but legal behaviour of buffers and system calls."""
    r = {'wbuf': rng.choice([1, 16, 64, 256, 1024, 8192]), 'rbuf': rng.choice([16, 64, 512, 8192])}
    if benign and rng.random() < 0.3:
        r['short_read'] = rng.choice([3, 17, 100])
    if benign and rng.random() < 0.3:
        r['short_write'] = True
    return r
