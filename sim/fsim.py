"""
Simulated file system seam.

Files live in a scratch directory; every open / raw read / raw write / close / directory operation of a
simulated process passes through here, is counted, may be a scheduling point, and may be given a fault.
"""

import builtins
import datetime
import errno
import io
import os
import random
import shutil
import socket
import subprocess
import time

from . import core
from .core import SimCrash

real_open = builtins.open
_real = {}
FS = None           # the FileSystem of the run in progress


class Fault:
    """One injected fault.

    kind : what happens;  at : how many applicable operations pass before it;  arg : detail.
    """

    # fault kind -> operation classes it applies to
    APPLIES = {
        'enospc': ('write',), 'eio_write': ('write',), 'edquot': ('write',), 'short_write': ('write',),
        'eintr_write': ('write',),
        'eio_read': ('read',), 'short_read': ('read',), 'eintr_read': ('read',),
        'eacces_open': ('open_w', 'open_r'), 'emfile_open': ('open_w', 'open_r'), 'eio_close': ('close_w',),
        'enospc_open': ('open_w',), 'eio_open': ('open_r',),
        'emkdir': ('mkdir',), 'elist': ('list',),
        'kill': ('open_w', 'open_r', 'write', 'read', 'close_w', 'mkdir', 'list', 'change'),
        'power': ('open_w', 'open_r', 'write', 'read', 'close_w', 'mkdir', 'list', 'change'),
        'clock_jump': ('open_w', 'open_r', 'write', 'read', 'close_w', 'mkdir', 'list', 'time'),
        'interrupt': ('open_w', 'open_r', 'write', 'read', 'close_w'),
    }

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec['kind']
        self.left = spec['at']
        self.arg = spec.get('arg', 0)
        self.fired = False


BENIGN = ('short_write', 'eintr_write', 'short_read', 'eintr_read', 'clock_jump')


class SimRaw(io.RawIOBase):
    """Raw file whose every system call is owned by the simulator."""

    def __init__(self, fs, proc, path, flags, name, fd=None):
        super().__init__()
        self.fs = fs
        self.proc = proc
        self.path = path
        self.name = name
        self.mode = flags
        self.w = any(c in flags for c in 'wax+')
        self.f = io.FileIO(path if fd is None else fd, flags)
        self.down = False
        self.gone = False               # the descriptor was closed below
        fs.fds[self.f.fileno()] = self

    def fileno(self):
        return self.f.fileno()

    def sync(self):
        """What is written so far survives a power loss."""
        self.fs.op(self.proc, 'change', self.path)
        try:
            with real_open(self.path, 'rb') as f:
                self.fs.synced[self.path] = f.read()
        except OSError:
            pass

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def isatty(self):
        return False

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        if not self.proc.alive:
            return 0
        self.fs.op(self.proc, 'change', self.path)
        return self.f.truncate(*a)

    def readinto(self, b):
        n = len(b)
        if self.proc.io.get('short_read'):
            n = max(1, min(n, self.fs.io_rng.randint(1, self.proc.io['short_read'])))
        f = self.fs.op(self.proc, 'read', self.path)
        if f is not None:
            if f.kind == 'eintr_read':
                raise InterruptedError(errno.EINTR, 'Interrupted system call')
            if f.kind == 'short_read':
                n = max(1, min(n, 1 + f.arg % 7))
            if f.kind == 'eio_read':
                raise OSError(errno.EIO, 'Input/output error', self.path)
        return self.f.readinto(memoryview(b)[:n])

    def write(self, b):
        if not self.proc.alive:
            return len(b)               # buffers of a killed process go nowhere
        data = bytes(b)
        n = len(data)
        if self.proc.io.get('short_write') and n > 1:
            n = self.fs.io_rng.randint(1, n)
        partial = [n]
        f = self.fs.op(self.proc, 'write', self.path, self, data)
        if f is not None:
            if f.kind == 'eintr_write':
                raise InterruptedError(errno.EINTR, 'Interrupted system call')
            if f.kind == 'short_write':
                n = max(1, min(n, 1 + f.arg % 7))
            if f.kind in ('enospc', 'edquot'):
                k = f.arg % (len(data) + 1)
                if k:
                    self.f.write(data[:k])
                if k == 0 or k == len(data):
                    raise OSError(errno.ENOSPC if f.kind == 'enospc' else errno.EDQUOT,
                                  'No space left on device', self.path)
                return k
            if f.kind == 'eio_write':
                raise OSError(errno.EIO, 'Input/output error', self.path)
        return self.f.write(data[:n])

    def close(self):
        if self.closed:
            return
        proc, fs = self.proc, self.fs
        if not self.f.closed:
            fs.fds.pop(self.f.fileno(), None)
        try:
            if proc.alive and self.w and not self.down:
                self.down = True
                f = fs.op(proc, 'close_w', self.path)
                if f is not None and f.kind == 'eio_close':
                    # Delayed write-back failed: the tail is lost and close() says so.
                    size = os.path.getsize(self.path)
                    _real['truncate'](self.path, f.arg % (size + 1) if size else 0)
                    raise OSError(errno.EIO, 'Input/output error', self.path)
        finally:
            self.f.close()
            if self in proc.files:
                proc.files.remove(self)
            super().close()


class FileSystem:
    """Counting, fault-injecting view of one scratch directory."""

    def __init__(self, root, choices=None, kernel=None, seed=0):
        self.root = os.path.realpath(root)
        self.choices = choices
        self.kernel = kernel
        self.io_rng = random.Random(seed)
        self.list_rng = random.Random(seed + 1)
        self.escapes = []               # attempted effects outside the scratch directory
        self.changed = []               # paths changed, in order: (proc, what, path)
        self.fired = {}                 # fault kind -> count
        self.clock = 1.7e9
        self.base_clock = 1.7e9
        self.tz = 0                     # seconds the local time is ahead of the universal one
        self.cpus = 8
        self.clock_jumps = []
        self.shuffle_listing = False
        self.ops_total = 0
        self.views = {}                 # (proc, path) -> alternative path (per-process contents)
        self.before = {}                # path -> content before the first change (power loss)
        self.time_reads = 0
        self.schedule = kernel is not None
        self.fds = {}                   # descriptor -> open simulated file
        self.moved = set()              # paths that got their content by a rename
        self.synced = {}                # path -> content which survives a power loss
        self.on_op = None
        self.max_ops = None             # a run with more operations than this counts as endless
        self.hung = False

    # -- faults ------------------------------------------------------------------------------------

    def op(self, proc, cls, path, raw=None, data=None):
        """One operation is about to happen.

        :return: fault to be applied by the caller (None - nothing)
        """
        if not proc.alive:
            raise SimCrash()
        if self.schedule and self.kernel.current is not None:
            self.kernel.point(cls)
            if not proc.alive:
                raise SimCrash()
        self.ops_total += 1
        if self.max_ops and self.ops_total > self.max_ops:
            proc.alive = False
            self.hung = True
            raise SimCrash()
        self.clock += 0.001
        proc.ops.append((cls, self.rel(path), len(data) if data is not None else 0))
        if self.on_op is not None:
            self.on_op(proc, cls, path)
        if cls == 'write' and proc.sticky is not None:
            if proc.sticky_left is None or proc.sticky_left > 0:
                if proc.sticky_left is not None:
                    proc.sticky_left -= 1
                raise OSError(proc.sticky, os.strerror(proc.sticky), path)
            proc.sticky = None
        if path in proc.bad and cls in ('write', 'open_w', 'open_r'):
            raise OSError(proc.bad[path], os.strerror(proc.bad[path]), path)
        for f in proc.faults:
            if f.fired or cls not in Fault.APPLIES[f.kind]:
                continue
            if f.left > 0:
                f.left -= 1
                continue
            f.fired = True
            self.fired[f.kind] = self.fired.get(f.kind, 0) + 1
            return self.fire(proc, f, cls, path, raw, data)
        return None

    def fire(self, proc, f, cls, path, raw, data):
        k = f.kind
        if k in ('kill', 'power'):
            if cls == 'write' and data:
                # The call in progress reaches the disk partly.
                n = f.arg % (len(data) + 1)
                if n:
                    raw.f.write(data[:n])
            proc.alive = False
            if k == 'power':
                self.power_loss(proc, f.arg)
            raise SimCrash()
        if k == 'interrupt':
            raise KeyboardInterrupt()
        if k == 'clock_jump':
            jump = [-86400.0, 3600.0, -0.5, 1e7, -1e9][f.arg % 5]
            self.clock += jump
            self.clock_jumps.append(jump)
            return None
        if k in ('enospc', 'edquot'):
            proc.sticky = errno.ENOSPC if k == 'enospc' else errno.EDQUOT
            # Every third time space is free again after some more failures.
            proc.sticky_left = 1 + f.arg // 3 % 6 if f.arg % 3 == 0 else None
            return f
        if k == 'eio_write' and f.arg % 2:
            proc.bad[path] = errno.EIO
        if k == 'eacces_open':
            if f.arg % 2:
                proc.bad[path] = errno.EACCES
            raise PermissionError(errno.EACCES, 'Permission denied', path)
        if k == 'emfile_open':
            raise OSError(errno.EMFILE, 'Too many open files', path)
        if k in ('enospc_open', 'emkdir'):
            raise OSError(errno.ENOSPC, 'No space left on device', path)
        if k in ('eio_open', 'elist'):
            raise OSError(errno.EIO, 'Input/output error', path)
        return f

    def power_loss(self, proc, arg):
        """Nothing in this code base is synced: files changed since boot keep any prefix or the old content."""
        rng = random.Random(arg)
        for path, old in sorted(self.before.items()):
            if os.path.isdir(path):
                continue
            r = rng.random()
            if path in self.synced:
                # (only a rename to this place may be lost)
                if r < 0.25 and path in self.moved and old is not None:
                    with real_open(path, 'wb') as f:
                        f.write(old)
                elif os.path.exists(path):
                    with real_open(path, 'rb') as f:
                        cur = f.read()
                    keep = self.synced[path]
                    if cur[:len(keep)] != keep:
                        cur = keep
                    with real_open(path, 'wb') as f:
                        f.write(cur[:rng.randint(len(keep), len(cur))])
                continue
            if r < 0.25:
                if old is None:
                    if os.path.exists(path):
                        _real['remove'](path)
                else:
                    with real_open(path, 'wb') as f:
                        f.write(old)
            elif os.path.exists(path):
                size = os.path.getsize(path)
                if r < 0.8 and size:
                    _real['truncate'](path, rng.randrange(size + 1))

    def inside(self, path):
        return path == self.root or path.startswith(self.root + '/')

    def rel(self, path):
        return path[len(self.root) + 1:] if self.inside(path) else path

    def guard(self, proc, path, what):
        """Record a change; refuse it outside the scratch directory."""
        p = os.path.realpath(os.fsdecode(path))
        if not self.inside(p):
            self.escapes.append((proc.name, what, p))
            raise PermissionError(errno.EACCES, 'outside of the simulated disk', p)
        if p not in self.before:
            try:
                with real_open(p, 'rb') as f:
                    self.before[p] = f.read()
            except OSError:
                self.before[p] = None
        self.changed.append((proc.name, what, self.rel(p)))
        return p

    # -- seam --------------------------------------------------------------------------------------

    def open(self, proc, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        binary = 'b' in mode
        if opener is not None:
            file = opener(os.fspath(file), _flags(mode))
        if isinstance(file, int):
            return self.wrap(self.fds[file], file, mode, buffering, encoding, errors, newline) if file in self.fds \
                else real_open(file, mode, buffering, encoding, errors, newline, closefd)
        path = os.path.realpath(os.fsdecode(file))
        flags = mode.replace('b', '').replace('t', '').replace('U', '')
        writing = any(c in flags for c in 'wax+')
        if writing:
            self.op(proc, 'open_w', path)
            path = self.guard(proc, path, 'open ' + flags)
            proc.write_paths.append(self.rel(path))
        else:
            if not self.inside(path):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            self.op(proc, 'open_r', path)
            proc.read_paths.append(self.rel(path))
            path = self.views.get((proc.name, path), path)
        raw = SimRaw(self, proc, path, flags, file)
        proc.files.append(raw)
        return self.wrap(raw, file, mode, buffering, encoding, errors, newline)

    def wrap(self, raw, file, mode, buffering=-1, encoding=None, errors=None, newline=None):
        """The layers of the standard library over a raw file."""
        proc = raw.proc
        binary = 'b' in mode
        flags = mode.replace('b', '').replace('t', '').replace('U', '')
        writing = any(c in flags for c in 'wax+')
        if buffering == 0:
            return raw
        size = proc.io.get('wbuf' if writing else 'rbuf', 8192)
        if '+' in flags:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
        if size < 8192:
            text._CHUNK_SIZE = max(size, 1)
        text.mode = mode
        return text

    def finish(self, proc):
        """The process ends: what it left open is closed."""
        for raw in list(proc.files):
            try:
                raw.close()
            except (OSError, SimCrash):
                pass


# --------------------------------------------------------------------------------------------------
# Patches.  Installed once per worker process; they act only inside simulated processes.
# --------------------------------------------------------------------------------------------------


def _active():
    p = core.current_proc()
    return p if (p is not None and FS is not None) else None


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = _active()
    if p is None or (isinstance(file, int) and file not in FS.fds):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return FS.open(p, file, mode, buffering, encoding, errors, newline, closefd, opener)


def _listing(path='.'):
    p = _active()
    if p is None or isinstance(path, int):
        return _real['listdir'](path)
    FS.op(p, 'list', os.path.realpath(path))
    r = sorted(_real['listdir'](path))
    if FS.shuffle_listing:
        FS.list_rng.shuffle(r)
    return r


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(path='.'):
    p = _active()
    if p is None or isinstance(path, int):
        return _real['scandir'](path)
    FS.op(p, 'list', os.path.realpath(path))
    with _real['scandir'](path) as it:
        r = sorted(it, key=lambda e: e.name)
    if FS.shuffle_listing:
        FS.list_rng.shuffle(r)
    return _Scan(r)


def _changer(name, cls='change', npaths=1):
    def call(*a, **k):
        p = _active()
        if p is None or (a and isinstance(a[0], int)) or 'dir_fd' in k and k['dir_fd'] is not None:
            return _real[name](*a, **k)
        paths = list(a[:npaths])
        for q in paths:
            FS.op(p, cls, os.path.realpath(os.fsdecode(q)))
        if name == 'mkdir' and os.path.lexists(a[0]):
            return _real[name](*a, **k)
        for q in paths:
            FS.guard(p, os.path.join(os.path.realpath(os.path.dirname(os.fsdecode(q)) or '.'),
                                     os.path.basename(os.fsdecode(q))), name)
        r = _real[name](*a, **k)
        if name in ('rename', 'replace') and len(paths) == 2:
            src, dst = [os.path.join(os.path.realpath(os.path.dirname(os.fsdecode(q)) or '.'),
                                     os.path.basename(os.fsdecode(q))) for q in paths]
            FS.moved.add(dst)
            FS.synced.pop(dst, None)
            if src in FS.synced:
                FS.synced[dst] = FS.synced.pop(src)
        return r
    return call


def _flags(mode):
    plus = '+' in mode
    if 'r' in mode:
        return os.O_RDWR if plus else os.O_RDONLY
    how = os.O_CREAT | (os.O_RDWR if plus else os.O_WRONLY)
    return how | (os.O_TRUNC if 'w' in mode else os.O_EXCL if 'x' in mode else os.O_APPEND)


def _os_open(path, flags, *a, **k):
    p = _active()
    if p is None or isinstance(path, int) or k.get('dir_fd') is not None:
        return _real['os_open'](path, flags, *a, **k)
    q = os.path.realpath(os.fsdecode(path))
    acc = flags & (os.O_WRONLY | os.O_RDWR)
    writing = bool(acc or flags & (os.O_CREAT | os.O_TRUNC))
    if not writing and (os.path.isdir(q) or not FS.inside(q)):
        return _real['os_open'](path, flags, *a, **k)
    FS.op(p, 'open_w' if writing else 'open_r', q)
    if writing:
        FS.guard(p, q, 'os.open')
        p.write_paths.append(FS.rel(q))
    else:
        p.read_paths.append(FS.rel(q))
        path = FS.views.get((p.name, q), path)
    fd = _real['os_open'](path, flags, *a, **k)
    mode = 'r+' if acc == os.O_RDWR else 'a' if flags & os.O_APPEND else 'r+' if acc else 'r'
    try:
        if acc == os.O_WRONLY and mode == 'r+':
            raw = SimRaw(FS, p, q, 'w', path, fd)     # (a descriptor is not truncated by this)
        else:
            raw = SimRaw(FS, p, q, mode, path, fd)
    except BaseException:
        os.close(fd)
        raise
    p.files.append(raw)
    return fd


def _on_fd(name, fun):
    """A call on a descriptor, when it belongs to a simulated file."""
    def call(fd, *a, **k):
        p = _active()
        if p is None or fd not in FS.fds:
            return _real[name](fd, *a, **k)
        return fun(FS.fds[fd], *a, **k)
    return call


def _again(fun):
    """As the interpreter does: an interrupted call is repeated."""
    while True:
        try:
            return fun()
        except InterruptedError:
            pass


def _fd_read(raw, n):
    b = bytearray(n)
    k = _again(lambda: raw.readinto(b)) if n else 0
    return bytes(b[:k])


def _fd_write(raw, data):
    return _again(lambda: raw.write(data)) if len(data) else 0


def _refuse(name):
    def call(*a, **k):
        p = _active()
        if p is None:
            return _real[name](*a, **k)
        FS.escapes.append((p.name, name, repr(a)[:200]))
        raise PermissionError(errno.EPERM, '%s is not available in the simulation' % name)
    return call


def _clock(name):
    def call(*a):
        p = _active()
        if p is None:
            return _real[name](*a)
        FS.time_reads += 1
        FS.clock += 0.0005
        for f in p.faults:
            if f.kind == 'clock_jump' and not f.fired:
                FS.op(p, 'time', FS.root)
                break
        c = FS.clock if name.startswith('time') else FS.clock + 0.0
        return int(c * 1e9) if name.endswith('_ns') else c
    return call


def _broken_down(name):
    """time.localtime and the like: the present is the simulated one."""
    def call(*a):
        p = _active()
        if p is None:
            return _real[name](*a)
        now = FS.clock + (FS.tz if name in ('localtime', 'ctime', 'strftime', 'asctime') else 0)
        if name == 'strftime':
            if len(a) == 1:
                FS.time_reads += 1
                return _real['strftime'](a[0], _real['gmtime'](now))
            return _real[name](*a)
        if a and a[0] is not None:
            return _real[name](*a)
        FS.time_reads += 1
        if name in ('ctime', 'asctime'):
            return _real['asctime'](_real['gmtime'](now))
        return _real['gmtime'](now)
    return call


class _Date(datetime.date):
    @classmethod
    def today(cls):
        if _active() is None:
            return super().today()
        FS.time_reads += 1
        return datetime.date.fromordinal(_Datetime.now().toordinal())


class _Datetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        if _active() is None:
            return super().now(tz)
        FS.time_reads += 1
        FS.clock += 0.0005
        t = FS.clock + (FS.tz if tz is None else 0)
        return cls(1970, 1, 1, tzinfo=tz) + datetime.timedelta(seconds=t)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if _active() is None:
            return super().utcnow()
        return cls.now(datetime.timezone.utc).replace(tzinfo=None)


for _c, _n in ((_Date, 'date'), (_Datetime, 'datetime')):
    _c.__name__ = _c.__qualname__ = _n
    _c.__module__ = 'datetime'


def _own(name, fun):
    """A property of the process or of the machine, as the simulated process sees it."""
    def call(*a, **k):
        p = _active()
        return _real[name](*a, **k) if p is None else fun(p, *a, **k)
    return call


def _urandom(p, n):
    return p.entropy.randbytes(n)


def _seed(self, a=None, version=2):
    p = _active()
    if a is None and p is not None:
        a = p.entropy.getrandbits(256)
    return _real['seed'](self, a, version)


def _sleep(s):
    p = _active()
    if p is None:
        return _real['sleep'](s)
    FS.clock += s
    if FS.kernel is not None and FS.kernel.current is not None:
        FS.kernel.point('sleep')


def install():
    if _real:
        return
    _real.update(listdir=os.listdir, scandir=os.scandir, mkdir=os.mkdir, remove=os.remove, unlink=os.unlink,
                 rename=os.rename, replace=os.replace, rmdir=os.rmdir, truncate=os.truncate, link=os.link,
                 symlink=os.symlink, chmod=os.chmod, utime=os.utime, os_open=os.open, sleep=time.sleep,
                 system=os.system, fork=os.fork, kill=os.kill, popen=os.popen, chown=os.chown)
    builtins.open = _open
    io.open = _open
    import numpy.lib._datasource as ds
    ds._open = _open
    ds._file_openers._load()
    for k, v in list(ds._file_openers._file_openers.items()):
        if v is real_open:
            ds._file_openers._file_openers[k] = _open
    os.listdir = _listing
    os.scandir = _scandir
    os.mkdir = _changer('mkdir', 'mkdir')
    for n in ('remove', 'unlink', 'rmdir', 'truncate', 'chmod', 'utime', 'chown'):
        setattr(os, n, _changer(n))
    for n in ('rename', 'replace', 'link', 'symlink'):
        setattr(os, n, _changer(n, npaths=2))
    os.open = _os_open
    for n in ('system', 'fork', 'kill', 'popen'):
        setattr(os, n, _refuse(n))
    for n, f in (('read', _fd_read), ('write', _fd_write), ('close', lambda r: r.close()),
                 ('fsync', lambda r: r.sync()), ('fdatasync', lambda r: r.sync()),
                 ('ftruncate', lambda r, n: r.truncate(n) and None), ('lseek', lambda r, *a: r.seek(*a))):
        _real['fd_' + n] = getattr(os, n)
        setattr(os, n, _on_fd('fd_' + n, f))
    shutil._USE_CP_SENDFILE = False
    _real['Popen'] = subprocess.Popen.__init__

    def popen(self, args, *a, **k):
        if _active() is None:
            return _real['Popen'](self, args, *a, **k)
        self.returncode = 0
        _refuse('Popen')(args)
    subprocess.Popen.__init__ = popen
    time.sleep = _sleep
    for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
        _real[n] = getattr(time, n)
        setattr(time, n, _clock(n))
    for n in ('localtime', 'gmtime', 'ctime', 'asctime', 'strftime'):
        _real[n] = getattr(time, n)
        setattr(time, n, _broken_down(n))
    datetime.date, datetime.datetime = _Date, _Datetime
    _real.update(getpid=os.getpid, getppid=os.getppid, urandom=os.urandom, cpu_count=os.cpu_count,
                 seed=random.Random.seed, gethostname=socket.gethostname)
    os.getpid = _own('getpid', lambda p: p.pid)
    os.getppid = _own('getppid', lambda p: 1)
    os.cpu_count = _own('cpu_count', lambda p: FS.cpus)
    socket.gethostname = _own('gethostname', lambda p: 'node%d' % (p.pid % 7))
    os.urandom = random._urandom = _own('urandom', _urandom)
    random.Random.seed = _seed
    random.seed = lambda a=None, version=2: _seed(random._inst, a, version)


class using:
    """Make a FileSystem the one seen by simulated processes."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global FS
        self.old = FS
        FS = self.fs
        return self.fs

    def __exit__(self, *a):
        global FS
        FS = self.old
        return False
