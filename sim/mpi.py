"""
Simulated MPI (mpi4py surface) on top of the kernel.

Semantics implemented: non-overtaking channels, tag/source matching with wildcards, eager and rendezvous
protocols (a rendezvous message is read from the sender's buffer only when the transfer happens; an eager one is
copied at once), receive buffers with undefined contents until completion, truncation errors, collectives matched
by call order per communicator, and a Finalize check.
"""

import pickle
import types

import numpy as np

from . import core


class MPIError(Exception):
    """An erroneous use of MPI: a real library may do anything here."""


ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3


class Status:
    def __init__(self):
        self.source, self.tag, self.count, self.error = ANY_SOURCE, ANY_TAG, 0, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, datatype=None):
        return self.count // getattr(datatype, 'size', 1)

    Get_elements = Get_count


class _Type:
    def __init__(self, name, dt):
        self.name, self.dt = name, np.dtype(dt)
        self.size = self.dt.itemsize

    def Get_size(self):
        return self.size


def _spec(buf):
    """Decode a buffer specification: -> (flat numpy view or None, count or counts, displs)."""
    counts = displs = None
    if isinstance(buf, (list, tuple)):
        items = list(buf)
        buf = items[0]
        rest = [x for x in items[1:] if not isinstance(x, (_Type, str)) and x is not None]
        if rest:
            counts = rest[0]
            if isinstance(counts, (list, tuple)) and len(counts) == 2 and hasattr(counts[0], '__len__'):
                counts, displs = counts
        if len(rest) > 1:
            displs = rest[1]
    if buf is None:
        return None, counts, displs
    a = buf if isinstance(buf, np.ndarray) else np.frombuffer(buf, dtype=np.uint8)
    if not a.flags['C_CONTIGUOUS']:
        raise ValueError('ndarray is not contiguous')
    v = a.reshape(-1)
    if v.size and v.__array_interface__['data'][0] != a.__array_interface__['data'][0]:
        raise ValueError('ndarray is not contiguous')
    return v, counts, displs


class Message:
    __slots__ = ('src', 'dst', 'tag', 'ctx', 'payload', 'view', 'req', 'eager', 'arrived', 'matched', 'nbytes',
                 'dtype', 'seq', 'sync')


class Request:
    def __init__(self, comm=None, kind=''):
        self.comm = comm
        self.kind = kind
        self.complete = False
        self.error = None
        self.status = None
        self.result = None
        self.consumed = False
        self.buf = None
        self.src = self.tag = None
        self.obj = False
        self.msg = None

    def _finish(self, status):
        self.consumed = True
        if status is not None and self.status is not None:
            status.source, status.tag, status.count = self.status
        if self.error is not None:
            raise self.error
        return self.result

    def Wait(self, status=None):
        self.wait(status)
        return True

    def wait(self, status=None):
        if self.comm is not None and not self.consumed:
            self.comm._block(lambda: self.complete, 'Wait(%s)' % self.kind)
        return self._finish(status)

    def Test(self, status=None):
        return self.test(status)[0]

    def test(self, status=None):
        if self.comm is not None:
            self.comm._point('Test')
        if self.complete:
            return True, self._finish(status)
        return False, None

    def Free(self):
        self.consumed = True

    def Cancel(self):
        pass

    @staticmethod
    def Waitall(requests, statuses=None):
        Request.waitall(requests, statuses)
        return True

    @staticmethod
    def waitall(requests, statuses=None):
        rs = list(requests)
        if rs:
            c = next((r.comm for r in rs if r.comm is not None), None)
            if c is not None:
                c._block(lambda: all(r.complete for r in rs), 'Waitall(%d)' % len(rs))
        return [r._finish(None) for r in rs]

    @staticmethod
    def Waitany(requests, status=None):
        return Request.waitany(requests, status)[0]

    @staticmethod
    def waitany(requests, status=None):
        rs = [r for r in requests if not r.consumed]
        if not rs:
            return -1, None
        w = rs[0].comm
        w._block(lambda: any(r.complete for r in rs), 'Waitany')
        done = [i for i, r in enumerate(requests) if r.complete and not r.consumed]
        i = done[w.world.kernel.choices.pick(len(done))]
        return i, requests[i]._finish(status)

    @staticmethod
    def Waitsome(requests, statuses=None):
        rs = [r for r in requests if not r.consumed]
        if not rs:
            return None
        rs[0].comm._block(lambda: any(r.complete for r in rs), 'Waitsome')
        done = [i for i, r in enumerate(requests) if r.complete and not r.consumed]
        for i in done:
            requests[i]._finish(None)
        return done

    @staticmethod
    def Testall(requests, statuses=None):
        rs = list(requests)
        if rs:
            rs[0].comm._point('Testall')
        if all(r.complete for r in rs):
            for r in rs:
                r._finish(None)
            return True
        return False

    testall = Testall


class World:
    """The simulated machine: channels between ranks, pending collectives."""

    def __init__(self, kernel, size, cfg, probe):
        self.kernel = kernel
        self.size = size
        self.cfg = cfg
        self.inflight = {}          # (src, dst) -> list of messages on the wire, in order
        self.arrived = {r: [] for r in range(size)}
        self.posted = {r: [] for r in range(size)}
        self.transfers = []         # matched rendezvous messages, payload not moved yet
        self.colls = {}             # (ctx, number) -> collective state
        self.requests = []
        self.seq = 0
        self.probe = probe
        self.sent = self.delivered = 0
        self.rank_of_task = {}
        self.comm_ids = 0
        self.finalized = set()
        self.on_collective = None
        kernel.sources.append(self)

    # -- network events ----------------------------------------------------------------------------

    def events(self):
        ev = []
        for (s, d), q in sorted(self.inflight.items()):
            if q:
                ev.append(('net %d>%d' % (s, d), lambda s=s, d=d: self.deliver(s, d)))
        for m in self.transfers:
            ev.append(('xfer %d>%d' % (m.src, m.dst), lambda m=m: self.transfer(m)))
        return ev

    def deliver(self, s, d):
        m = self.inflight[(s, d)].pop(0)
        self.delivered += 1
        m.arrived = True
        for r in self.posted[d]:
            if self.match(r, m):
                self.posted[d].remove(r)
                self.couple(r, m)
                return
        self.arrived[d].append(m)
        self.probe('unexpected_message')

    @staticmethod
    def match(r, m):
        return m.ctx == r.ctx and r.src in (ANY_SOURCE, m.src) and r.tag in (ANY_TAG, m.tag)

    def couple(self, r, m):
        m.matched = r
        r.msg = m
        if m.eager:
            self.transfer(m, False)
        else:
            self.transfers.append(m)

    def transfer(self, m, listed=True):
        if listed:
            self.transfers.remove(m)
        r = m.matched
        if m.eager:
            data = m.payload
        elif m.view is not None:
            data = m.view.tobytes()
            self.probe('rendezvous_transfer')
        else:
            data = m.payload
        r.status = (m.src, m.tag, len(data))
        if r.obj:
            try:
                r.result = pickle.loads(data)
            except Exception as e:
                r.error = MPIError('cannot unpickle message: %s' % e)
        else:
            room = r.buf.nbytes
            if len(data) > room:
                r.error = MPIError('MPI_ERR_TRUNCATE: message truncated (%d > %d bytes)' % (len(data), room))
            else:
                if m.dtype is not None and m.dtype != r.buf.dtype:
                    r.error = MPIError('datatype mismatch %s -> %s' % (m.dtype, r.buf.dtype))
                elif len(data):
                    r.buf.view(np.uint8)[:len(data)] = np.frombuffer(data, dtype=np.uint8)
        r.complete = True
        m.req.complete = True

    # -- end-of-run checks -------------------------------------------------------------------------

    def leftovers(self):
        """What must not exist when every rank has finished."""
        r = []
        for (s, d), q in sorted(self.inflight.items()):
            for m in q:
                r.append('message %d->%d tag %d never received (in flight)' % (s, d, m.tag))
        for d in range(self.size):
            for m in self.arrived[d]:
                r.append('message %d->%d tag %d never received' % (m.src, d, m.tag))
            for q in self.posted[d]:
                r.append('receive posted by rank %d never satisfied' % d)
        for m in self.transfers:
            r.append('message %d->%d transferred after the sender was gone' % (m.src, m.dst))
        for key, c in sorted(self.colls.items()):
            if len(c['in']) < c['n']:
                r.append('collective %s entered by ranks %s only' % (c['name'], sorted(c['in'])))
        return r


class Comm:
    """Communicator as seen by one rank."""

    def __init__(self, world, rank, ctx=0, group=None):
        self.world = world
        self.rank = rank
        self.ctx = ctx
        self.group = group if group is not None else list(range(world.size))
        self.size = len(self.group)
        self.nocoll = 0
        self.name = 'SIM_COMM_%s' % (ctx,)

    # -- helpers -----------------------------------------------------------------------------------

    def _point(self, why):
        self.world.kernel.point(why)

    def _block(self, pred, why):
        self.world.kernel.block(pred, why)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Get_name(self):
        return self.name

    def Set_errhandler(self, h):
        pass

    def Dup(self, info=None):
        k = self.allgather(None)
        del k
        return Comm(self.world, self.rank, ('dup', self.ctx, self.nocoll), self.group)

    dup = Clone = Dup

    def Split(self, color=0, key=0):
        all_ = self.allgather((color, key))
        if color is None or color == -32766:
            return None
        members = sorted((k, r) for r, (c, k) in enumerate(all_) if c == color)
        group = [self.group[r] for _, r in members]
        return Comm(self.world, [r for _, r in members].index(self.rank),
                    ('split', self.ctx, self.nocoll, color), group)

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        raise MPIError('MPI_Abort(%r) called' % (errorcode,))

    # -- point to point ----------------------------------------------------------------------------

    def _check_rank(self, r, wild=False):
        if wild and r == ANY_SOURCE:
            return r
        if not (0 <= r < self.size):
            raise MPIError('MPI_ERR_RANK: invalid rank %r' % (r,))
        return int(r)

    def _isend(self, dest, tag, view=None, payload=None, sync=False):
        self._point('Isend')
        w = self.world
        req = Request(self, 'send')
        if dest == PROC_NULL:
            req.complete = True
            return req
        dest = self._check_rank(dest)
        m = Message()
        m.src, m.dst, m.tag, m.ctx = self.rank, dest, tag, self.ctx
        m.req, m.view, m.arrived, m.matched = req, view, False, None
        m.dtype = view.dtype if view is not None else None
        m.nbytes = view.nbytes if view is not None else len(payload)
        mode = w.cfg.get('protocol', 'mixed')
        if sync or mode == 'rendezvous':
            m.eager = False
        elif mode == 'eager':
            m.eager = True
        else:
            m.eager = w.kernel.choices.pick(2) == 0
        m.payload = payload if view is None else (view.tobytes() if m.eager else None)
        if m.eager:
            req.complete = True
        w.seq += 1
        w.sent += 1
        m.seq = w.seq
        req.msg = m
        # Channels are keyed by world ranks; matching uses communicator ranks.
        w.inflight.setdefault((self.group[self.rank], self.group[dest]), []).append(m)
        w.requests.append(req)
        self._point('Isent')
        return req

    def Isend(self, buf, dest, tag=0):
        v, c, _ = _spec(buf)
        return self._isend(dest, tag, view=v if c is None else v[:int(np.sum(c))])

    def Issend(self, buf, dest, tag=0):
        v, c, _ = _spec(buf)
        return self._isend(dest, tag, view=v if c is None else v[:int(np.sum(c))], sync=True)

    Irsend = Ibsend = Isend

    def isend(self, obj, dest, tag=0):
        return self._isend(dest, tag, payload=pickle.dumps(obj))

    def issend(self, obj, dest, tag=0):
        return self._isend(dest, tag, payload=pickle.dumps(obj), sync=True)

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).wait()

    def Ssend(self, buf, dest, tag=0):
        self.Issend(buf, dest, tag).wait()

    Rsend = Bsend = Send

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    def ssend(self, obj, dest, tag=0):
        self.issend(obj, dest, tag).wait()

    def _irecv(self, buf, source, tag, obj):
        self._point('Irecv')
        w = self.world
        r = Request(self, 'recv')
        r.obj = obj
        if source == PROC_NULL:
            r.complete = True
            return r
        r.src = self._check_rank(source, True)
        r.tag = tag
        r.ctx = self.ctx
        if not obj:
            v, c, _ = _spec(buf)
            r.buf = v if c is None else v[:int(np.sum(c))]
            if not r.buf.flags.writeable:
                raise ValueError('buffer source array is read-only')
            if w.cfg.get('poison', True) and r.buf.size:
                # Contents are undefined until the receive completes.
                r.buf.view(np.uint8)[:] = 0xFF
        me = self.group[self.rank]
        w.requests.append(r)
        for m in w.arrived[me]:
            if w.match(r, m):
                w.arrived[me].remove(m)
                w.couple(r, m)
                break
        else:
            w.posted[me].append(r)
        self._point('Irecved')
        return r

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(buf, source, tag, False)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(None, source, tag, True)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.Irecv(buf, source, tag).wait(status)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self.irecv(buf, source, tag).wait(status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        Request.waitall([r, s])

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.irecv(None, source, recvtag)
        s = self.isend(sendobj, dest, sendtag)
        return Request.waitall([r, s])[0]

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._point('Iprobe')
        r = Request(self, 'probe')
        r.src, r.tag, r.ctx = source, tag, self.ctx
        for m in self.world.arrived[self.group[self.rank]]:
            if self.world.match(r, m):
                if status is not None:
                    status.source, status.tag, status.count = m.src, m.tag, m.nbytes
                return True
        return False

    iprobe = Iprobe

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = Request(self, 'probe')
        r.src, r.tag, r.ctx = source, tag, self.ctx
        me = self.group[self.rank]
        self._block(lambda: any(self.world.match(r, m) for m in self.world.arrived[me]), 'Probe')
        return self.Iprobe(source, tag, status)

    probe = Probe

    # -- collectives -------------------------------------------------------------------------------

    def _coll(self, name, root, value, need):
        """Enter the next collective.

        need: 'all' - wait for everyone, 'root' - wait for the root's entry, 'none' - leave at once.
        :return: {rank: value}
        """
        w = self.world
        if w.on_collective is not None:
            w.on_collective(self.group[self.rank], name)
        self._point(name)
        self.nocoll += 1
        key = (str(self.ctx), self.nocoll)
        c = w.colls.setdefault(key, {'name': name, 'root': root, 'in': {}, 'n': self.size})
        if c['name'] != name or c['root'] != root:
            raise MPIError('collectives do not match: rank %d calls %s(root=%s) while others are in %s(root=%s)'
                           % (self.rank, name, root, c['name'], c['root']))
        c['in'][self.rank] = value
        if w.cfg.get('sync_collectives') and need in ('none', 'root'):
            need = 'all'
        if need == 'all':
            self._block(lambda: len(c['in']) == self.size, name)
        elif need == 'root':
            self._block(lambda: root in c['in'], name)
        else:
            self._point(name + ' left')
        return c['in']

    def Barrier(self):
        self._coll('Barrier', None, None, 'all')

    barrier = Barrier

    def Ibarrier(self):
        w = self.world
        self._point('Ibarrier')
        self.nocoll += 1
        key = (str(self.ctx), self.nocoll)
        c = w.colls.setdefault(key, {'name': 'Ibarrier', 'root': None, 'in': {}, 'n': self.size})
        if c['name'] != 'Ibarrier':
            raise MPIError('collectives do not match: Ibarrier with %s' % c['name'])
        c['in'][self.rank] = None
        n = self.size

        class _B(Request):
            complete = property(lambda s: len(c['in']) == n, lambda s, v: None)
        r = _B(self, 'Ibarrier')
        w.requests.append(r)
        return r

    def bcast(self, obj=None, root=0):
        v = pickle.dumps(obj) if self.rank == root else None
        d = self._coll('bcast', root, v, 'none' if self.rank == root else 'root')
        return obj if self.rank == root else pickle.loads(d[root])

    def Bcast(self, buf, root=0):
        v, c, _ = _spec(buf)
        d = self._coll('Bcast', root, v.tobytes() if self.rank == root else None,
                       'none' if self.rank == root else 'root')
        if self.rank != root:
            if len(d[root]) > v.nbytes:
                raise MPIError('MPI_ERR_TRUNCATE in Bcast')
            v.view(np.uint8)[:len(d[root])] = np.frombuffer(d[root], dtype=np.uint8)

    def gather(self, obj=None, root=0):
        d = self._coll('gather', root, pickle.dumps(obj), 'all' if self.rank == root else 'none')
        return [pickle.loads(d[r]) for r in range(self.size)] if self.rank == root else None

    def allgather(self, obj=None):
        d = self._coll('allgather', None, pickle.dumps(obj), 'all')
        return [pickle.loads(d[r]) for r in range(self.size)]

    def scatter(self, obj=None, root=0):
        v = None
        if self.rank == root:
            if obj is None or len(obj) != self.size:
                raise ValueError('expecting %d items' % self.size)
            v = [pickle.dumps(x) for x in obj]
        d = self._coll('scatter', root, v, 'none' if self.rank == root else 'root')
        return pickle.loads(d[root][self.rank])

    def alltoall(self, obj):
        d = self._coll('alltoall', None, [pickle.dumps(x) for x in obj], 'all')
        return [pickle.loads(d[r][self.rank]) for r in range(self.size)]

    def reduce(self, obj, op=None, root=0):
        d = self._coll('reduce', root, pickle.dumps(obj), 'all' if self.rank == root else 'none')
        return _reduce([pickle.loads(d[r]) for r in range(self.size)], op) if self.rank == root else None

    def allreduce(self, obj, op=None):
        d = self._coll('allreduce', None, pickle.dumps(obj), 'all')
        return _reduce([pickle.loads(d[r]) for r in range(self.size)], op)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        s = _spec(recvbuf)[0].copy() if sendbuf is IN_PLACE else _spec(sendbuf)[0].copy()
        d = self._coll('Allreduce', None, s, 'all')
        _spec(recvbuf)[0][:] = _reduce([d[r] for r in range(self.size)], op)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        s = _spec(recvbuf)[0].copy() if sendbuf is IN_PLACE else _spec(sendbuf)[0].copy()
        d = self._coll('Reduce', root, s, 'all' if self.rank == root else 'none')
        if self.rank == root:
            _spec(recvbuf)[0][:] = _reduce([d[r] for r in range(self.size)], op)

    def Gather(self, sendbuf, recvbuf=None, root=0):
        self._gatherv('Gather', sendbuf, recvbuf, root)

    def Gatherv(self, sendbuf, recvbuf=None, root=0):
        self._gatherv('Gatherv', sendbuf, recvbuf, root)

    def _gatherv(self, name, sendbuf, recvbuf, root):
        if sendbuf is IN_PLACE:
            s = None
        else:
            v, c, _ = _spec(sendbuf)
            s = v[:int(np.sum(c))] if c is not None else v
            s = s.copy()
        rv = counts = displs = None
        if self.rank == root:
            rv, counts, displs = _spec(recvbuf)
            if self.world.cfg.get('poison', True) and rv is not None and rv.size and s is not None:
                rv.view(np.uint8)[:] = 0xFF
        d = self._coll(name, root, s, 'all' if self.rank == root else 'none')
        if self.rank == root:
            self._place(rv, counts, displs, d, name)

    def Allgather(self, sendbuf, recvbuf):
        self.Allgatherv(sendbuf, recvbuf, 'Allgather')

    def Allgatherv(self, sendbuf, recvbuf, name='Allgatherv'):
        v, c, _ = _spec(sendbuf)
        s = (v[:int(np.sum(c))] if c is not None else v).copy()
        rv, counts, displs = _spec(recvbuf)
        d = self._coll(name, None, s, 'all')
        self._place(rv, counts, displs, d, name)

    def _place(self, rv, counts, displs, d, name):
        n = self.size
        if counts is None:
            if rv.size % n:
                raise ValueError('message: buffer of %d items is not divisible by %d' % (rv.size, n))
            counts = [rv.size // n] * n
        elif np.isscalar(counts) or getattr(counts, 'ndim', 1) == 0:
            counts = [int(counts)] * n if name in ('Gather', 'Allgather') else [int(counts)] * n
        counts = [int(x) for x in counts]
        if displs is None:
            displs = [sum(counts[:i]) for i in range(n)]
        for r in range(n):
            s = d[r]
            if s is None:
                continue
            if s.size > counts[r]:
                raise MPIError('MPI_ERR_TRUNCATE in %s: rank %d sends %d items, %d expected'
                               % (name, r, s.size, counts[r]))
            if s.dtype != rv.dtype:
                raise MPIError('datatype mismatch in %s' % name)
            if displs[r] + s.size > rv.size or displs[r] < 0:
                raise MPIError('receive buffer overrun in %s' % name)
            rv[displs[r]:displs[r] + s.size] = s

    def Scatterv(self, sendbuf, recvbuf, root=0):
        v = None
        if self.rank == root:
            sv, counts, displs = _spec(sendbuf)
            if counts is None:
                counts = [sv.size // self.size] * self.size
            counts = [int(x) for x in counts]
            if displs is None:
                displs = [sum(counts[:i]) for i in range(self.size)]
            v = [sv[displs[i]:displs[i] + counts[i]].copy() for i in range(self.size)]
        d = self._coll('Scatterv', root, v, 'none' if self.rank == root else 'root')
        if recvbuf is not IN_PLACE:
            rv, c, _ = _spec(recvbuf)
            s = d[root][self.rank]
            if s.size > rv.size:
                raise MPIError('MPI_ERR_TRUNCATE in Scatterv')
            rv[:s.size] = s

    Scatter = Scatterv


class _InPlace:
    pass


IN_PLACE = _InPlace()


class Op:
    def __init__(self, f):
        self.f = f

    def __call__(self, a, b):
        return self.f(a, b)


SUM = Op(lambda a, b: a + b)
PROD = Op(lambda a, b: a * b)
MAX = Op(lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = Op(lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
LAND = Op(lambda a, b: bool(a and b))
LOR = Op(lambda a, b: bool(a or b))


def _reduce(vals, op):
    op = op or SUM
    r = vals[0]
    for v in vals[1:]:
        r = op(r, v)
    return r


def make_modules(world, rank):
    """Modules `mpi4py` and `mpi4py.MPI` for one rank."""
    m = types.ModuleType('mpi4py')
    m._sim = True
    m.__path__ = []
    M = types.ModuleType('mpi4py.MPI')
    M._sim = True
    m.MPI = M
    M.COMM_WORLD = Comm(world, rank)
    M.COMM_SELF = Comm(world, 0, ('self', rank), [rank])
    for k, v in dict(Request=Request, Status=Status, ANY_SOURCE=ANY_SOURCE, ANY_TAG=ANY_TAG, PROC_NULL=PROC_NULL,
                     IN_PLACE=IN_PLACE, SUM=SUM, PROD=PROD, MAX=MAX, MIN=MIN, LAND=LAND, LOR=LOR, Op=Op,
                     DOUBLE=_Type('double', 'f8'), FLOAT=_Type('float', 'f4'), INT=_Type('int', 'i4'),
                     INT64_T=_Type('int64', 'i8'), LONG=_Type('long', 'i8'), BYTE=_Type('byte', 'u1'),
                     CHAR=_Type('char', 'u1'), BOOL=_Type('bool', '?'), F_DOUBLE=_Type('double', 'f8'),
                     Comm=Comm, Intracomm=Comm, Exception=MPIError, UNDEFINED=-32766,
                     COMM_NULL=None, REQUEST_NULL=None).items():
        setattr(M, k, v)
    clock = world.kernel
    M.Wtime = lambda: clock.now
    M.Init = M.Finalize = lambda: None
    M.Is_initialized = lambda: True
    M.Is_finalized = lambda: False
    M.Get_processor_name = lambda: 'sim%d' % rank
    return m, M


# -- multiprocessing.Pool stand-in -----------------------------------------------------------------


class _Async:
    def __init__(self, fn):
        self._fn = fn

    def get(self, timeout=None):
        return self._fn()

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class FakePool:
    """Pool whose workers run in an order chosen by the simulator; results keep argument order."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        self.n = processes or 8
        self.closed = False
        if initializer is not None:
            initializer(*initargs)

    def _order(self, n):
        k = FakePool.kernel
        if k is None or k.current is None or n < 2:
            return list(range(n))
        k.point('pool')
        chunk = max(1, -(-n // (4 * self.n)))
        chunks = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]
        rot = k.choices.pick(len(chunks))
        return [i for c in chunks[rot:] + chunks[:rot] for i in c]

    def starmap(self, fn, it, chunksize=None):
        if self.closed:
            raise ValueError('Pool not running')
        args = list(it)
        res = [None] * len(args)
        for i in self._order(len(args)):
            res[i] = fn(*args[i])
        return res

    def map(self, fn, it, chunksize=None):
        return self.starmap(fn, [(a,) for a in it])

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        args = list(it)
        return iter([fn(args[i]) for i in self._order(len(args))])

    def apply(self, fn, args=(), kwds={}):
        return fn(*args, **kwds)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return _Async(lambda: fn(*args, **kwds))

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        r = self.map(fn, it)
        return _Async(lambda: r)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        r = self.starmap(fn, it)
        return _Async(lambda: r)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


FakePool.kernel = None
