"""Deterministic simulation of an MPI job inside one process.

The ranks of the job are threads of which exactly one runs at any time.  A rank
hands control back to the scheduler at every MPI call and at every file-system
operation; the scheduler decides, from a seeded (and recorded) stream of
choices, who runs next, when a collective lets a rank leave, in which order
contributions are reduced, how a reordering Cartesian communicator places the
ranks, who is stalled and who is killed.
"""
import copy
import hashlib
import os
import pickle
import random
import sys
import threading
import traceback
import types

import numpy as np
from mpi4py import MPI as _MPI

from .errors import Violation, HarnessError, SimUnsupported

REAL_MPI = _MPI


# --------------------------------------------------------------------------
# choices


class Chooser:
    """The one source of nondeterminism of a run.

    Fresh runs draw from a PRNG and record; replays read the recorded list and
    fall back to 0 (the 'boring' choice) once it is exhausted or when an entry
    does not fit.
    """

    def __init__(self, seed, trace=None):
        self.rng = random.Random(seed)
        self.replaying = trace is not None
        self.given = list(trace) if trace is not None else None
        self.pos = 0
        self.trace = []

    def choose(self, n, weights=None, preferred=None):
        if n <= 1:
            return 0
        if self.replaying:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            self.pos += 1
            if not 0 <= v < n:
                v = 0
        elif preferred is not None:
            v = preferred
        elif weights is not None:
            v = self.rng.choices(range(n), weights)[0]
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        return v

    def flip(self, p):
        """True with probability p; the boring answer is False"""
        return bool(self.choose(2, (1 - p, p)))


# --------------------------------------------------------------------------
# datatypes (stub: carries the description of a subarray, moves data with numpy)


class SimDatatype:
    def __init__(self, sim, dtype, sizes=None, subsizes=None, starts=None):
        self.sim = sim
        self.dtype = np.dtype(dtype)
        self.sizes = None if sizes is None else tuple(int(s) for s in sizes)
        self.subsizes = None if sizes is None else tuple(int(s) for s in subsizes)
        self.starts = None if sizes is None else tuple(int(s) for s in starts)
        self.committed = sizes is None
        self.freed = False
        if sizes is not None:
            for n, m, s in zip(self.sizes, self.subsizes, self.starts):
                if m < 0 or s < 0 or s + m > n:
                    raise ValueError('invalid subarray datatype')
            self.owner = sim.current
            sim.types_live[self.owner] = sim.types_live.get(self.owner, 0) + 1

    def __bool__(self):
        return not self.freed

    def Create_subarray(self, sizes, subsizes, starts, order=None):
        return SimDatatype(self.sim, self.dtype, sizes, subsizes, starts)

    def Commit(self):
        if self.freed:
            raise Violation('use-after-free', 'Commit of a freed datatype')
        self.committed = True
        return self

    def Free(self):
        if self.freed:
            raise Violation('double-free', 'a communication datatype is freed twice')
        self.freed = True
        if self.sizes is not None:
            self.sim.types_live[self.owner] -= 1

    def check(self):
        if self.freed:
            raise Violation('use-after-free', 'data exchange through a freed datatype')
        if not self.committed:
            raise Violation('uncommitted-datatype', 'data exchange through an uncommitted datatype')

    def view(self, buf):
        """The part of `buf` this type describes, as an array view"""
        self.check()
        if self.sizes is None:
            raise SimUnsupported('basic datatype in Alltoallw')
        n = int(np.prod(self.sizes))
        flat = flatview(buf)
        if flat.dtype != self.dtype:
            raise Violation('datatype-mismatch', f'buffer of {flat.dtype} with datatype of {self.dtype}')
        if flat.size < n:
            raise Violation('buffer-overrun', f'datatype spans {n} items, buffer has {flat.size}')
        return flat[:n].reshape(self.sizes)[tuple(slice(s, s + m) for s, m in zip(self.starts, self.subsizes))]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise SimUnsupported(f'MPI.Datatype.{name}')


def flatview(buf):
    buf = np.asarray(buf) if not isinstance(buf, np.ndarray) else buf.view(np.ndarray)
    if buf.flags.c_contiguous:
        return buf.reshape(-1)
    if buf.flags.f_contiguous:
        return buf.T.reshape(-1)
    raise ValueError('ndarray is not contiguous')


def bufarray(spec):
    if isinstance(spec, np.ndarray):
        return spec.view(np.ndarray)
    if isinstance(spec, (list, tuple)):
        return bufarray(spec[0])
    a = np.asarray(spec)
    return a


class TypeDict(dict):
    def __init__(self, sim):
        dict.__init__(self)
        self.sim = sim

    def __missing__(self, key):
        d = SimDatatype(self.sim, np.dtype(key))
        self[key] = d
        return d


# --------------------------------------------------------------------------
# communicators


class CommCtx:
    def __init__(self, sim, members, cart=None):
        self.id = sim.next_ctx
        sim.next_ctx += 1
        self.members = tuple(members)      # world rank by communicator rank
        self.cart = cart                   # None or dims
        self.ops = {}
        self.mail = {}


class Op:
    __slots__ = ('kind', 'sig', 'root', 'posts', 'result', 'taken', 'need', 'done')

    def __init__(self, kind, sig, root):
        self.kind = kind
        self.sig = sig
        self.root = root
        self.posts = {}
        self.result = None
        self.taken = 0
        self.done = False


def _dup(obj):
    """What travels through a pickle-based MPI call"""
    if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes)):
        return obj
    try:
        return pickle.loads(pickle.dumps(obj, -1))
    except Exception:
        if isinstance(obj, np.ndarray):
            return np.array(obj)
        raise


def _opfun(op, buffers=False):
    table = {'SUM': np.add, 'PROD': np.multiply, 'MAX': np.maximum, 'MIN': np.minimum,
             'LAND': np.logical_and, 'LOR': np.logical_or, 'BAND': np.bitwise_and,
             'BOR': np.bitwise_or, 'LXOR': np.logical_xor, 'BXOR': np.bitwise_xor}
    for name, f in table.items():
        if op == getattr(_MPI, name):
            if buffers:
                return f
            if name == 'SUM':
                return lambda a, b: a + b
            if name == 'PROD':
                return lambda a, b: a * b
            return lambda a, b: op(a, b) if not isinstance(a, np.ndarray) else f(a, b)
    if callable(op):
        return op
    raise SimUnsupported(f'reduction {op}')


class SimComm(_MPI.Intracomm):
    """One rank's handle of a simulated communicator"""

    def __new__(cls, *args, **kw):
        return _MPI.Intracomm.__new__(cls)

    def __init__(self, sim, ctx, world_rank):
        self._sim = sim
        self._ctx = ctx
        self._wr = world_rank
        self._seq = 0
        self._free = False
        self._permanent = False

    # identity
    def __eq__(self, other):
        if isinstance(other, SimComm):
            return self._ctx is other._ctx and self._wr == other._wr and self._free == other._free
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return hash((id(self._ctx), self._wr))

    def __bool__(self):
        return not self._free

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator')

    def _chk(self):
        if self._free:
            raise Violation('use-after-free', 'operation on a freed communicator')
        if self._sim is None or self._ctx is None:
            raise HarnessError('communicator outside a simulation')
        if self._sim.current != self._wr:
            raise HarnessError(f'rank {self._sim.current} uses a handle of rank {self._wr}')

    def Get_size(self):
        self._chk()
        return len(self._ctx.members)

    def Get_rank(self):
        self._chk()
        return self._ctx.members.index(self._wr)

    @property
    def size(self):
        return self.Get_size()

    @property
    def rank(self):
        return self.Get_rank()

    name = 'sim'

    def Get_name(self):
        return 'sim'

    def Is_inter(self):
        return False

    def Is_intra(self):
        return True

    is_inter = False
    is_intra = True

    def Get_topology(self):
        self._chk()
        return _MPI.UNDEFINED if self._ctx.cart is None else _MPI.CART

    topology = property(Get_topology)

    def Get_dim(self):
        self._chk()
        return len(self._ctx.cart)

    dim = ndim = property(Get_dim)

    def Get_coords(self, rank):
        return [int(i) for i in np.unravel_index(rank, self._ctx.cart)]

    def Get_cart_rank(self, coords):
        return int(np.ravel_multi_index(coords, self._ctx.cart))

    @property
    def dims(self):
        return list(self._ctx.cart)

    @property
    def coords(self):
        return self.Get_coords(self.rank)

    def Get_topo(self):
        return list(self._ctx.cart), [0] * len(self._ctx.cart), self.coords

    def Get_group(self):
        raise SimUnsupported('Get_group')

    def _fence(self):
        fence = self._sim.fences.get(self._wr)
        if fence is not None and not fence.issuperset(self._ctx.members):
            f = sys._getframe(1)
            while f is not None and (os.sep + 'dst' + os.sep in f.f_code.co_filename or 'contextlib' in f.f_code.co_filename):
                f = f.f_back
            where = 'the program' if f is None else '/'.join(f.f_code.co_filename.split(os.sep)[-3:]) + ':' + f.f_code.co_name
            raise Violation('cross-group', f'{where}: rank {self._wr}, working on a communicator of ranks {sorted(fence)}, communicates on one of '
                            f'{sorted(self._ctx.members)}')

    # the engine
    def _collect(self, kind, payload, sig=None, root=None, finish=None, eager=False, early=None):
        """Post this rank's part of a collective and wait until it may leave.

        finish(posts) -> list of per-rank results, run once everyone has posted.
        eager: this rank has nothing to wait for and may (a choice) leave at once.
        early: (ready(op), value(op)): what this rank waits for when that is less than everyone.
        """
        self._chk()
        self._fence()
        sim = self._sim
        ctx = self._ctx
        me = self.Get_rank()
        seq = self._seq
        self._seq += 1
        sim.point(f'{kind}@{ctx.id}')
        op = ctx.ops.get(seq)
        if op is None:
            op = ctx.ops[seq] = Op(kind, sig, root)
        elif op.kind != kind or op.root != root or op.sig != sig:
            raise Violation('collective-mismatch',
                            f'rank {self._wr} calls {kind}(root={root}, {sig}) where others called '
                            f'{op.kind}(root={op.root}, {op.sig}) on the same communicator')
        op.posts[me] = payload
        n = len(ctx.members)
        if len(op.posts) == n:
            op.result = finish(op.posts) if finish is not None else [None] * n
            op.done = True
        if eager and not op.done and sim.chooser.flip(0.5):
            sim.stats['early_exit'] += 1
            # leaves before the others have arrived; result not needed
            op.taken += 1
            if op.taken == n:
                ctx.ops.pop(seq, None)
            return None
        if early is not None:
            sim.block(lambda: op.done or early[0](op), (kind, ctx.id, seq))
        else:
            sim.block(lambda: op.done, (kind, ctx.id, seq))
        res = op.result[me] if op.done else early[1](op)
        op.taken += 1
        if op.taken == n:
            ctx.ops.pop(seq, None)
        return res

    def _order(self, n):
        """The order in which n contributions are combined"""
        sim = self._sim
        order = list(range(n))
        if n > 2 and sim.reduction_shuffle:
            for i in range(n - 1, 0, -1):
                j = i - sim.chooser.choose(i + 1)
                order[i], order[j] = order[j], order[i]
            if order != list(range(n)):
                sim.stats['reduction_reordered'] += 1
        return order

    # synchronisation
    def Barrier(self):
        self._collect('barrier', None)

    barrier = Barrier

    # reductions
    def _reduce_obj(self, posts, op):
        f = _opfun(op)
        order = self._order(len(posts))
        acc = _dup(posts[order[0]])
        for i in order[1:]:
            acc = f(acc, _dup(posts[i]))
        return acc

    def allreduce(self, sendobj, op=_MPI.SUM):
        def finish(posts):
            types_ = {np.shape(p) for p in posts.values()}
            if len(types_) > 1:
                raise Violation('collective-mismatch', f'allreduce over different shapes {sorted(map(str, types_))}')
            r = self._reduce_obj(posts, op)
            return [_dup(r) for _ in posts]
        return self._collect('allreduce', _dup(sendobj), finish=finish)

    def reduce(self, sendobj, op=_MPI.SUM, root=0):
        def finish(posts):
            r = self._reduce_obj(posts, op)
            return [r if i == root else None for i in range(len(posts))]
        return self._collect('reduce', _dup(sendobj), root=root, finish=finish, eager=self.Get_rank() != root)

    def _reduce_buf(self, posts, op):
        f = _opfun(op, True)
        order = self._order(len(posts))
        acc = posts[order[0]].copy()
        for i in order[1:]:
            if posts[i].shape != acc.shape or posts[i].dtype != acc.dtype:
                raise Violation('collective-mismatch', 'reduction over different buffers')
            acc = f(acc, posts[i])
        return acc

    def Allreduce(self, sendbuf, recvbuf, op=_MPI.SUM):
        r = bufarray(recvbuf)
        s = r if sendbuf is _MPI.IN_PLACE else bufarray(sendbuf)
        res = self._collect('Allreduce', flatview(s).copy(),
                            finish=lambda p: [self._reduce_buf(p, op)] * len(p))
        flatview(r)[:] = res

    def Reduce(self, sendbuf, recvbuf, op=_MPI.SUM, root=0):
        s = bufarray(recvbuf) if sendbuf is _MPI.IN_PLACE else bufarray(sendbuf)

        def finish(p):
            v = self._reduce_buf(p, op)
            return [v if i == root else None for i in range(len(p))]
        res = self._collect('Reduce', flatview(s).copy(), root=root, finish=finish, eager=self.Get_rank() != root)
        if self.Get_rank() == root:
            flatview(bufarray(recvbuf))[:] = res

    def scan(self, sendobj, op=_MPI.SUM):
        def finish(p):
            f = _opfun(op)
            out = [_dup(p[0])]
            for i in range(1, len(p)):
                out.append(f(_dup(out[-1]), _dup(p[i])))
            return out
        return self._collect('scan', _dup(sendobj), finish=finish)

    def exscan(self, sendobj, op=_MPI.SUM):
        def finish(p):
            f = _opfun(op)
            out = [None, _dup(p[0])]
            for i in range(1, len(p) - 1):
                out.append(f(_dup(out[-1]), _dup(p[i])))
            return out[:len(p)]
        return self._collect('exscan', _dup(sendobj), finish=finish)

    # data movement
    def bcast(self, obj, root=0):
        me = self.Get_rank()
        if me == root:
            v = _dup(obj)
            self._collect('bcast', (v,), root=root, eager=True,
                          finish=lambda p: [_dup(p[root][0]) for _ in p])
            return obj
        return self._collect('bcast', None, root=root,
                             early=(lambda op: root in op.posts, lambda op: _dup(op.posts[root][0])),
                             finish=lambda p: [_dup(p[root][0]) for _ in p])

    def Bcast(self, buf, root=0):
        me = self.Get_rank()
        a = flatview(bufarray(buf))
        res = self._collect('Bcast', a.copy() if me == root else None, root=root,
                            finish=lambda p: [p[root]] * len(p))
        if me != root:
            a[:] = res

    def gather(self, sendobj, root=0):
        return self._collect('gather', _dup(sendobj), root=root, eager=self.Get_rank() != root,
                             finish=lambda p: [[_dup(p[j]) for j in range(len(p))] if i == root else None
                                               for i in range(len(p))])

    def allgather(self, sendobj):
        return self._collect('allgather', _dup(sendobj),
                             finish=lambda p: [[_dup(p[j]) for j in range(len(p))] for _ in range(len(p))])

    def scatter(self, sendobj, root=0):
        return self._collect('scatter', _dup(sendobj), root=root,
                             finish=lambda p: [_dup(p[root][i]) for i in range(len(p))])

    def alltoall(self, sendobj):
        return self._collect('alltoall', _dup(list(sendobj)),
                             finish=lambda p: [[_dup(p[j][i]) for j in range(len(p))] for i in range(len(p))])

    def Allgather(self, sendbuf, recvbuf):
        r = flatview(bufarray(recvbuf))
        n = self.Get_size()
        if sendbuf is _MPI.IN_PLACE:
            m = r.size // n
            s = r[self.Get_rank() * m:(self.Get_rank() + 1) * m]
        else:
            s = flatview(bufarray(sendbuf))
        res = self._collect('Allgather', s.copy(),
                            finish=lambda p: [np.concatenate([p[i] for i in range(len(p))])] * len(p))
        r[:res.size] = res

    def Gather(self, sendbuf, recvbuf, root=0):
        s = flatview(bufarray(sendbuf))
        res = self._collect('Gather', s.copy(), root=root,
                            finish=lambda p: [np.concatenate([p[i] for i in range(len(p))])] * len(p))
        if self.Get_rank() == root:
            flatview(bufarray(recvbuf))[:res.size] = res

    def _gatherv_place(self, recvbuf, parts):
        spec = recvbuf
        buf = flatview(bufarray(spec))
        counts = displs = None
        if isinstance(spec, (list, tuple)):
            for item in spec[1:]:
                if isinstance(item, (list, tuple)) and len(item) == 2 and np.ndim(item[0]) == 1:
                    counts, displs = item
                elif isinstance(item, (list, tuple, np.ndarray)) and counts is None:
                    counts = item
                elif isinstance(item, (list, tuple, np.ndarray)):
                    displs = item
        if displs is None:
            displs = np.concatenate([[0], np.cumsum([len(p) for p in parts])[:-1]]).astype(int)
        for d, p in zip(displs, parts):
            buf[d:d + len(p)] = p

    def Gatherv(self, sendbuf, recvbuf, root=0):
        s = flatview(bufarray(sendbuf))
        res = self._collect('Gatherv', s.copy(), root=root,
                            finish=lambda p: [[p[i] for i in range(len(p))]] * len(p))
        if self.Get_rank() == root:
            self._gatherv_place(recvbuf, res)

    def Allgatherv(self, sendbuf, recvbuf):
        s = flatview(bufarray(sendbuf))
        res = self._collect('Allgatherv', s.copy(),
                            finish=lambda p: [[p[i] for i in range(len(p))]] * len(p))
        self._gatherv_place(recvbuf, res)

    def Alltoall(self, sendbuf, recvbuf):
        s = flatview(bufarray(sendbuf)).copy()
        r = flatview(bufarray(recvbuf))

        def finish(p):
            n = len(p)
            return [np.concatenate([np.split(p[j], n)[i] for j in range(n)]) for i in range(n)]
        r[:] = self._collect('Alltoall', s, finish=finish)

    def Alltoallw(self, sendbuf, recvbuf):
        n = self.Get_size()
        sb, scd, st = sendbuf
        rb, rcd, rt = recvbuf
        for cd, ty in ((scd, st), (rcd, rt)):
            if len(ty) != n:
                raise Violation('collective-mismatch', f'Alltoallw with {len(ty)} datatypes on {n} ranks')
            if any(c != 1 for c in cd[0]) or any(d != 0 for d in cd[1]):
                raise SimUnsupported('Alltoallw counts/displacements')
        out = [np.array(t.view(sb)) for t in st]
        views = [t.view(rb) for t in rt]
        res = self._collect('Alltoallw', out,
                            finish=lambda p: [[p[j][i] for j in range(len(p))] for i in range(len(p))])
        for v, d in zip(views, res):
            if v.size != d.size or v.dtype != d.dtype:
                raise Violation('exchange-mismatch', f'a rank sends {d.size} {d.dtype} items where {v.size} {v.dtype} are expected')
            v[...] = d.reshape(v.shape)
        self._sim.stats['alltoallw'] += 1
        if n > 1:
            self._sim.stats['exchanges'] += 1

    # point to point (blocking, buffered)
    def send(self, obj, dest, tag=0):
        self._chk()
        self._fence()
        self._sim.point(f'send@{self._ctx.id}')
        self._ctx.mail.setdefault((self.Get_rank(), dest, tag), []).append(_dup(obj))

    def recv(self, buf=None, source=0, tag=0, status=None):
        self._chk()
        self._fence()
        self._sim.point(f'recv@{self._ctx.id}')
        key = (source, self.Get_rank(), tag)
        self._sim.block(lambda: bool(self._ctx.mail.get(key)), ('recv', self._ctx.id, key))
        return self._ctx.mail[key].pop(0)

    def Send(self, buf, dest, tag=0):
        self.send(flatview(bufarray(buf)).copy(), dest, tag)

    def Recv(self, buf, source=0, tag=0, status=None):
        flatview(bufarray(buf))[:] = self.recv(source=source, tag=tag)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=0, recvtag=0, status=None):
        self.send(sendobj, dest, sendtag)
        return self.recv(source=source, tag=recvtag)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=0, recvtag=0, status=None):
        self.Send(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag)

    # communicator management
    def _newcomm(self, ctx):
        sim = self._sim
        sim.comms_live[self._wr] = sim.comms_live.get(self._wr, 0) + 1
        return SimComm(sim, ctx, self._wr)

    def Dup(self, info=None):
        ctx = self._collect('dup', None, finish=lambda p: [CommCtx(self._sim, self._ctx.members, self._ctx.cart)] * len(p))
        return self._newcomm(ctx)

    Clone = Dup

    def Split(self, color=0, key=0):
        me = self.Get_rank()

        def finish(p):
            colors = sorted({c for c, _, _ in p.values() if c is not None and c != _MPI.UNDEFINED})
            ctxs = {}
            for c in colors:
                mem = sorted((k, r, w) for (cc, k, w), r in ((p[r], r) for r in p) if cc == c)
                ctxs[c] = CommCtx(self._sim, [w for _, _, w in mem])
            return [ctxs.get(p[i][0]) for i in range(len(p))]
        ctx = self._collect('split', (color, key, self._wr), finish=finish)
        if ctx is None:
            return _MPI.COMM_NULL
        return self._newcomm(ctx)

    def Create_cart(self, dims, periods=None, reorder=False):
        dims = tuple(int(d) for d in dims)
        n = int(np.prod(dims))
        if n != self.Get_size():
            raise SimUnsupported(f'Create_cart {dims} on {self.Get_size()} ranks')
        sim = self._sim

        def finish(p):
            mem = list(self._ctx.members)
            if reorder and sim.cart_reorder and n > 1:
                # MPI libraries map the same ranks on the same topology the same way
                memo = sim.placements.get((self._ctx.members, dims))
                if memo is None:
                    for i in range(n - 1, 0, -1):
                        j = i - sim.chooser.choose(i + 1)
                        mem[i], mem[j] = mem[j], mem[i]
                    sim.placements[(self._ctx.members, dims)] = list(mem)
                else:
                    mem = list(memo)
                if mem != list(self._ctx.members):
                    sim.stats['cart_reordered'] += 1
            return [CommCtx(sim, mem, dims)] * n
        ctx = self._collect('cart', None, sig=(dims, bool(reorder)), finish=finish)
        return self._newcomm(ctx)

    def Sub(self, remain_dims):
        remain = tuple(bool(x) for x in remain_dims)
        dims = self._ctx.cart
        sim = self._sim

        def finish(p):
            groups = {}
            for r, w in enumerate(self._ctx.members):
                c = np.unravel_index(r, dims)
                key = tuple(int(x) for x, k in zip(c, remain) if not k)
                groups.setdefault(key, []).append(w)
            sub = tuple(d for d, k in zip(dims, remain) if k)
            ctxs = {k: CommCtx(sim, m, sub) for k, m in groups.items()}
            out = []
            for r, w in enumerate(self._ctx.members):
                c = np.unravel_index(r, dims)
                out.append(ctxs[tuple(int(x) for x, k in zip(c, remain) if not k)])
            return out
        return self._newcomm(self._collect('sub', None, sig=remain, finish=finish))

    def Free(self):
        if self._permanent:
            raise Violation('free-world', 'a predefined communicator is freed')
        self._chk()
        # collective in MPI, but implementations only synchronise lazily
        self._sim.point('free')
        self._free = True
        self._sim.comms_live[self._wr] -= 1

    Disconnect = Free

    def Abort(self, errorcode=0):
        raise SimUnsupported('Abort')


def _block_rest():
    """Everything of the real communicator class that is not simulated must not be reached"""
    def make(name):
        def f(self, *a, **k):
            raise SimUnsupported(f'Comm.{name}')
        return f
    keep = set(dir(object)) | {'__class__', '__dict__', '__weakref__', '__module__', 'handle', '_sizeof_'}
    for cls in _MPI.Intracomm.__mro__:
        for name in list(vars(cls)):
            if name in keep or name in vars(SimComm) or name.startswith('__'):
                continue
            setattr(SimComm, name, make(name))


_block_rest()


def compute_dims(nnodes, dims):
    """MPI_Dims_create: non-increasing, as balanced as possible"""
    if isinstance(dims, int):
        dims = [0] * dims
    dims = [int(d) for d in dims]
    free = [i for i, d in enumerate(dims) if d == 0]
    fixed = 1
    for d in dims:
        if d > 0:
            fixed *= d
    if nnodes % fixed:
        raise ValueError('Compute_dims: not a divisor')
    n = nnodes // fixed
    if not free:
        if n != 1:
            raise ValueError('Compute_dims')
        return dims
    best = None

    def rec(n, k, maxf):
        if k == 1:
            if n <= maxf:
                yield (n,)
            return
        for f in range(min(n, maxf), 0, -1):
            if n % f == 0:
                for rest in rec(n // f, k - 1, f):
                    yield (f,) + rest
    for cand in rec(n, len(free), n):
        if best is None or (cand[0] - cand[-1], cand) < (best[0] - best[-1], best):
            best = cand
    for i, f in zip(free, best):
        dims[i] = f
    return dims


# --------------------------------------------------------------------------
# the replacement for the module mpi4py.MPI


class SimMPIModule(types.ModuleType):
    def __init__(self, worlds, selfs, state):
        types.ModuleType.__init__(self, 'mpi4py.MPI')
        d = self.__dict__
        d['_worlds'] = worlds
        d['_selfs'] = selfs
        d['_state'] = state
        d['__file__'] = getattr(_MPI, '__file__', None)

    @property
    def COMM_WORLD(self):
        return self._worlds[self._state.current]

    @property
    def COMM_SELF(self):
        return self._selfs[self._state.current]

    @property
    def _typedict(self):
        return self._state.typedict

    def Compute_dims(self, nnodes, dims):
        return compute_dims(nnodes, dims)

    def Wtime(self):
        return self._state.clock

    def __getattr__(self, name):
        return getattr(_MPI, name)


# --------------------------------------------------------------------------
# the scheduler


class Rank:
    def __init__(self, sim, r):
        self.r = r
        self.go = threading.Lock()
        self.go.acquire()
        self.state = 'ready'      # ready, blocked, done, dead
        self.pred = None
        self.what = None
        self.error = None
        self.thread = None
        self.stalled_until = -1
        self.prio = 0


class SimState:
    """Per-process state that exists before any simulation does: who is running now"""
    def __init__(self):
        self.current = 0
        self.clock = 0.0
        self.typedict = None
        self.hashorder = None
        self.hash_shuffles = 0


class Sim:
    def __init__(self, state, P, chooser, policy='random', faults=None, step_cap=60000,
                 cart_reorder=True, reduction_shuffle=True, switch=None):
        self.state_ = state
        self.P = P
        self.chooser = chooser
        self.policy = policy
        self.faults = dict(faults or {})
        self.step_cap = step_cap
        self.cart_reorder = cart_reorder
        self.placements = {}
        self.reduction_shuffle = reduction_shuffle
        self.switch = switch or (lambda a, b: None)
        self.next_ctx = 0
        self.types_live = {}
        self.comms_live = {}
        self.fences = {}
        self.steps = 0
        self.stats = {k: 0 for k in ('switches', 'stall', 'kill_rank', 'kill_job', 'early_exit', 'reduction_reordered',
                                     'cart_reordered', 'alltoallw', 'exchanges', 'collectives', 'io_points')}
        self.log = hashlib.sha256()
        self.sched = hashlib.sha256()
        self.keep_log = None
        self.violation = None
        self.harness = None
        self.killed = False
        self.back = threading.Lock()
        self.back.acquire()
        self.ranks = [Rank(self, r) for r in range(P)]
        self.last = 0
        self.io_hook = None
        state.typedict = TypeDict(self)
        self.prio_points = set()
        self.latency = None

    @property
    def current(self):
        return self.state_.current

    # called from rank threads ------------------------------------------------
    def _yield(self):
        me = self.ranks[self.current]
        self.back.release()
        me.go.acquire()

    def event(self, what):
        self.log.update(f'{self.current}:{what};'.encode())
        if self.keep_log is not None:
            self.keep_log.append((self.steps, self.current, what))

    def point(self, what, io=False):
        """A point where other ranks may run and faults may strike"""
        if io:
            self.stats['io_points'] += 1
        else:
            self.stats['collectives'] += 1
        self.event(what)
        me = self.ranks[self.current]
        me.state = 'ready'
        me.what = what
        self._yield()

    def block(self, pred, what):
        if pred():
            return
        me = self.ranks[self.current]
        me.state = 'blocked'
        me.pred = pred
        me.what = what
        self._yield()
        me.state = 'ready'

    def die(self, job=True):
        """The running rank is killed here; with it (or soon after) the job"""
        me = self.ranks[self.current]
        me.state = 'dead'
        if job:
            self.killed = True
        self._yield()
        raise HarnessError('a dead rank was scheduled')

    def leave(self, code, grace=None):
        """The running rank exits; with an error the launcher ends all others soon after"""
        if code not in (None, 0) and self.grace is None:
            self.grace = self.chooser.choose(25) if grace is None else grace
            self.stats['early_exit'] += 1

    # ------------------------------------------------------------------------
    def run(self, fn):
        """Run fn(rank) on every rank to completion under the seeded schedule"""
        for rk in self.ranks:
            t = threading.Thread(target=self._main, args=(rk, fn), daemon=True)
            rk.thread = t
            t.start()
        ch = self.chooser
        if self.policy == 'pct':
            order = list(range(self.P))
            for i in range(self.P - 1, 0, -1):
                j = i - ch.choose(i + 1)
                order[i], order[j] = order[j], order[i]
            for p, r in enumerate(order):
                self.ranks[r].prio = p
        kill_at = self.faults.get('kill_at')           # (step, victim, grace)
        stall_p = self.faults.get('stall_p', 0.0)
        self.grace = None
        while True:
            if self.killed or self.violation or self.harness:
                break
            runnable = [rk for rk in self.ranks
                        if rk.state == 'ready' or (rk.state == 'blocked' and self._ready(rk))]
            if self.harness or self.violation:
                break
            if not runnable:
                if all(rk.state == 'done' for rk in self.ranks):
                    break
                if any(rk.state == 'dead' for rk in self.ranks):
                    self.killed = True     # the launcher notices and ends the job
                    break
                waiting = [(rk.r, rk.state, str(rk.what)) for rk in self.ranks]
                self.violation = Violation('deadlock', f'no rank can proceed: {waiting}')
                break
            self.steps += 1
            self.state_.clock += 1e-3
            if self.steps > self.step_cap:
                self.violation = Violation('no-progress', f'not finished after {self.step_cap} steps')
                break
            if self.grace is not None:
                self.grace -= 1
                if self.grace < 0:
                    self.killed = True
                    break
            if kill_at is not None and self.steps >= kill_at[0]:
                victim = self.ranks[kill_at[1] % self.P]
                kill_at_, kill_at = kill_at, None
                if victim.state not in ('done',):
                    victim.state = 'dead'
                    self.stats['kill_rank'] += 1
                    self.grace = kill_at_[2]
                    self.log.update(b'kill')
                    continue
            self._pick(runnable, stall_p)
        return self

    def _ready(self, rk):
        self_current = self.state_.current
        try:
            return bool(rk.pred())
        except Violation as e:
            self.violation = e
            return False
        except Exception as e:
            self.harness = HarnessError(f'predicate: {e!r}')
            return False
        finally:
            self.state_.current = self_current

    def _pick(self, runnable, stall_p):
        ch = self.chooser
        if stall_p and self.P > 1 and ch.flip(stall_p):
            victim = self.ranks[ch.choose(self.P)]
            victim.stalled_until = self.steps + 5 + 5 * ch.choose(20)
            self.stats['stall'] += 1
        cand = [rk for rk in runnable if rk.stalled_until < self.steps] or runnable
        # index 0 is the boring choice: stay with the rank that ran last
        cand.sort(key=lambda rk: (rk.r - self.last) % self.P)
        if len(cand) == 1:
            rk = cand[0]
        elif ch.replaying:
            rk = cand[ch.choose(len(cand))]
        elif self.policy == 'pct':
            if ch.rng.random() < 0.05:
                cand[ch.rng.randrange(len(cand))].prio = -self.steps
            i = max(range(len(cand)), key=lambda i: cand[i].prio)
            rk = cand[ch.choose(len(cand), preferred=i)]
        elif self.policy == 'serial':
            rk = cand[ch.choose(len(cand), preferred=0)]
        elif self.policy == 'rr':
            rk = cand[ch.choose(len(cand), preferred=1 % len(cand))]
        elif self.policy == 'reverse':
            rk = cand[ch.choose(len(cand), preferred=len(cand) - 1)]
        else:
            rk = cand[ch.choose(len(cand))]
        self.sched.update(bytes([rk.r]))
        if rk.r != self.last:
            self.stats['switches'] += 1
        self.switch_to(rk.r)
        self.last = rk.r
        rk.go.release()
        self.back.acquire()

    def switch_to(self, r):
        if self.state_.current != r:
            self.switch(self.state_.current, r)
            self.state_.current = r

    def _main(self, rk, fn):
        rk.go.acquire()
        try:
            fn(rk.r)
            rk.state = 'done'
            self.event('exit')
        except Violation as e:
            if self.violation is None:
                self.violation = e
                e.tb = traceback.format_exc()
            rk.state = 'done'
        except HarnessError as e:
            self.harness = e
            e.tb = traceback.format_exc()
            rk.state = 'done'
        except BaseException as e:       # noqa
            rk.error = e
            rk.state = 'done'
            self.on_error(rk, e)
        finally:
            self.back.release()

    def on_error(self, rk, e):
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()
        lastframe = tb[-1].filename if tb else ''
        if isinstance(e, MemoryError):
            self.harness = HarnessError(f'rank {rk.r}: {e!r}')
            self.harness.tb = text
        elif self.violation is None:
            where = [f'{f.filename.split("/shenfun/")[-1]}:{f.name}' for f in tb if '/shenfun/' in f.filename]
            self.violation = Violation('exception', f'{type(e).__name__}: {e} in {where[-1] if where else lastframe}')
            self.violation.tb = text
