"""Ranks as threads over a recording communicator.

`run(size, body, delays)` runs body(rank) on every rank with an object that
stands for mpi4py's MPI module; collectives meet in a rendezvous, are logged
and checked: every rank must enter the same collective with a buffer of the
same type and size.  A rank that ends while others wait is reported, as is a
buffer mpi4py would refuse.
"""
import sys
import threading
import time
import types

import numpy as np

from .core import HarnessError, Violation


class _Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


SUM = _Op("SUM", lambda a, b: a + b)
MAX = _Op("MAX", np.maximum)
MIN = _Op("MIN", np.minimum)
IN_PLACE = object()


class World:
    def __init__(self, size):
        self.size = size
        self.cond = threading.Condition()
        self.gen = 0
        self.slots = {}
        self.result = None
        self.ended = set()
        self.error = None
        self.log = []
        self.delay = lambda rank: None

    def fail(self, msg):
        self.error = self.error or msg
        self.cond.notify_all()
        raise Violation(self.error)

    def meet(self, rank, op, key, payload, combine):
        self.delay(rank)
        with self.cond:
            if self.error:
                raise Violation(self.error)
            self.slots[rank] = (op, key, payload)
            gen = self.gen
            if self.ended:
                self.fail(f"rank {rank} enters {op}{key} after rank(s) {sorted(self.ended)} ended")
            if len(self.slots) == self.size:
                kinds = {(s[0], s[1]) for s in self.slots.values()}
                if len(kinds) != 1:
                    self.fail(f"ranks enter different collectives: {sorted(map(str, kinds))}")
                self.log.append((op, key))
                self.result = combine([self.slots[r][2] for r in range(self.size)])
                self.slots = {}
                self.gen += 1
                self.cond.notify_all()
                return self.result
            t0 = time.time()
            res = None
            while self.gen == gen:
                if self.error:
                    raise Violation(self.error)
                if self.ended:
                    self.fail(f"rank {rank} waits in {op}{key} but rank(s) "
                              f"{sorted(self.ended)} ended")
                if time.time() - t0 > 240:
                    self.fail(f"rank {rank} waits in {op}{key} for ever")
                self.cond.wait(1.0)
            res = self.result
            return res

    def end(self, rank):
        with self.cond:
            self.ended.add(rank)
            self.cond.notify_all()


def _flat(a, name):
    if isinstance(a, (list, tuple)):            # [buffer, type] or [buffer, count, type]
        a = a[0]
    if not isinstance(a, np.ndarray):
        raise HarnessError(f"{name}: buffer of type {type(a)}")
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError("message: ndarray is not contiguous")
    return a.reshape(-1, order="A") if a.flags.c_contiguous else a.T.reshape(-1)


class Comm:
    def __init__(self, world, rank):
        self.world, self._rank = world, rank
        self.rank, self.size = rank, world.size

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.world.size

    def _key(self, buf):
        return (buf.dtype.str, int(buf.size))

    def _reduce(self, sendbuf, recvbuf, op, root, name):
        src = _flat(recvbuf if sendbuf is IN_PLACE else sendbuf, name)
        def combine(parts):
            out = parts[0].copy()
            for q in parts[1:]:
                out = op.f(out, q)
            return out
        res = self.world.meet(self._rank, name, self._key(src) + (op.name, root), src.copy(),
                              combine)
        if root is None or root == self._rank:
            dst = _flat(recvbuf, name)
            if dst.dtype != src.dtype or dst.size != src.size:
                raise Violation(f"{name}: receive buffer {dst.dtype}[{dst.size}] for "
                                f"{src.dtype}[{src.size}]")
            dst[:] = res

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        self._reduce(sendbuf, recvbuf, op, None, "Allreduce")

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        if self._rank != root and sendbuf is IN_PLACE:
            raise ValueError("IN_PLACE on a non-root rank")
        self._reduce(sendbuf, recvbuf, op, root, "Reduce")

    def Bcast(self, buf, root=0):
        b = _flat(buf, "Bcast")
        res = self.world.meet(self._rank, "Bcast", self._key(b) + (root,), b.copy(),
                              lambda parts: parts[root])
        if self._rank != root:
            if not buf.flags.writeable:
                raise ValueError("read-only buffer")
            b[:] = res

    def allreduce(self, obj, op=SUM):
        def combine(parts):
            out = parts[0]
            for q in parts[1:]:
                out = op.f(out, q)
            return out
        return self.world.meet(self._rank, "allreduce", (op.name,), obj, combine)

    def reduce(self, obj, op=SUM, root=0):
        r = self.allreduce(obj, op)
        return r if self._rank == root else None

    def bcast(self, obj, root=0):
        return self.world.meet(self._rank, "bcast", (root,), obj, lambda p: p[root])

    def allgather(self, obj):
        return list(self.world.meet(self._rank, "allgather", (), obj, list))

    def gather(self, obj, root=0):
        r = self.allgather(obj)
        return r if self._rank == root else None

    def Allgather(self, sendbuf, recvbuf, root=None, name="Allgather"):
        src = _flat(sendbuf, name)
        res = self.world.meet(self._rank, name, self._key(src) + (root,), src.copy(), np.concatenate)
        if root is None or root == self._rank:
            _flat(recvbuf, name)[:] = res

    def Gather(self, sendbuf, recvbuf, root=0):
        self.Allgather(sendbuf, recvbuf, root, "Gather")

    def Dup(self):
        return self

    Clone = Dup

    def Barrier(self):
        self.world.meet(self._rank, "Barrier", (), None, lambda p: None)

    barrier = Barrier

    def __getattr__(self, name):
        raise HarnessError(f"communicator method {name} is not provided by the harness")


class Current:
    """The communicator of the calling thread, whenever and wherever it was looked up."""
    def __getattr__(self, name):
        comm = getattr(Module._local, "comm", None)
        if comm is None:        # outside of a run: a world of one process
            comm = Module._local.comm = Comm(World(1), 0)
        return getattr(comm, name)


class Module(types.ModuleType):
    """Stands for mpi4py.MPI; COMM_WORLD depends on the calling thread."""
    SUM, MAX, MIN, IN_PLACE = SUM, MAX, MIN, IN_PLACE
    COMM_WORLD, Comm, Intracomm = Current(), Comm, Comm
    _local = threading.local()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("DOUBLE", "COMPLEX", "DOUBLE_COMPLEX", "INT", "INT64_T", "FLOAT"):
            return name
        raise HarnessError(f"MPI.{name} is not provided by the harness")


def install():
    """Stand in for mpi4py in this process, before anything has imported it."""
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = Module("mpi4py.MPI")
    pkg.__path__ = []
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, pkg.MPI


def run(size, body, rng=None):
    """Return ([body(0), ..., body(size-1)], log of collectives)."""
    if not isinstance(sys.modules["mpi4py"].MPI, Module):
        raise HarnessError("mpi4py was imported before the harness replaced it")
    world = World(size)
    if rng is not None:
        seeds = [int(x) for x in rng.integers(0, 2 ** 31, size)]
        gens = [np.random.default_rng(s) for s in seeds]

        def delay(rank):
            if gens[rank].random() < 0.3:
                time.sleep(float(gens[rank].uniform(0, 0.002)))
        world.delay = delay
    out, errs = [None] * size, [None] * size

    def go(rank):
        Module._local.comm = Comm(world, rank)
        try:
            out[rank] = body(rank)
        except BaseException as e:
            errs[rank] = e
        finally:
            world.end(rank)
    ts = [threading.Thread(target=go, args=(r,)) for r in range(size)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    # an error of a rank itself says more than the deadlock it causes
    first = [e for e in errs if e is not None and not isinstance(e, Violation)]
    first = first or [e for e in errs if e is not None]
    if first:
        raise first[0]
    return out, world.log
