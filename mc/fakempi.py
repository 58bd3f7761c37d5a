"""The real parallel code with any number of processes inside one Python process.

Every rank gets its own copy of the flee package (imported from /repo anew, so class-level and
module-level state is per rank as in separate processes) and a stand-in for mpi4py whose collective
operations are exact.  Ranks share nothing between collectives, so running them one after another up to
the next collective covers every schedule; mismatched collectives (deadlocks under real MPI) are reported.
"""
import copy
import importlib
import os
import sys
import threading
import types

import numpy as np

from mc import env


class MPIError(Exception):
    """The processes disagree on the collective operation: a real run would hang or abort."""


_ACTIVE = None  # (world, rank) of the running rank


class _Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


SUM = _Op("SUM", lambda a: np.sum(a, axis=0))
MAX = _Op("MAX", lambda a: np.max(a, axis=0))
MIN = _Op("MIN", lambda a: np.min(a, axis=0))
INT, DOUBLE, FLOAT, LONG, INT64_T = "INT", "DOUBLE", "FLOAT", "LONG", "LONG"
_DT = {"INT": np.dtype("i"), "DOUBLE": np.dtype("d"), "FLOAT": np.dtype("f"), "LONG": np.dtype("l")}


def _arr(buf):
    """(array, dtype) of an mpi4py buffer specification."""
    if isinstance(buf, (list, tuple)):
        a = buf[0]
        dts = [x for x in buf[1:] if isinstance(x, str)]
        dt = _DT[dts[0]] if dts else a.dtype
        if dts and a.dtype != dt:
            # MPI would reinterpret the bytes of the buffer
            raise MPIError("buffer of type %s sent as MPI type %s" % (a.dtype, dts[0]))
        return a, dt
    return buf, buf.dtype


class Comm:
    """COMM_WORLD of one rank."""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def __deepcopy__(self, memo):
        return self

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _coll(self, kind, payload):
        if self.size == 1:
            return [payload]
        w = _ACTIVE
        if w is None:
            raise MPIError("collective operation outside a parallel section")
        return w._wait(self.rank, kind, payload)

    # buffers
    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s, sd = _arr(sendbuf)
        r, rd = _arr(recvbuf)
        if sd != rd:
            raise MPIError("Allreduce: mismatch in send and receive MPI datatypes %s, %s" % (sd, rd))
        if r.size < s.size:
            raise MPIError("Allreduce: message truncated")
        parts = self._coll(("Allreduce", op.name, s.size, str(sd)), np.array(s, copy=True))
        r.reshape(-1)[:s.size] = op.fn(np.array([p.reshape(-1) for p in parts])).astype(rd)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        s, sd = _arr(sendbuf)
        parts = self._coll(("Reduce", op.name, s.size, str(sd), root), np.array(s, copy=True))
        if self.rank == root:
            r, rd = _arr(recvbuf)
            r.reshape(-1)[:s.size] = op.fn(np.array([p.reshape(-1) for p in parts])).astype(rd)

    def Bcast(self, buf, root=0):
        a, d = _arr(buf)
        parts = self._coll(("Bcast", a.size, str(d), root), np.array(a, copy=True))
        a.reshape(-1)[:] = parts[root].reshape(-1)

    def Allgather(self, sendbuf, recvbuf):
        s, sd = _arr(sendbuf)
        r, rd = _arr(recvbuf)
        parts = self._coll(("Allgather", s.size, str(sd)), np.array(s, copy=True))
        r.reshape(-1)[:] = np.concatenate([p.reshape(-1) for p in parts])

    def Allgatherv(self, sendbuf, recvbuf):
        s, sd = _arr(sendbuf)
        r = recvbuf[0]
        rest = [x for x in recvbuf[1:] if not isinstance(x, str)]
        dt = [x for x in recvbuf[1:] if isinstance(x, str)]
        if len(rest) == 1 and isinstance(rest[0], tuple):
            counts, displs = rest[0]
        elif len(rest) == 2:
            counts, displs = rest
        else:
            counts, displs = rest[0], np.concatenate([[0], np.cumsum(rest[0])[:-1]])
        if sd != r.dtype or (dt and _DT[dt[0]] != sd):
            raise MPIError("Allgatherv: mismatched datatypes")
        parts = self._coll(("Allgatherv", str(sd)), np.array(s, copy=True))
        for k, p in enumerate(parts):
            if p.size > counts[k]:
                raise MPIError("Allgatherv: message from rank %d truncated (%d > %d)" % (k, p.size, counts[k]))
            if displs[k] + p.size > r.size:
                raise MPIError("Allgatherv: receive buffer overrun")
            r[displs[k]:displs[k] + p.size] = p

    # objects
    def allreduce(self, x, op=SUM):
        parts = self._coll(("allreduce", op.name), copy.deepcopy(x))
        out = parts[0]
        for p in parts[1:]:
            out = out + p if op is SUM else (max(out, p) if op is MAX else min(out, p))
        return out

    def allgather(self, x):
        return self._coll(("allgather",), copy.deepcopy(x))

    def gather(self, x, root=0):
        p = self._coll(("gather", root), copy.deepcopy(x))
        return p if self.rank == root else None

    def bcast(self, x, root=0):
        return copy.deepcopy(self._coll(("bcast", root), copy.deepcopy(x))[root])

    def scatter(self, x, root=0):
        return copy.deepcopy(self._coll(("scatter", root), x)[root][self.rank])

    def barrier(self):
        self._coll(("barrier",), None)
    Barrier = barrier


def _fake_mpi4py(rank, size):
    pkg = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = Comm(rank, size)
    MPI.Is_initialized = lambda: True
    MPI.Init = lambda: None
    MPI.Finalize = lambda: None
    for n in ("SUM", "MAX", "MIN", "INT", "DOUBLE", "FLOAT", "LONG", "INT64_T"):
        setattr(MPI, n, globals()[n])
    pkg.MPI = MPI
    return pkg, MPI


class RankMods:
    pass


_ranks = {}


def rank_mods(rank, size):
    """The flee modules of one rank (imported once per (rank, size))."""
    if (rank, size) in _ranks:
        return _ranks[(rank, size)]
    saved = {k: v for k, v in sys.modules.items()
             if k == "flee" or k.startswith("flee.") or k == "mpi4py" or k.startswith("mpi4py.")}
    for k in saved:
        del sys.modules[k]
    pkg, MPI = _fake_mpi4py(rank, size)
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, MPI
    try:
        m = RankMods()
        m.P = importlib.import_module("flee.pflee")
        m.F = m.P  # so that world.build works with it
        m.SF = importlib.import_module("flee.flee")
        for n in ("moving", "scoring", "spawning", "crawling", "coupling"):
            setattr(m, n, importlib.import_module("flee." + n))
        m.IG = importlib.import_module("flee.InputGeography")
        m.S = importlib.import_module("flee.SimulationSettings").SimulationSettings
        m.rank, m.size = rank, size
    finally:
        m.modules = {}
        for k in [k for k in sys.modules if _ours(k)]:
            m.modules[k] = sys.modules.pop(k)
        sys.modules.update(saved)
    _ranks[(rank, size)] = m
    return m


def _ours(k):
    k = k.split(".")[0]
    return k in ("flee", "mpi4py", "runscripts") or os.path.exists(os.path.join(env.REPO, "runscripts", k + ".py"))


def importer(m, real=__import__):
    """An import statement that sees the modules of one rank."""
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level or not _ours(name):
            return real(name, globals, locals, fromlist, level)
        saved = {k: sys.modules.pop(k) for k in [k for k in sys.modules if _ours(k)]}
        sys.modules.update(m.modules)
        try:
            return real(name, globals, locals, fromlist, level)
        finally:
            for k in [k for k in sys.modules if _ours(k)]:
                m.modules[k] = sys.modules.pop(k)
            sys.modules.update(saved)
    return imp


def forget(m):
    """Class-level data as in a process that has not created an ecosystem before."""
    k = (m.rank, m.size)
    if k not in _init:
        _init[k] = copy.deepcopy(class_state(m))
    for (cls, kk), v in copy.deepcopy(_init[k]).items():
        setattr(getattr(m.P, cls), kk, v)


class World:
    """size ranks of the real parallel code."""

    def __init__(self, size):
        self.size = size
        self.m = [rank_mods(r, size) for r in range(size)]

    # running ---------------------------------------------------------------
    def each(self, fn):
        """fn(rank_modules, rank) on every rank, collectives included; list of results."""
        global _ACTIVE
        if self.size == 1:
            return [fn(self.m[0], 0)]
        prev, _ACTIVE = _ACTIVE, self
        self._main = threading.Semaphore(0)
        self._sem = [threading.Semaphore(0) for _ in range(self.size)]
        self._req = [None] * self.size
        self._ans = [None] * self.size
        self._done = [False] * self.size
        self._res = [None] * self.size
        self._err = [None] * self.size
        self._abort = False

        def body(r):
            self._sem[r].acquire()
            try:
                if not self._abort:
                    self._res[r] = fn(self.m[r], r)
            except BaseException as ex:
                self._err[r] = ex
            self._done[r] = True
            self._main.release()
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        try:
            while True:
                for r in range(self.size):
                    if not self._done[r]:
                        self._sem[r].release()
                        self._main.acquire()
                        if self._err[r] is not None:
                            raise self._err[r]
                if all(self._done):
                    return self._res
                if any(self._done):
                    raise MPIError("some processes finished while others wait in %r" % [q and q[0] for q in self._req])
                kinds = {q[0] for q in self._req}
                if len(kinds) != 1:
                    raise MPIError("processes are in different collective operations: %r" % [q[0] for q in self._req])
                payload = [q[1] for q in self._req]
                for r in range(self.size):
                    self._ans[r] = payload
                    self._req[r] = None
        finally:
            self._abort = True
            for r in range(self.size):
                if not self._done[r]:
                    self._sem[r].release()
                    self._main.acquire()
            for t in ts:
                t.join()
            _ACTIVE = prev

    def _wait(self, rank, kind, payload):
        self._req[rank] = (kind, payload)
        self._main.release()
        self._sem[rank].acquire()
        if self._abort:
            raise MPIError("aborted")
        return self._ans[rank]

    # state -----------------------------------------------------------------
    def settings(self, **sections):
        from mc import world as w
        for m in self.m:
            w.settings(S=m.S, **sections)
            w.reset_globals(m)

    def build(self, locs, links, **attrs):
        from mc import world as w

        def one(m, r):
            e = w.build(locs, links, m=m, e=new_eco(m))
            for k, v in attrs.items():
                if not hasattr(e, k):
                    raise MPIError("no attribute %s" % k)
                setattr(e, k, v)
            return e
        self.e = self.each(one)
        return self.e

    def run(self, fn):
        """fn(ecosystem) on every rank."""
        return self.each(lambda m, r: fn(self.e[r]))

    def evolve(self):
        self.run(lambda e: e.evolve())

    def save(self):
        return (copy.deepcopy(self.e), [copy.deepcopy(class_state(m)) for m in self.m])

    def load(self, s):
        self.e = copy.deepcopy(s[0])
        for m, c in zip(self.m, s[1]):
            for (cls, k), v in copy.deepcopy(c).items():
                setattr(getattr(m.P, cls), k, v)


def class_state(m):
    """Class-level data of the parallel classes (the score array)."""
    out = {}
    for cls in ("Ecosystem", "Location", "Link", "Person"):
        for k, v in vars(getattr(m.P, cls)).items():
            if isinstance(v, (np.ndarray, list, dict, int, float)) and not k.startswith("__"):
                out[(cls, k)] = v
    return out


_init = {}


def new_eco(m):
    """A new parallel ecosystem in a process that has not created one before."""
    forget(m)
    e = m.P.Ecosystem()
    e.print_location_output = False
    return e
