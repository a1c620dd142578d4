"""Seams: the places where McSAS3 meets the outside world.

install() replaces, at library level, what the code under test calls (h5py.File,
open, os.unlink/rename/..., numpy.random.default_rng, multiprocessing.Pool/Lock/
cpu_count, time, os.urandom).  The replacements do what the originals do unless a
simulation is active in this OS process.  Nothing in /repo is changed.
"""

import builtins
import hashlib
import io
import multiprocessing
import os
import random
import sys
import threading
import time

import h5py
import numpy as np

from . import kernel
from .kernel import HarnessError, Sim, SimPool, Violation

REAL = {}
RealFile = h5py.File


def sim_here():
    s = Sim.current_sim
    if s is None or not s.active or s.muted:
        return None
    if s.cur.thread is not threading.current_thread():
        return None
    return s


# ---------------------------------------------------------------- disk
class Disk:
    """files of the simulated machine: real bytes in a scratch directory, with
    advisory HDF5 locks between simulated processes"""

    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.open_h5 = []  # live SimFile objects
        self.journal = None  # list of (path, op, ...) if journaling
        self.external = {}  # path -> 'r'/'w' held by a process outside McSAS3
        self.sessions = 0
        self.nwrites = 0
        self.escapes = []
        self.torn = None  # [write number, fraction]: the program is killed in the middle of this write
        sim.disk = self
        sim.disk_forget = self.forget

    def inside(self, p):
        p = os.path.realpath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def forget(self, proc):
        """proc was killed: the kernel drops its descriptors and locks"""
        for f in [f for f in self.open_h5 if f._proc is proc]:
            f._io.frozen = True
            self.open_h5.remove(f)


class DiskIO:
    """file object handed to the HDF5 library; every write reaches the durable
    image at once (a killed program keeps what it had written)"""

    def __init__(self, disk, path, create, writable):
        self.disk, self.path = disk, path
        flags = (os.O_RDWR | (os.O_CREAT | os.O_TRUNC if create else 0)) if writable else os.O_RDONLY
        self.fd = REAL["os.open"](path, flags, 0o644)
        self.pos = 0
        self.frozen = False
        self.writable = writable
        self.created = create
        self.nwrites = 0
        if create and disk.journal is not None:
            disk.journal.append((path, "create"))

    def dead(self):
        return self.frozen or self.disk.sim.crashed

    def readinto(self, m):
        data = os.pread(self.fd, len(m), self.pos)
        m[: len(data)] = data
        self.pos += len(data)
        return len(data)

    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, os.fstat(self.fd).st_size - self.pos)
        d = os.pread(self.fd, n, self.pos)
        self.pos += len(d)
        return d

    def write(self, d):
        d = bytes(d)
        if not self.dead():
            self.disk.nwrites += 1
            t = self.disk.torn
            if t is not None and self.disk.nwrites == t[0]:
                # killed inside this write: a part of it is durable, nothing after it
                d = d[: int(len(d) * t[1])]
                self.disk.sim.fire("torn_write")
                self.disk.sim.log.append((self.disk.sim.seq, self.disk.sim.cur.pid, "FAULT", "torn_write"))
                os.pwrite(self.fd, d, self.pos)
                self.nwrites += 1
                self.disk.sim.crashed = True
                self.pos += len(d)
                return len(d)
            os.pwrite(self.fd, d, self.pos)
            self.nwrites += 1
            if self.disk.journal is not None:
                self.disk.journal.append((self.path, "w", self.pos, d))
        self.pos += len(d)
        return len(d)

    def seek(self, o, w=0):
        self.pos = o if w == 0 else (self.pos + o if w == 1 else os.fstat(self.fd).st_size + o)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        if not self.dead():
            if os.fstat(self.fd).st_size != n:
                os.ftruncate(self.fd, n)
                if self.disk.journal is not None:
                    self.disk.journal.append((self.path, "t", n))
        return n

    def flush(self):
        pass

    def done(self):
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None


class SimFile(RealFile):
    """h5py.File on the simulated disk"""

    _sim = None

    def __init__(self, name, mode="r", *a, **kw):
        s = sim_here()
        if s is None or not isinstance(name, (str, bytes, os.PathLike)) or kw.get("driver") not in (None, "sec2", "stdio", "core") or (kw.get("driver") == "core" and kw.get("backing_store") is False):
            super().__init__(name, mode, *a, **kw)
            return
        disk = s.disk
        spelled = os.fspath(name)
        if isinstance(spelled, bytes):
            spelled = spelled.decode()
        path = os.path.realpath(spelled)
        if not disk.inside(path):
            if mode == "r":
                super().__init__(name, mode, *a, **kw)
                return
            disk.escapes.append(path)
            raise Violation("escape", f"HDF5 file opened for writing outside the working directory: {path}")
        for k in ("driver", "backing_store", "block_size"):
            kw.pop(k, None)
        kw.pop("locking", None)
        kw.pop("libver", None)
        s.point("h5.open", (mode, os.path.relpath(path, disk.root)))
        exists = os.path.exists(path)
        if mode in ("r", "r+") and not exists:
            raise FileNotFoundError(2, f"Unable to synchronously open file (unable to open file: name = '{spelled}', errno = 2, error message = 'No such file or directory')")
        if mode in ("x", "w-") and exists:
            raise FileExistsError(17, f"Unable to synchronously create file (name = '{spelled}', errno = 17, error message = 'File exists')")
        if os.path.isdir(path):
            raise IsADirectoryError(21, f"Unable to synchronously open file (name = '{spelled}', errno = 21)")
        if not exists and not os.path.isdir(os.path.dirname(path)):
            raise FileNotFoundError(2, f"Unable to synchronously create file (name = '{spelled}', errno = 2, error message = 'No such file or directory')")
        writing = mode != "r"
        mine = None
        st = os.stat(path) if exists else None
        for f in disk.open_h5:
            if exists and (f._st == (st.st_dev, st.st_ino)):
                if f._proc is s.cur.leader:
                    mine = f
                elif writing or f._writing:
                    s.probe("h5_lock_conflict")
                    raise BlockingIOError(*kernel.ERRNOS["EAGAIN"])
        ext = disk.external.get(path)
        if ext is not None and (writing or ext == "w"):
            s.probe("h5_lock_external")
            raise BlockingIOError(*kernel.ERRNOS["EAGAIN"])
        if mine is not None and mode in ("w", "w-", "x"):
            raise OSError("Unable to synchronously create file (unable to truncate a file which is already open)")
        if mine is not None and writing and not mine._writing:
            raise OSError("Unable to synchronously open file (file is already open for read-only)")
        create = mode in ("w", "w-", "x") or (mode == "a" and not exists)
        self._sim, self._proc, self._writing, self._spelled = s, s.cur.leader, writing, spelled
        if mine is not None:
            self._io = mine._io
            self._shared = True
            self._st = mine._st
            super().__init__(mine.id.reopen())
        else:
            self._shared = False
            self._io = DiskIO(disk, path, create, writing)
            stt = os.fstat(self._io.fd)
            self._st = (stt.st_dev, stt.st_ino)
            try:
                super().__init__(self._io, "w" if create else ("r+" if writing else "r"), *a, **kw)
            except BaseException:
                self._io.done()
                raise
        disk.open_h5.append(self)
        disk.sessions += 1
        self._opened = s.seq
        s.point("h5.opened", mode)

    @property
    def filename(self):
        return self._spelled if self._sim is not None else RealFile.filename.fget(self)

    def close(self):
        s = self._sim
        if s is None or not self.id.valid:
            super().close()
            return
        live = sim_here() is s and not s.crashed and not s.killing
        if live:
            s.point("h5.close", None)
        super().close()
        if not self._shared:
            self._io.done()
        if self in s.disk.open_h5:
            s.disk.open_h5.remove(self)
        if live:
            s.point("h5.closed", "w" if self._writing else "r")

    def __exit__(self, *a):
        if self.id:
            self.close()

    def __del__(self):
        try:
            s = self._sim
            if s is not None and self.id.valid:
                with _Mute(s):
                    RealFile.close(self)
                    if not self._shared:
                        self._io.done()
                    if self in s.disk.open_h5:
                        s.disk.open_h5.remove(self)
        except Exception:
            pass


class _Mute:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.s.muted += 1

    def __exit__(self, *a):
        self.s.muted -= 1


def quiet(sim):
    """context in which the harness itself may touch files and draw numbers"""
    return _Mute(sim)


# ---------------------------------------------------------------- files
def sim_open(file, mode="r", *a, **kw):
    s = sim_here()
    if s is not None and isinstance(file, (str, bytes, os.PathLike)):
        p = os.path.realpath(os.fspath(file) if not isinstance(file, bytes) else file.decode())
        w = any(c in mode for c in "wax+")
        if s.disk.inside(p):
            s.point("open.w" if w else "open.r", os.path.relpath(p, s.disk.root))
        elif w and not p.startswith("/dev/"):
            s.disk.escapes.append(p)
            raise Violation("escape", f"file opened for writing outside the working directory: {p}")
    return REAL["open"](file, mode, *a, **kw)


def _guarded(name, npaths):
    real = REAL["os." + name]

    def f(*a, **kw):
        s = sim_here()
        if s is not None:
            for i in range(min(npaths, len(a))):
                p = a[i]
                if isinstance(p, int):
                    p = os.readlink(f"/proc/self/fd/{p}")
                p = os.fspath(p)
                if isinstance(p, bytes):
                    p = p.decode()
                d = kw.get("dir_fd") if kw.get("dir_fd") is not None else kw.get("src_dir_fd" if i == 0 else "dst_dir_fd")
                if d is not None:
                    p = os.path.join(os.readlink(f"/proc/self/fd/{d}"), p)
                # the entry itself is changed, not what a link points to
                q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
                if not s.disk.inside(os.path.dirname(q)):
                    s.disk.escapes.append(q)
                    raise Violation("escape", f"{name} outside the working directory: {q}")
                if i == 0:
                    s.point("os." + name, os.path.relpath(q, s.disk.root))
        return real(*a, **kw)

    f.__name__ = name
    return f


# ---------------------------------------------------------------- randomness
class SimGenerator(np.random.Generator):
    def uniform(self, low=0.0, high=1.0, size=None):
        s = sim_here()
        if s is not None:
            s.point("rng", None, sched=False)
            adv = getattr(s, "adversary", None)
            if adv is not None and size is None:
                v = adv(s, low, high)
                if v is not None:
                    s.probe("rng_adversarial")
                    return v
        v = super().uniform(low, high, size)
        if s is not None and getattr(s, "drawn", None) is not None:
            s.drawn.append((s.seq, s.cur.pid, np.asarray(v, dtype=float).ravel().tolist()))
        return v

    def random(self, size=None, dtype=np.float64, out=None):
        s = sim_here()
        if s is not None:
            s.point("rng", None, sched=False)
        v = super().random(size=size, dtype=dtype, out=out)
        if s is not None and getattr(s, "drawn", None) is not None:
            s.drawn.append((s.seq, s.cur.pid, np.asarray(v, dtype=float).ravel().tolist()))
        return v

    def __reduce__(self):
        return _regen, (self.bit_generator,)


def _regen(b):
    return SimGenerator(b)


def sim_default_rng(seed=None):
    s = sim_here()
    if s is None:
        return REAL["default_rng"](seed)
    if isinstance(seed, np.random.Generator):
        return seed
    if seed is None:
        s.probe("rng_os_entropy")
        seed = s.entropy.getrandbits(128)
    return SimGenerator(REAL["default_rng"](seed).bit_generator)


def sim_urandom(n):
    s = sim_here()
    if s is None:
        return REAL["urandom"](n)
    s.probe("os_urandom")
    return s.entropy.randbytes(n)


# ---------------------------------------------------------------- time, cores
def sim_time():
    s = sim_here()
    return REAL["time"]() if s is None else s.time()


def sim_time_ns():
    s = sim_here()
    return REAL["time_ns"]() if s is None else int(s.time() * 1e9)


def sim_sleep(t):
    s = sim_here()
    if s is None:
        return REAL["sleep"](t)
    if t < 0:
        raise ValueError("sleep length must be non-negative")
    s.passes(t)
    # a sleeping process lets every other one go first
    s.point("sleep", None, sched=False)
    others = [p for p in s.ready() if p is not s.cur]
    if others:
        s._switch(s._choose(others, None))


def sim_monotonic():
    s = sim_here()
    if s is None:
        return REAL["monotonic"]()
    s.passes(1e-6)
    return s.mono


def sim_cpu_count():
    s = sim_here()
    return REAL["cpu_count"]() if s is None else s.cpu_count


def sim_affinity(pid):
    s = sim_here()
    return REAL["affinity"](pid) if s is None else set(range(s.cpu_count))


def _pool(*a, **k):
    if sim_here() is None:
        return REAL["Pool"](*a, **k)
    return SimPool(*a, **k)


def _get_context(method=None):
    return kernel._Ctx(multiprocessing) if sim_here() is not None else REAL["get_context"](method)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert not any(m == "mcsas3" or m.startswith("mcsas3.") for m in sys.modules), "seams must be installed first"
    mp = multiprocessing
    REAL.update(
        {
            "open": builtins.open, "os.open": os.open, "time": time.time, "time_ns": time.time_ns,
            "sleep": time.sleep, "monotonic": time.monotonic, "cpu_count": os.cpu_count,
            "affinity": os.sched_getaffinity, "urandom": os.urandom, "default_rng": np.random.default_rng,
            "Pool": mp.Pool, "Lock": mp.Lock, "RLock": mp.RLock, "Manager": mp.Manager,
            "get_context": mp.get_context, "Process": mp.Process, "Queue": mp.Queue,
        }
    )
    h5py.File = SimFile
    h5py._hl.files.File = SimFile
    builtins.open = sim_open
    io.open = sim_open
    for n, k in (("unlink", 1), ("remove", 1), ("rename", 2), ("replace", 2), ("rmdir", 1), ("truncate", 1)):
        REAL["os." + n] = getattr(os, n)
        setattr(os, n, _guarded(n, k))
    np.random.default_rng = sim_default_rng
    np.random.Generator = SimGenerator
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    time.time, time.time_ns, time.sleep = sim_time, sim_time_ns, sim_sleep
    time.perf_counter = time.monotonic = time.process_time = sim_monotonic
    os.cpu_count = mp.cpu_count = sim_cpu_count
    os.process_cpu_count = sim_cpu_count
    os.sched_getaffinity = sim_affinity
    mp.Pool, mp.get_context = _pool, _get_context
    from . import conc

    conc.install(REAL)
