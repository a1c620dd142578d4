"""Simulated processes, threads, executors, queues, events and shared memory, for
the ways of working in parallel the code might take besides a pool and a lock."""

import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import fcntl
import multiprocessing
import multiprocessing.pool
import os
import pickle
import queue
import sys
import threading

from . import kernel
from .kernel import DONE, HarnessError, Shared, Sim, SimLock, SimPool, SimRLock, SimThreadPool, fork_copy

PID0 = 10_000_000  # no such process: a signal sent there by the code under test hits nobody


def here():
    from .seams import sim_here

    return sim_here()


def from_sut(depth=2):
    f = sys._getframe(depth)
    return str(f.f_globals.get("__name__", "")).split(".")[0] == "mcsas3"


class Waits(Shared):
    """something processes wait for"""

    def _wait(self, cond, why, timeout=None):
        s = here()
        while not cond():
            if s is None:
                raise HarnessError(f"{why}: would wait outside a simulation")
            if timeout is not None:
                if timeout <= 0:
                    return False
                timeout = s.nap(timeout)
                continue
            self.__dict__.setdefault("_waiters", []).append(s.cur)
            s.block((why, None))
        return True

    def _changed(self):
        s = here()
        w, self._waiters = getattr(self, "_waiters", []), []
        if s is not None:
            for p in w:
                s.wake(p)


class SimEvent(Waits):
    def __init__(self):
        self.flag = False

    def is_set(self):
        _pt("event.is_set")
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        self._changed()
        _pt("event.set")

    def clear(self):
        self.flag = False
        _pt("event.clear")

    def wait(self, timeout=None):
        _pt("event.wait")
        self._wait(lambda: self.flag, "event", timeout)
        return self.flag


def _pt(kind, info=None):
    s = here()
    if s is not None:
        s.point(kind, info)


class SimSemaphore(Waits):
    def __init__(self, value=1):
        self.value = value

    def acquire(self, block=True, timeout=None):
        _pt("sem.acquire")
        if not self._wait(lambda: self.value > 0, "semaphore", timeout if block else 0):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n
        self._changed()
        _pt("sem.release")

    def get_value(self):
        return self.value

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimBarrier(Waits):
    def __init__(self, parties, action=None, timeout=None):
        self.parties, self.action, self.n, self.gen = parties, action, 0, 0

    def wait(self, timeout=None):
        _pt("barrier.wait")
        g, i = self.gen, self.n
        self.n += 1
        if self.n == self.parties:
            if self.action:
                self.action()
            self.n, self.gen = 0, g + 1
            self._changed()
            return i
        if not self._wait(lambda: self.gen != g, "barrier", timeout):
            raise threading.BrokenBarrierError
        return i


class SimCondition(Waits):
    def __init__(self, lock=None):
        self.lock = lock or SimRLock()
        self.tickets = 0
        self.queue = []

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def release(self):
        self.lock.release()

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        self.tickets += 1
        me = self.tickets
        self.queue.append(me)
        n, o = self.lock.count, self.lock.owner
        for _ in range(n):
            self.lock.release()
        ok = self._wait(lambda: me not in self.queue, "condition", timeout)
        if not ok:
            self.queue.remove(me)
        for _ in range(n):
            self.lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        del self.queue[:n]
        self._changed()

    def notify_all(self):
        self.notify(len(self.queue))


class SimQueue(Waits):
    """multiprocessing.Queue: items are pickled, first in first out"""

    plain = False

    def __init__(self, maxsize=0):
        self.maxsize, self.items, self.open_tasks = maxsize, [], 0

    def put(self, obj, block=True, timeout=None):
        _pt("queue.put")
        if self.maxsize > 0 and not self._wait(lambda: len(self.items) < self.maxsize, "queue full", timeout if block else 0):
            raise queue.Full
        self.items.append(obj if self.plain else pickle.dumps(obj))
        self.open_tasks += 1
        self._changed()

    def get(self, block=True, timeout=None):
        _pt("queue.get")
        if not self._wait(lambda: self.items, "queue empty", timeout if block else 0):
            raise queue.Empty
        v = self.items.pop(0)
        self._changed()
        return v if self.plain else pickle.loads(v)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return len(self.items)

    def empty(self):
        _pt("queue.empty")
        return not self.items

    def full(self):
        return self.maxsize > 0 and len(self.items) >= self.maxsize

    def task_done(self):
        self.open_tasks -= 1
        self._changed()

    def join(self):
        self._wait(lambda: self.open_tasks <= 0, "queue join")

    def close(self):
        pass

    def join_thread(self):
        pass

    cancel_join_thread = join_thread


class SimPlainQueue(SimQueue):
    plain = True


class SimConnection(Waits):
    def __init__(self, mine, other):
        self.mine, self.other, self.closed = mine, other, False

    def send(self, obj):
        self.other.put(obj)

    def recv(self):
        v = self.mine.get()
        if v == ("__closed__",):
            raise EOFError
        return v

    def poll(self, timeout=0.0):
        _pt("pipe.poll")
        return self.mine._wait(lambda: self.mine.items, "pipe", timeout)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sim_pipe(duplex=True):
    a, b = SimQueue(), SimQueue()
    return SimConnection(a, b), SimConnection(b, a)


class SimValue(Shared):
    """shared memory: every access is a moment at which others may come in between"""

    def __init__(self, kind, *args, lock=True):
        self._v = args[0] if args else 0
        self._lock = lock if isinstance(lock, SimLock) else SimRLock()

    @property
    def value(self):
        v = self._v
        _pt("shm.get")
        return v

    @value.setter
    def value(self, v):
        self._v = v
        _pt("shm.set")

    def get(self):
        return self.value

    def set(self, v):
        self.value = v

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        self._lock.release()

    def __enter__(self):
        return self._lock.acquire()

    def __exit__(self, *a):
        self._lock.release()


class SimArray(Shared):
    def __init__(self, kind, size_or_init, lock=True):
        self._a = [0] * size_or_init if isinstance(size_or_init, int) else list(size_or_init)
        self._lock = lock if isinstance(lock, SimLock) else SimRLock()

    def __len__(self):
        return len(self._a)

    def __getitem__(self, i):
        v = self._a[i]
        _pt("shm.get")
        return v

    def __setitem__(self, i, v):
        self._a[i] = v
        _pt("shm.set")

    def __iter__(self):
        return iter(list(self._a))

    get_lock = SimValue.get_lock

    def get_obj(self):
        return self

    acquire, release, __enter__, __exit__ = SimValue.acquire, SimValue.release, SimValue.__enter__, SimValue.__exit__


def _proxy(name, kind, methods):
    def __init__(self, *a, **k):
        self._obj = kind(*a, **k)

    def meth(m):
        def f(self, *a, **k):
            _pt("manager." + m)
            r = getattr(self._obj, m)(*pickle.loads(pickle.dumps(a)), **pickle.loads(pickle.dumps(k)))
            if m in ("keys", "values", "items"):
                r = list(r)
            elif m == "__iter__":
                return iter(list(self._obj))
            return pickle.loads(pickle.dumps(r)) if not isinstance(r, Shared) and r is not NotImplemented else r

        f.__name__ = m
        return f

    d = {m: meth(m) for m in methods}
    d.update(__init__=__init__, _getvalue=lambda self: kind(self._obj), __repr__=lambda self: repr(self._obj), __str__=lambda self: repr(self._obj))
    return type(name, (Shared,), d)


SimList = _proxy("ListProxy", list, ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "index", "count", "clear", "copy", "__len__", "__getitem__",
                                     "__setitem__", "__delitem__", "__contains__", "__iter__", "__add__", "__mul__"))
SimDict = _proxy("DictProxy", dict, ("get", "pop", "popitem", "setdefault", "update", "clear", "copy", "keys", "values", "items", "__len__", "__getitem__",
                                     "__setitem__", "__delitem__", "__contains__", "__iter__"))


class SimNamespace(Shared):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class ManagerLock(SimLock, Shared):
    """lock proxy of a manager: may be pickled"""

    __reduce__ = Shared.__reduce__


class ManagerRLock(ManagerLock):
    reentrant = True


class SimManager:
    def Lock(self):
        return ManagerLock()

    def RLock(self):
        return ManagerRLock()

    def start(self, *a, **k):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    list = staticmethod(lambda *a: SimList(*a))
    dict = staticmethod(lambda *a, **k: SimDict(*a, **k))
    Namespace = staticmethod(lambda **k: SimNamespace(**k))
    Queue = JoinableQueue = staticmethod(lambda maxsize=0: SimQueue(maxsize))
    Event = staticmethod(lambda: SimEvent())
    Semaphore = BoundedSemaphore = staticmethod(lambda n=1: SimSemaphore(n))
    Barrier = staticmethod(lambda *a, **k: SimBarrier(*a, **k))
    Condition = staticmethod(lambda lock=None: SimCondition(lock))
    Value = staticmethod(lambda kind, v, lock=True: SimValue(kind, v))
    Array = staticmethod(lambda kind, v, lock=True: SimArray(kind, v))
    Pool = staticmethod(lambda *a, **k: SimPool(*a, **k))


class ThreadLock:
    """threading.Lock: of one process; a forked one has its own"""

    reentrant = False

    def __init__(self):
        self._sim, self._by = None, {}

    def _lock(self):
        s = Sim.current_sim
        if s is None:
            return None
        if self._sim is not s:
            self._sim, self._by = s, {}
        k = s.cur.leader.pid
        if k not in self._by:
            self._by[k] = SimRLock() if self.reentrant else SimLock()
        return self._by[k]

    def acquire(self, blocking=True, timeout=-1):
        lk = self._lock()
        return True if lk is None else lk.acquire(blocking, None if timeout is None or timeout < 0 else timeout)

    def release(self):
        lk = self._lock()
        if lk is not None:
            lk.release()

    def locked(self):
        lk = self._lock()
        return lk is not None and lk.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class ThreadRLock(ThreadLock):
    reentrant = True


def alive_children(s):
    return [p for p in s.procs if p is not s.main and p.leader is p and p.state != DONE]


def started(s):
    s.max_workers = max(getattr(s, "max_workers", 0), sum(1 for p in s.procs if p is not s.main and p.state != DONE))


RealProcess = multiprocessing.Process
RealThread = threading.Thread


class SimProcessMixin:
    """multiprocessing.Process with the fork start method"""

    _p = None

    def start(self):
        s = here()
        if s is None:
            return super().start()
        if self._p is not None:
            raise AssertionError("cannot start a process twice")
        clone = fork_copy((getattr(self, "_args", ()), getattr(self, "_kwargs", {})))

        def body():
            old = self._args, self._kwargs
            self._args, self._kwargs = clone
            try:
                self.run()
            except SystemExit as e:
                self._code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                return
            except Exception:
                import traceback

                traceback.print_exc()
                s.probe("process_died")
                self._code = 1
                return
            self._code = 0

        self._code = None
        s.point("process.start")
        self._p = s.spawn(self.name, body, daemon=bool(self.daemon))
        self._p.owner = self
        started(s)
        s.point("process.started")

    def join(self, timeout=None):
        if self._p is None:
            return super().join(timeout)
        s = here()
        s.point("process.join")
        s.wait_exit(self._p, timeout)

    def is_alive(self):
        if self._p is None:
            return super().is_alive()
        _pt("process.alive")
        return self._p.state != DONE

    @property
    def exitcode(self):
        if self._p is None:
            return super().exitcode
        if self._p.state != DONE:
            return None
        return -15 if self._code is None else self._code

    @property
    def pid(self):
        return super().pid if self._p is None else PID0 + self._p.pid

    ident = pid

    def terminate(self):
        if self._p is None:
            return super().terminate()
        here().kill(self._p)

    kill = terminate

    def close(self):
        if self._p is None:
            return super().close()


class SimProcess(SimProcessMixin, RealProcess):
    pass


class SimThread(RealThread):
    _p = None

    def start(self):
        s = here()
        if s is None or not from_sut():
            return super().start()

        def body():
            try:
                self.run()
            except SystemExit:
                pass
            except Exception:
                import traceback

                traceback.print_exc()
                s.probe("thread_died")

        s.point("thread.start")
        self._p = s.spawn(self.name, body, thread=True, daemon=bool(self.daemon))
        started(s)
        s.point("thread.started")

    def join(self, timeout=None):
        if self._p is None:
            return super().join(timeout)
        s = here()
        if s is None:
            return
        s.point("thread.join")
        s.wait_exit(self._p, timeout)

    def is_alive(self):
        if self._p is None:
            return super().is_alive()
        return self._p.state != DONE


# ---------------------------------------------------------------- executors
CF = concurrent.futures


class SimFuture(CF.Future):
    def _init(self, s):
        self._s, self._w = s, []
        return self

    def _tell(self):
        w, self._w = self._w, []
        for p in w:
            self._s.wake(p)

    def set_result(self, r):
        super().set_result(r)
        self._tell()

    def set_exception(self, e):
        super().set_exception(e)
        self._tell()

    def cancel(self):
        r = super().cancel()
        self._tell()
        return r

    def _until_done(self, timeout):
        s = self._s
        s.point("future.wait")
        while not self.done():
            if timeout is not None:
                if timeout <= 0:
                    raise CF.TimeoutError
                timeout = s.nap(timeout)
                continue
            self._w.append(s.cur)
            s.block(("future", None))

    def result(self, timeout=None):
        self._until_done(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._until_done(timeout)
        return super().exception(0)


class SimExecutor(CF.Executor):
    threads = False

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None, thread_name_prefix=""):
        s = self.sim = Sim.current_sim
        n = max_workers
        if n is None:
            n = min(32, s.cpu_count + 4) if self.threads else s.cpu_count
        if n <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.n, self.initializer, self.initargs = n, initializer, initargs
        self.queue, self.idle, self.workers, self.down = [], [], [], False
        s.pools += 1

    def _worker(self):
        s = self.sim
        me = s.cur
        s.point("worker.start", me.pid)
        try:
            if self.initializer is not None:
                self.initializer(*(self.initargs if self.threads else fork_copy(self.initargs)))
        except Exception:
            self.broken = True
            for _, f in self.queue:
                f.set_exception(CF.process.BrokenProcessPool("A process in the process pool was terminated abruptly"))
            self.queue.clear()
            return
        while True:
            while not self.queue:
                if self.down:
                    s.point("worker.exit", me.pid, sched=False)
                    return
                self.idle.append(me)
                s.block(("task", None))
            blob, fut = self.queue.pop(0)
            if not fut.set_running_or_notify_cancel():
                continue
            s.point("task.get")
            try:
                f, a, k = blob if self.threads else pickle.loads(blob)
                r = f(*a, **k)
                r = r if self.threads else pickle.loads(pickle.dumps(r))
            except Exception as e:
                try:
                    e2 = e if self.threads else pickle.loads(pickle.dumps(e))
                except Exception:
                    e2 = RuntimeError(f"{type(e).__name__}: {e}")
                s.probe("worker_task_raised")
                s.point("task.done")
                fut.set_exception(e2)
                continue
            s.point("task.done")
            fut.set_result(r)

    broken = False

    def submit(self, fn, /, *args, **kwargs):
        s = self.sim
        if self.broken:
            raise CF.process.BrokenProcessPool("the process pool is broken")
        if self.down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SimFuture()._init(s)
        try:
            blob = (fn, args, kwargs) if self.threads else pickle.dumps((fn, args, kwargs))
        except Exception as e:
            fut.set_exception(e)  # like the real one: the result carries the error
            return fut
        self.queue.append((blob, fut))
        if self.idle:
            s.wake(self.idle.pop(0))
        elif len(self.workers) < self.n:
            self.workers.append(s.spawn(f"executor-{len(self.workers)}", self._worker, thread=self.threads))
            started(s)
        s.point("task.put")
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]

        def g():
            for f in fs:
                yield f.result(timeout)

        return g()

    def shutdown(self, wait=True, *, cancel_futures=False):
        s = self.sim
        if s.killing or not s.active:
            return
        self.down = True
        if cancel_futures:
            for _, f in self.queue:
                f.cancel()
        w, self.idle = self.idle, []
        for p in w:
            s.wake(p)
        if wait:
            s.point("pool.join")
            for p in self.workers:
                s.wait_exit(p)


class SimThreadExecutor(SimExecutor):
    threads = True


def _executor(real, sim):
    class E(real):
        def __new__(cls, *a, **k):
            if here() is not None:
                return sim(*a, **k)
            return real(*a, **k)

    E.__name__ = real.__name__
    return E


def _as_completed(real):
    def f(fs, timeout=None):
        fs = list(fs)
        s = here()
        if s is None or not all(isinstance(x, SimFuture) for x in fs):
            yield from real(fs, timeout)
            return
        left = list(dict.fromkeys(fs))
        while left:
            d = [x for x in left if x.done()]
            if not d:
                for x in left:
                    x._w.append(s.cur)
                s.block(("futures", None))
                continue
            left.remove(d[0])
            yield d[0]

    return f


def _cf_wait(real):
    def f(fs, timeout=None, return_when=CF.ALL_COMPLETED):
        fs = set(fs)
        s = here()
        if s is None or not all(isinstance(x, SimFuture) for x in fs):
            return real(fs, timeout, return_when)
        while True:
            d = {x for x in fs if x.done()}
            bad = any(x.exception(0) for x in d if not x.cancelled())
            if len(d) == len(fs) or (return_when == CF.FIRST_COMPLETED and d) or (return_when == CF.FIRST_EXCEPTION and bad):
                return CF._base.DoneAndNotDoneFutures(d, fs - d)
            if timeout is not None:
                if timeout <= 0:
                    return CF._base.DoneAndNotDoneFutures(d, fs - d)
                timeout = s.nap(timeout)
                continue
            for x in fs - d:
                x._w.append(s.cur)
            s.block(("futures", None))

    return f


# ---------------------------------------------------------------- locks on files
def _flock(real):
    def f(fd, op, *a):
        s = here()
        if s is None:
            return real(fd, op, *a)
        s.point("flock", op)
        if not op & fcntl.LOCK_UN:
            n = fd if isinstance(fd, int) else fd.fileno()
            who = os.fstat(n)

            def drop():
                try:
                    st = os.fstat(n)
                    if (st.st_dev, st.st_ino) == (who.st_dev, who.st_ino):
                        fcntl_real(n, fcntl.LOCK_UN)
                except (OSError, ValueError):
                    pass

            s.at_exit.append((s.cur.leader, drop))
        try:
            return fcntl_real(fd, op | fcntl.LOCK_NB)
        except BlockingIOError:
            if op & fcntl.LOCK_NB:
                raise
        s.probe("flock_contended")

        def go():
            try:
                fcntl_real(fd, op | fcntl.LOCK_NB)
                return True
            except BlockingIOError:
                return False
            except (OSError, ValueError):
                return True

        s.pollers.append((s.cur, go))
        s.block(("flock", None))

    return f


fcntl_real = fcntl.flock


class _Me:
    """multiprocessing.current_process() inside the simulation"""

    def __init__(self, p, real):
        self._p, self._real = p, real
        i = p.leader.pid
        self.name = "MainProcess" if i == 0 else p.leader.name
        self.pid = self.ident = PID0 + i
        self._identity = () if i == 0 else (i,)
        self.daemon = i != 0
        self.exitcode = None

    def is_alive(self):
        return True

    def __getattr__(self, k):
        return getattr(self._real, k)


def install(REAL):
    mp = multiprocessing
    simple = {"Event": SimEvent, "Semaphore": SimSemaphore, "BoundedSemaphore": SimSemaphore, "Barrier": SimBarrier, "Condition": SimCondition, "Queue": SimQueue,
              "JoinableQueue": SimQueue, "SimpleQueue": SimQueue, "Pipe": sim_pipe, "Value": SimValue, "Array": SimArray, "RawValue": SimValue, "RawArray": SimArray}

    def pick(real, sim):
        return lambda *a, **k: sim(*a, **k) if here() is not None else real(*a, **k)

    for n, c in simple.items():
        REAL[n] = getattr(mp, n)
        setattr(mp, n, pick(REAL[n], c))
    mp.Manager = pick(REAL["Manager"], SimManager)

    # locks made at import, before any simulation, take part in those that follow
    def lock(real, cls):
        return lambda *a, **k: cls() if here() is not None or from_sut() else real(*a, **k)

    mp.Lock, mp.RLock = lock(REAL["Lock"], SimLock), lock(REAL["RLock"], SimRLock)
    rl, rrl = threading.Lock, threading.RLock
    threading.Lock = lambda *a: ThreadLock() if from_sut() else rl(*a)
    threading.RLock = lambda *a: ThreadRLock() if from_sut() else rrl(*a)
    for n, c in (("Event", SimEvent), ("Semaphore", SimSemaphore), ("BoundedSemaphore", SimSemaphore), ("Barrier", SimBarrier), ("Condition", SimCondition)):
        real = getattr(threading, n)

        def make(real=real, c=c):
            class T(real):
                def __new__(cls, *a, **k):
                    if cls is T and from_sut():
                        return c(*a, **k)
                    return super().__new__(cls)

            T.__name__ = real.__name__
            return T

        setattr(threading, n, make())
    rq = queue.Queue

    class Queue(rq):
        def __new__(cls, *a, **k):
            if cls is Queue and from_sut():
                return SimPlainQueue(*a, **k)
            return super().__new__(cls)

    queue.Queue = Queue
    mp.Process = SimProcess
    threading.Thread = SimThread
    mp.pool.ThreadPool = _tp(mp.pool.ThreadPool)
    CF.ProcessPoolExecutor = CF.process.ProcessPoolExecutor = _executor(CF.process.ProcessPoolExecutor, SimExecutor)
    CF.ThreadPoolExecutor = CF.thread.ThreadPoolExecutor = _executor(CF.thread.ThreadPoolExecutor, SimThreadExecutor)
    CF.as_completed = CF._base.as_completed = _as_completed(CF.as_completed)
    CF.wait = CF._base.wait = _cf_wait(CF.wait)
    fcntl.flock, fcntl.lockf = _flock(fcntl.flock), _flock(fcntl.lockf)
    rgp, rcp, rac, rpp = os.getpid, mp.current_process, mp.active_children, mp.parent_process

    def getpid():
        s = here()
        return rgp() if s is None or not from_sut() else PID0 + s.cur.leader.pid

    def current_process():
        s = here()
        return rcp() if s is None or not from_sut() else _Me(s.cur, rcp())

    def active_children():
        s = here()
        return rac() if s is None else [p.owner for p in alive_children(s) if p.owner is not None]

    def parent_process():
        s = here()
        return rpp() if s is None or s.cur.leader is s.main else _Me(s.main, rcp())

    def set_start_method(method, force=False):
        if here() is None:
            return REAL["set_start_method"](method, force)

    REAL["set_start_method"] = mp.set_start_method
    mp.set_start_method = set_start_method
    os.getpid, mp.current_process, mp.active_children, mp.parent_process = getpid, current_process, active_children, parent_process
    real_exit = os._exit

    def _exit(code):
        s = here()
        if s is None:
            real_exit(code)
        raise SystemExit(code)

    os._exit = _exit
    rf = os.fork

    def fork():
        if here() is not None:
            raise HarnessError("os.fork is not simulated")
        return rf()

    os.fork = fork


def _tp(real):
    class ThreadPool(real):
        def __new__(cls, *a, **k):
            if here() is not None:
                return SimThreadPool(*a, **k)
            return real(*a, **k)

    return ThreadPool
