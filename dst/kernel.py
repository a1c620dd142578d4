"""Deterministic simulation kernel.

One simulated machine inside one OS process.  Simulated processes (the main
program and the workers of a simulated multiprocessing.Pool) are parked threads
of which exactly one runs at a time; which one continues at each seam event is
decided by a scheduler driven by a single PRNG (or by a recorded choice list on
replay).  All seam events are numbered and logged; nothing reads a real clock
or draws from the PRNG for logging.
"""

import hashlib
import io
import os
import pickle
import random
import sys
import threading
import types

RealThread = threading.Thread



class Violation(BaseException):
    """a property is broken; tag = violation class (kept while minimising).
    Not an Exception: code under test must not be able to swallow it."""

    def __init__(self, tag, msg):
        super().__init__(f"{tag}: {msg}")
        self.tag, self.msg = tag, msg


class HarnessError(BaseException):
    """the machinery is at fault or cannot decide: never reported as violation"""


class SimKilled(BaseException):
    """thrown into parked threads when the simulated machine goes away"""


class SimCrash(BaseException):
    """the simulated program is killed at this event (nothing after it is durable)"""


class SimDeadlock(BaseException):
    """no simulated process can continue"""


class SimStepLimit(BaseException):
    """more seam events than any legitimate execution of this plan needs"""


NEW, READY, BLOCKED, DONE = "new", "ready", "blocked", "done"


class Proc:
    def __init__(self, pid, name):
        self.pid, self.name = pid, name
        self.state = READY
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.ctx = {}
        self.wait = None
        self.exc = None  # exception to raise in this process when it is next scheduled
        self.prio = 0.0
        self.leader = self  # the process; for a thread, the one it belongs to
        self.daemon = True
        self.died = None
        self.owner = None  # what represents it to the program


class Choices:
    """source of all decisions of one run: seeded PRNG, or a recorded list"""

    def __init__(self, rng=None, recorded=None):
        self.rng, self.recorded = rng, recorded
        self.log = []
        self.pos = 0

    def pick(self, n, default=0, gen=None):
        """an integer in [0, n)"""
        if n <= 1:
            return 0
        if self.recorded is not None:
            v = self.recorded[self.pos] if self.pos < len(self.recorded) else default
            self.pos += 1
            v = v % n
        else:
            v = gen(self.rng, n) if gen else self.rng.randrange(n)
        self.log.append(v)
        return v


class Sim:
    current_sim = None

    def __init__(self, seed=0, policy="random", recorded=None, max_steps=200000, faults=(), clock0=1.7e9):
        self.rng = random.Random(f"sched-{seed}")
        self.entropy = random.Random(f"entropy-{seed}")
        self.seed = seed
        self.policy = policy
        self.choices = Choices(self.rng, recorded)
        self.procs = []
        self.cur = None
        self.seq = 0
        self.max_steps = max_steps
        self.log = []  # (seq, pid, kind, info)
        self.counts = {}  # kind -> number of events
        self.now = clock0
        self.t0 = clock0
        self.mono = 0.0  # time that passed, whatever the clock says
        self.clock_rng = random.Random(f"clock-{seed}")
        self.clock_faults = False
        self.faults = [dict(f) for f in faults]
        self.fired = {}  # fault kind -> count
        self.fault_log = []
        self.crashed = False
        self.deadlocked = False
        self.muted = 0
        self.switches = 0
        self.preemptions = 0
        self.observers = []  # callables (sim, kind, info), no decisions allowed in there
        self.tracked = []
        self.at_exit = []  # (process, callable): what the system does when it ends
        self.pollers = []  # (process, callable: may it go on?)
        self.probes = {}
        self.out = io.StringIO()
        self.locks = 0
        self.active = False
        self.pct_points = None
        self.stay = 0.0

    # ---- life cycle ----
    def __enter__(self):
        assert Sim.current_sim is None
        Sim.current_sim = self
        self.main = Proc(0, "main")
        self.main.thread = threading.current_thread()
        self.procs.append(self.main)
        self.cur = self.main
        self._saved_out = (sys.stdout, sys.stderr)
        sys.stdout = sys.stderr = self.out
        self._init_policy()
        self.active = True
        return self

    def __exit__(self, *exc):
        try:
            if (exc[0] is None or issubclass(exc[0], Exception)) and not (self.crashed or self.deadlocked or self.seq > self.max_steps):
                # a program waits for what it left running before it ends
                for p in list(self.procs):
                    if not p.daemon and p is not self.main:
                        self.wait_exit(p)
        finally:
            self._end()
        return False

    def _end(self):
        self.active = False
        self.kill_all()
        sys.stdout, sys.stderr = self._saved_out
        Sim.current_sim = None

    def kill_all(self):
        self.killing = True
        for p in self.procs[1:]:
            if p.thread is not None and p.state != DONE:
                p.exc = SimKilled()
                self.cur = p
                p.sem.release()
                p.thread.join(20)
                if p.thread.is_alive():
                    raise HarnessError(f"simulated process {p.name} does not end")
        self.cur = self.main
        for _, f in self.at_exit:
            f()

    killing = False

    def _init_policy(self):
        r = self.rng
        if self.policy == "swarm":
            self.policy = r.choice(["random", "random", "sticky", "sticky", "pct", "starve", "rr"])
        self.stay = {"sticky": r.choice([0.7, 0.9, 0.97])}.get(self.policy, 0.0)
        if self.policy == "pct":
            self.pct_points = sorted(r.randrange(1, 1500) for _ in range(r.randrange(1, 6)))

    def trace_hash(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ---- clock ----
    def time(self):
        self.point("time", None, sched=False)
        return self.now

    def passes(self, t):
        self.now += t
        self.mono += t

    # ---- events ----
    def point(self, kind, info=None, sched=True):
        """a seam event: numbered, may fire a fault, may switch process"""
        if not self.active or self.muted or self.killing:
            return
        if threading.current_thread() is not self.cur.thread:
            return  # a helper thread of a library, not a simulated process
        if self.crashed:
            raise SimCrash()
        p = self.cur
        self.seq += 1
        n = self.counts[kind] = self.counts.get(kind, 0) + 1
        self.passes(0.001 * (1 + self.clock_rng.randrange(10)))
        if self.clock_faults and self.clock_rng.random() < 0.02:
            self.now += self.clock_rng.choice([-3600.0, 3600.0, 86400.0, -1.0])
            self.fire("clock_jump")
        self.log.append((self.seq, p.pid, kind, info))
        if self.seq > self.max_steps:
            raise SimStepLimit()
        for ob in self.observers:
            ob(self, kind, info)
        f = self._due(kind, n, info)
        if f is not None:
            self.apply_fault(f, kind, info)
        if sched:
            self.poll()
            self.maybe_switch(kind)

    def poll(self):
        """processes waiting for something only the real system knows about"""
        for e in list(self.pollers):
            if e[1]():
                self.pollers.remove(e)
                self.wake(e[0])

    def _due(self, kind, n, info):
        for f in self.faults:
            if f.get("done"):
                continue
            ev = f["ev"]
            if "pid" in f and f["pid"] != self.cur.pid:
                continue
            if ev == "any":
                if self.seq == f["n"]:
                    f["done"] = True
                    return f
            elif ev == kind or (ev.endswith("*") and kind.startswith(ev[:-1])):
                c = f["_c"] = f.get("_c", 0) + 1
                if f["n"] <= c < f["n"] + f.get("times", 1):
                    if c == f["n"] + f.get("times", 1) - 1:
                        f["done"] = True
                    return f
        return None

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def apply_fault(self, f, kind, info):
        what = f["do"]
        self.fire(what)
        self.log.append((self.seq, self.cur.pid, "FAULT", what))
        self.fault_log.append((self.seq, self.cur.pid, kind, what, f.get("id")))
        if what == "crash":
            self.crashed = True
            raise SimCrash()
        if what == "interrupt":
            raise KeyboardInterrupt()
        if what == "stall":
            # this process does not get on for a long time; the others do
            self.passes(f["s"])
            others = [p for p in self.ready() if p is not self.cur]
            if others:
                self._switch(self._choose(others, None))
            return
        if what == "memory":
            raise MemoryError("simulated allocation failure")
        if what in ERRNOS:
            no, text = ERRNOS[what]
            cls = {11: BlockingIOError, 13: PermissionError}.get(no, OSError)
            raise cls(no, text + (f" [fault-{f['id']}]" if "id" in f else ""))
        raise HarnessError(f"unknown fault {what}")

    # ---- scheduling ----
    def ready(self):
        return [p for p in self.procs if p.state == READY]

    def maybe_switch(self, kind):
        rd = self.ready()
        if len(rd) <= 1:
            return
        nxt = self._choose(rd, self.cur)
        if nxt is not self.cur:
            self.preemptions += 1
            self._switch(nxt)

    def _choose(self, rd, cur):
        rd = sorted(rd, key=lambda p: p.pid)
        if cur is not None and cur in rd:  # index 0 = stay
            rd.remove(cur)
            rd.insert(0, cur)
            can_stay = True
        else:
            can_stay = False
        pol = self.policy

        def gen(r, n):
            if pol == "fifo":
                return 0
            if pol == "rr":
                return 1 if can_stay and n > 1 else 0
            if pol == "sticky":
                return 0 if can_stay and r.random() < self.stay else r.randrange(n)
            if pol == "pct":
                while self.pct_points and self.seq >= self.pct_points[0]:
                    self.pct_points.pop(0)
                    rd[0].prio = -r.random()
                for p in rd:
                    if p.prio == 0.0:
                        p.prio = 1 + r.random()
                return max(range(n), key=lambda i: rd[i].prio)
            if pol == "starve":
                victim = self.seed % max(1, len(self.procs))
                idx = [i for i in range(n) if rd[i].pid != victim]
                if idx and r.random() < 0.98:
                    return r.choice(idx)
                return r.randrange(n)
            return r.randrange(n)

        return rd[self.choices.pick(len(rd), 0, gen)]

    def _save(self, p):
        p.ctx["std"] = (sys.stdout, sys.stderr)
        for t in self.tracked:
            p.ctx[t] = t.get()

    def _load(self, p):
        if "std" in p.ctx:
            sys.stdout, sys.stderr = p.ctx["std"]
        for t in self.tracked:
            if t in p.ctx:
                t.set(p.ctx[t])

    def fork_ctx(self, p):
        self._save(self.cur)
        p.ctx = dict(self.cur.ctx)
        for t in self.tracked:
            if hasattr(t, "fork"):
                p.ctx[t] = t.fork(p.ctx[t])

    def _switch(self, nxt, leave=False):
        """hand the baton to nxt; if not leave, park until it comes back"""
        me = self.cur
        self.switches += 1
        if me.ctx is not nxt.ctx:
            self._save(me)
            self._load(nxt)
        self.cur = nxt
        nxt.sem.release()
        if leave:
            return
        me.sem.acquire()
        self._wake(me)

    def _wake(self, me):
        if me.exc is not None:
            e, me.exc = me.exc, None
            raise e
        if self.crashed:
            raise SimCrash()

    def block(self, why):
        """the current process cannot continue until wake() on it"""
        me = self.cur
        me.state, me.wait = BLOCKED, why
        self.poll()
        rd = self.ready()
        if not rd:
            self._deadlock(me)
            return
        self._switch(self._choose(rd, None))

    def _deadlock(self, me):
        self.deadlocked = True
        self.log.append((self.seq, me.pid, "DEADLOCK", [(p.pid, p.wait) for p in self.procs if p.state == BLOCKED]))
        self.main.state = READY
        if me is self.main:
            raise SimDeadlock(str([(p.name, p.wait) for p in self.procs if p.state == BLOCKED]))
        self.main.exc = SimDeadlock(str([(p.name, p.wait) for p in self.procs if p.state == BLOCKED]))
        self._switch(self.main)

    def wake(self, p):
        if p.state == BLOCKED:
            p.state, p.wait = READY, None

    def spawn(self, name, fn, thread=False, daemon=True):
        p = Proc(len(self.procs), name)
        p.daemon = daemon
        if thread:
            p.leader, p.ctx = self.cur.leader, self.cur.ctx
        else:
            self.fork_ctx(p)
        self.procs.append(p)
        sim = self

        def body():
            p.sem.acquire()
            err = None
            try:
                sim._wake(p)
                fn()
            except SimKilled:
                p.state = DONE
                return
            except BaseException as e:  # noqa
                err = e
            p.state = DONE
            if sim.killing:
                return
            sim.ended(p)
            if isinstance(err, (SimCrash, SimStepLimit, SimDeadlock, Violation, HarnessError)):
                # the whole simulated machine ends here
                sim.main.state = READY
                if sim.main.exc is None:
                    sim.main.exc = err
                try:
                    sim._switch(sim.main, leave=True)
                except BaseException as e2:  # pragma: no cover
                    sim.main.exc = e2
                return
            if err is not None:
                p.died = err
            for w in [q for q in sim.procs if q.state == BLOCKED and q.wait == ("exit", p.pid)]:
                sim.wake(w)
            rd = sim.ready()
            if rd:
                sim._switch(sim._choose(rd, None), leave=True)
            else:
                sim.deadlocked = True
                sim.main.state = READY
                sim.main.exc = SimDeadlock(f"{p.name} ended, nobody can continue")
                sim._switch(sim.main, leave=True)

        p.thread = RealThread(target=body, daemon=True, name=name)
        p.thread.start()
        return p

    def ended(self, p):
        for q, f in self.at_exit:
            if q is p:
                f()
        self.at_exit = [e for e in self.at_exit if e[0] is not p]
        self.poll()

    def wait_exit(self, p, timeout=None):
        while p.state != DONE:
            if timeout is not None:
                if timeout <= 0:
                    return False
                timeout = self.nap(timeout)
                continue
            self.block(("exit", p.pid))
        return True

    def nap(self, timeout):
        """some of a timed wait goes by while others work; returns what is left"""
        until = self.mono + timeout
        self.passes(min(1, timeout))
        self.point("nap", None, sched=False)
        others = [p for p in self.ready() if p is not self.cur]
        if not others:
            self.passes(max(0, until - self.mono))
            return 0
        self._switch(self._choose(others, None))
        return until - self.mono

    def kill(self, p):
        """SIGTERM to another simulated process: whatever it was doing ends here"""
        if p.state == DONE or p is self.cur:
            return
        for q in [q for q in self.procs if q.leader is p and q.state != DONE]:
            q.exc = SimKilled()
            self.disk_forget(p)
            q.state = READY
            me = self.cur
            self._save(me)
            self._load(q)
            k0, self.killing = self.killing, True
            self.cur = q
            q.sem.release()
            q.thread.join(20)
            self.killing = k0
            self.cur = me
            self._load(me)
            q.state = DONE
        self.ended(p)
        for w in [q for q in self.procs if q.state == BLOCKED and q.wait == ("exit", p.pid)]:
            self.wake(w)


ERRNOS = {
    "EAGAIN": (11, "Unable to synchronously open file (unable to lock file, errno = 11, error message = 'Resource temporarily unavailable')"),
    "EACCES": (13, "Unable to synchronously open file (unable to open file: errno = 13, error message = 'Permission denied')"),
    "EIO": (5, "Unable to synchronously open file (unable to open file: errno = 5, error message = 'Input/output error')"),
    "EMFILE": (24, "Unable to synchronously open file (unable to open file: errno = 24, error message = 'Too many open files')"),
    "ENOSPC": (28, "Unable to synchronously create file (errno = 28, error message = 'No space left on device')"),
}


# --------------------------------------------------------------------------
# simulated multiprocessing
# --------------------------------------------------------------------------
class SimLock:
    """lock between simulated processes; one made before the program start (at
    import) belongs to whichever simulated machine is running"""

    reentrant = False
    sim = None

    def __init__(self, *a, **k):
        self._bind()

    def _bind(self):
        s = Sim.current_sim
        if s is not self.sim or s is None:
            self.sim = s
            self.owner, self.count, self.waiters = None, 0, []
            self.n = 0
            if s is not None:
                s.locks += 1
                self.n = s.locks
        return s

    def acquire(self, block=True, timeout=None):
        s = self._bind()
        if s is None or s.killing:
            return True
        if timeout is not None and timeout < 0:
            timeout = None
        s.point("lock.acquire", self.n)
        if self.reentrant and self.owner is s.cur:
            self.count += 1
            return True
        while self.owner is not None:
            if not block or timeout is not None:
                # a timed wait: give others one chance, then time out
                if not block or timeout <= 0:
                    return False
                until = s.mono + timeout
                s.passes(min(1, timeout))
                s.probe("lock_timed_wait")
                others = [p for p in s.ready() if p is not s.cur]
                if others:
                    s._switch(s._choose(others, None))
                timeout = until - s.mono
                continue
            s.probe("lock_contended")
            self.waiters.append(s.cur)
            s.block(("lock", self.n))
        self.owner, self.count = s.cur, 1
        return True

    def release(self):
        s = self._bind()
        if s is None or s.killing or s.crashed:
            return
        if self.owner is None:
            raise ValueError("semaphore or lock released too many times")
        if self.reentrant and self.owner is not s.cur:
            raise AssertionError("attempt to release recursive lock not owned by thread")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            ws, self.waiters = self.waiters, []
            for w in ws:
                s.wake(w)
        s.point("lock.release", self.n)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def __reduce__(self):
        raise RuntimeError(
            "Lock objects should only be shared between processes through inheritance"
        )


class SimRLock(SimLock):
    reentrant = True


class RemoteTraceback(Exception):
    pass


class SimAsyncResult:
    def __init__(self, pool, n, single=False, callback=None, error_callback=None):
        self.pool, self.left, self.single = pool, n, single
        self.chunks = [None] * n
        self.success, self.exc = True, None
        self.callback, self.error_callback = callback, error_callback
        self.arrived = []
        self.waiter = None

    def ready(self):
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError("not ready")
        return self.success

    def _set(self, i, ok, val):
        s = self.pool.sim
        if ok:
            self.chunks[i] = val
        elif self.success:
            self.success, self.exc = False, val
        self.arrived.append((i, ok, val))
        self.left -= 1
        if self.left == 0:
            if self.success and self.callback:
                self.callback(self._value())
            if not self.success and self.error_callback:
                self.error_callback(self.exc)
        if self.waiter is not None:
            s.wake(self.waiter)

    def _value(self):
        if self.single:
            return self.chunks[0][0]
        return [x for c in self.chunks for x in c]

    def wait(self, timeout=None):
        s = self.pool.sim
        s.point("pool.wait")
        while self.left:
            if timeout is not None:
                if timeout <= 0:
                    return
                timeout = s.nap(timeout)
                continue
            self.waiter = s.cur
            s.block(("result", None))
        self.waiter = None

    def get(self, timeout=None):
        self.wait(timeout)
        if self.left:
            import multiprocessing

            raise multiprocessing.TimeoutError
        if self.success:
            return self._value()
        raise self.exc


class SimPool:
    threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = self.sim = Sim.current_sim
        if s is None or not s.active:
            raise HarnessError("Pool outside a simulation")
        if processes is None:
            processes = s.cpu_count
        processes = int(processes)
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = processes
        self.queue = []
        self.idle = []
        self.closed = self.terminated = False
        self.initializer, self.initargs = initializer, initargs
        self.workers = []
        s.max_workers = max(getattr(s, "max_workers", 0), processes)
        s.pools = getattr(s, "pools", 0) + 1
        s.point("pool.create", processes, sched=False)
        for i in range(processes):
            self.workers.append(s.spawn(f"{'Thread' if self.threads else 'ForkPoolWorker'}-{i + 1}", self._worker, thread=self.threads))
        s.point("pool.started")

    # worker process body
    def _worker(self):
        s = self.sim
        me = s.cur
        s.point("worker.start", me.pid)
        if self.initializer is not None:
            self.initializer(*(self.initargs if self.threads else fork_copy(self.initargs)))
        while True:
            while not self.queue:
                if self.closed or self.terminated:
                    s.point("worker.exit", me.pid, sched=False)
                    return
                self.idle.append(me)
                s.block(("task", None))
            blob, res, i, star = self.queue.pop(0)
            s.point("task.get", i)
            try:
                func, batch = blob if self.threads else pickle.loads(blob)
                if star == 2:
                    out = [func(*a, **k) for a, k in batch]
                elif star == 1:
                    out = [func(*a) for a in batch]
                else:
                    out = [func(a) for a in batch]
                try:
                    val, ok = out if self.threads else pickle.loads(pickle.dumps(out)), True
                except Exception as e:
                    val, ok = RuntimeError(f"MaybeEncodingError: {e}"), False
            except Exception as e:
                try:
                    e2 = pickle.loads(pickle.dumps(e))
                except Exception:
                    e2 = RuntimeError(f"{type(e).__name__}: {e}")
                val, ok = e2, False
                s.probe("worker_task_raised")
            s.point("task.done", i)
            res._set(i, ok, val)

    def _put(self, func, batches, star, res):
        s = self.sim
        if self.closed or self.terminated:
            raise ValueError("Pool not running")
        for i, b in enumerate(batches):
            self.queue.append(((func, b) if self.threads else pickle.dumps((func, b)), res, i, star))
        ws, self.idle = self.idle, []
        for w in ws:
            s.wake(w)
        s.point("task.put", len(batches))

    def _batches(self, it, chunksize):
        it = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(it), self.n * 4)
            if extra:
                chunksize += 1
        if not it:
            return []
        chunksize = max(1, int(chunksize))
        return [tuple(it[i : i + chunksize]) for i in range(0, len(it), chunksize)]

    def _map(self, func, it, star, chunksize, cb=None, ecb=None):
        b = self._batches(it, chunksize)
        res = SimAsyncResult(self, len(b), callback=cb, error_callback=ecb)
        if b:
            self._put(func, b, star, res)
        return res

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, 0, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, 1, chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        res = SimAsyncResult(self, 1, True, callback, error_callback)
        self._put(func, [((tuple(args), dict(kwds)),)], 2, res)
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        res = self._map(func, iterable, 0, chunksize)

        def g():
            s, k = self.sim, 0
            while k < len(res.chunks):
                hit = [a for a in res.arrived if a[0] == k]
                if not hit:
                    res.waiter = s.cur
                    s.block(("result", None))
                    continue
                if not hit[0][1]:
                    raise hit[0][2]
                yield from hit[0][2]
                k += 1

        return g()

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self._map(func, iterable, 0, chunksize)

        def g():
            s, k = self.sim, 0
            while k < len(res.chunks):
                if k >= len(res.arrived):
                    res.waiter = s.cur
                    s.block(("result", None))
                    continue
                if not res.arrived[k][1]:
                    raise res.arrived[k][2]
                yield from res.arrived[k][2]
                k += 1

        return g()

    def close(self):
        self.closed = True
        ws, self.idle = self.idle, []
        for w in ws:
            self.sim.wake(w)
        self.sim.point("pool.close")

    def terminate(self):
        s = self.sim
        if s.killing or not s.active:
            return
        self.terminated = True
        self.queue.clear()
        s.point("pool.terminate")
        ws, self.idle = self.idle, []
        for w in ws:
            s.wake(w)
        for p in self.workers:  # SIGTERM: whatever they were doing ends here
            if p.state != DONE and p is not s.cur:
                if p.wait != ("task", None) and p.state == BLOCKED or p.state == READY:
                    s.probe("worker_terminated_busy")
                s.kill(p)

    def join(self):
        if not (self.closed or self.terminated):
            raise ValueError("Pool is still running")
        self.sim.point("pool.join")
        for w in self.workers:
            self.sim.wait_exit(w)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimThreadPool(SimPool):
    threads = True


class Shared:
    """objects which processes share: the same one after fork and pickling"""

    _reg = {}

    def __reduce__(self):
        Shared._reg[id(self)] = self
        return (_shared, (id(self),))


def _shared(i):
    return Shared._reg[i]


class _ForkPickler(pickle.Pickler):
    def persistent_id(self, o):
        if isinstance(o, (Shared, SimLock, types.ModuleType, types.FunctionType, type, io.IOBase, threading.Thread)):
            Shared._reg[id(o)] = o
            return id(o)
        return None


class _ForkUnpickler(pickle.Unpickler):
    def persistent_load(self, i):
        return Shared._reg[i]


def fork_copy(v):
    """what a forked process finds in place of v"""
    b = io.BytesIO()
    try:
        _ForkPickler(b).dump(v)
        b.seek(0)
        return _ForkUnpickler(b).load()
    except Exception:
        return v


class _Ctx:
    """what multiprocessing.get_context() gives inside the simulation"""

    def __init__(self, mp):
        self._mp = mp

    def __getattr__(self, k):
        return getattr(self._mp, k)

    def get_context(self, method=None):
        return self


class ModuleVars:
    """data attributes of the modules and classes of the system under test:
    per simulated process, as every real worker process has its own copy"""

    DATA_SKIP = (types.FunctionType, types.ModuleType, type, property, classmethod, staticmethod, types.BuiltinFunctionType,
                 types.MemberDescriptorType, types.GetSetDescriptorType)

    def __init__(self, prefix="mcsas3"):
        self.prefix = prefix
        self.holders = []
        for name, m in sorted(sys.modules.items()):
            if name == prefix or name.startswith(prefix + "."):
                self.holders.append(m)
                for c in list(vars(m).values()):
                    if isinstance(c, type) and getattr(c, "__module__", "").startswith(prefix) and c not in self.holders:
                        self.holders.append(c)

    def _data(self, h):
        return {
            k: v
            for k, v in list(vars(h).items())
            if not k.startswith("__") and not isinstance(v, self.DATA_SKIP)
        }

    def get(self):
        return [self._data(h) for h in self.holders]

    def set(self, snap):
        for h, d in zip(self.holders, snap):
            now = self._data(h)
            for k, v in d.items():
                if k not in now or now[k] is not v:
                    setattr(h, k, v)
            for k in now:
                if k not in d:
                    try:
                        delattr(h, k)
                    except AttributeError:
                        pass


class LegacyRng:
    """numpy's and python's process-wide generators: inherited by fork, then separate"""

    def get(self):
        import numpy as np

        return (np.random.get_state(), random.getstate())

    def set(self, v):
        import numpy as np

        np.random.set_state(v[0])
        random.setstate(v[1])
