"""Deterministic simulator: real OS threads, one baton, every scheduling decision ours.

`install()` must run before concurrent.futures, numpy, pandas or the code under
test is imported.  It replaces the primitives through which Python code meets
nondeterminism (locks, thread start, joins, clocks, entropy, core count, string
hashing, uninitialised memory) by versions which, while a `Sim` is running,
are decided by the simulator and otherwise behave as usual.

Only the task holding the baton executes.  A task gives the baton away at a
*point*: before every line and every call of the code under test (delivered by
sys.monitoring), at every lock operation, at clock reads and sleeps, when it
blocks and when it ends.  The scheduler decides at each point, from one seeded
PRNG (record mode) or from an explicit list of switches (replay mode).
"""
import _thread
import builtins
import os
import random as _random
import sys
import threading
import time as _time

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident
real_perf_counter = _time.perf_counter
real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep
real_hash = builtins.hash
real_urandom = os.urandom

SIM = None  # the running simulation, if any


class SimKill(BaseException):
    """Unwinds a task at the end of a simulation (or of a simulated process)."""


class ProcessCrash(BaseException):
    """The simulated process dies here; only durable state survives."""


def injected(**bases):
    """Exceptions to inject: a class of its own below each given one, so that a handler for real errors of that kind
    takes them, and checks can tell them from real ones."""
    return {k: type("Injected" + b.__name__, (b,), {}) for k, b in bases.items()}


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class Node:
    """A simulated machine/process: what differs between two of them."""

    def __init__(self, sim, name, cpu, salt):
        self.sim = sim
        self.name = name
        self.cpu = cpu
        self.salt = salt
        self.skew = 0.0
        self.wall = 0.0  # of the calendar clock only
        self.pid = 1000 + len(sim.nodes) % 5
        self.rng_state = None  # saved numpy global state while not running
        self.entropy = _random.Random(f"entropy/{sim.entropy_seed}/{name}/{len(sim.nodes)}")
        self.legacy_seed = self.entropy.getrandbits(32)


class Task:
    def __init__(self, sim, tid, name, node):
        self.sim = sim
        self.id = tid
        self.name = name
        self.node = node
        self.sem = _real_alloc()
        self.sem.acquire()
        self.state = "ready"  # ready | blocked | done
        self.wait_on = None
        self.deadline = None
        self.timed_out = False
        self.ident = None
        self.kill = False
        self.result = None
        self.exc = None
        self.steps = 0
        self.harness = False
        self.where = None
        self.parent = None


def _forget():
    """An exception raised at a code point inside an exception handler stays with
    the thread, and what it holds would be destroyed, and its destructors run, when
    the thread has given the baton away.  Let them run now."""
    try:
        e, n = sys.exception(), 0
        while e is not None and n < 20:
            tb, e.__traceback__ = e.__traceback__, None
            while tb is not None:
                try:
                    tb.tb_frame.clear()
                except RuntimeError:  # still running
                    pass
                tb = tb.tb_next
            e, n = e.__context__, n + 1
    except BaseException:  # noqa
        pass


class Injection:
    """Raise `exc` at the k-th point counted by this injection."""

    def __init__(self, k, exc, tasks=None, kinds=None, name=None):
        self.k = k
        self.exc = exc
        self.tasks = tasks
        self.kinds = kinds
        self.count = 0
        self.fired = None
        self.name = name or exc.__name__


class Stall(Injection):
    """The task does not go on for a (simulated) while."""

    def __init__(self, k, seconds, tasks=None):
        super().__init__(k, None, tasks, name="stall")
        self.seconds = seconds


class Sim:
    def __init__(self, sched=None, entropy_seed=0, max_steps=6000000, nodes=None):
        self.sched = sched or {"mode": "none"}
        self.entropy_seed = entropy_seed
        self.step = 0
        self.max_steps = max_steps
        self.now = 1000.0
        self.tasks = []
        self.current = None
        self.switches = []  # recorded
        self.trace = real_hash(())
        self.trace_items = []
        self.n_switch = 0
        self.nodes = []
        self.injections = []
        self.fault_counts = {}
        self.no_yield = 0
        self.main_sem = _real_alloc()
        self.main_sem.acquire()
        self.failure = None
        self.ending = False
        self.thread_fail = None  # callable(task_parent) -> bool
        self.thread_errors = []
        self.clock_jumps = {}
        self.started_threads = 0
        self.entropy_reads = 0
        self.ordered = 0
        self.by_ident = {}
        self.preempt = True
        self.next_deadline = None
        mode = self.sched.get("mode", "none")
        self.mode = mode
        self.replay = None
        self.srng = _random.Random(f"sched/{self.sched.get('seed', 0)}")
        if mode == "replay":
            self.replay = {s: t for s, t in self.sched.get("switches", [])}
        elif mode == "random":
            self.p = self.sched.get("p", 0.1)
        elif mode == "pct":
            d = self.sched.get("depth", 3)
            horizon = self.sched.get("horizon", 400)
            self.change = set(self.srng.randrange(1, horizon) for _ in range(d))
            self.prio = {}
        elif mode == "burst":
            self.burst_left = 0
            self.burst = self.sched.get("burst", 20)
        self.new_node("n0")

    # -- nodes -----------------------------------------------------------
    def new_node(self, name, cpu=8, salt=None):
        n = Node(self, name, cpu, salt if salt is not None else len(self.nodes) * 7919 + 13)
        self.nodes.append(n)
        return n

    def fault(self, name, n=1):
        self.fault_counts[name] = self.fault_counts.get(name, 0) + n

    # -- tasks -----------------------------------------------------------
    def _new_task(self, name, node):
        t = Task(self, len(self.tasks), name, node)
        t.parent = self.current
        self.tasks.append(t)
        return t

    def spawn(self, fn, *args, name="task", node=None, **kw):
        """Start a simulated task running fn; returns the Task."""
        t = self._new_task(name, node or (self.current.node if self.current else self.nodes[0]))

        def body():
            try:
                t.result = fn(*args, **kw)
            except BaseException as e:  # noqa
                t.exc = e

        self._launch(t, body)
        return t

    def _launch(self, t, body):
        def tramp():
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            t.sem.acquire()
            # the system reuses thread idents; threading must not know this one
            threading._active.pop(t.ident, None)
            try:
                if not t.kill:
                    body()
            except SimKill:
                pass
            finally:
                _forget()
                self._exit(t)

        _real_start(tramp, ())

    def _exit(self, t):
        t.state = "done"
        self.by_ident.pop(t.ident, None)
        self._wake(t)
        if self.ending:
            self.main_sem.release()
            return
        nxt = self._choose_forced(t)
        if nxt is None:
            self.main_sem.release()
            return
        self._transfer(t, nxt)
        nxt.sem.release()

    def _wake(self, obj):
        for o in self.tasks:
            if o.state == "blocked" and o.wait_on is obj:
                o.state = "ready"
                o.wait_on = None

    def _transfer(self, a, b):
        if a is not None and a.node is not b.node:
            self._swap_rng(a.node, b.node)
        self.current = b

    def _swap_rng(self, a, b):
        import numpy as np

        self.no_yield += 1
        try:
            a.rng_state = np.random.get_state()
            if b.rng_state is None:
                np.random.seed(b.legacy_seed)
            else:
                np.random.set_state(b.rng_state)
        finally:
            self.no_yield -= 1

    def move(self, node):
        """The current task continues on another node (restart of a process)."""
        a, self.current.node = self.current.node, node
        if a is not node:
            self._swap_rng(a, node)

    # -- scheduling --------------------------------------------------------
    def _ready(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _choose_forced(self, cur):
        """cur cannot continue: choose who runs next (None: nobody left)."""
        ready = self._ready()
        if not ready:
            timers = [t for t in self.tasks if t.state == "blocked" and t.deadline is not None]
            if timers:
                t = min(timers, key=lambda t: (t.deadline, t.id))
                self.now = max(self.now, t.deadline)
                t.state = "ready"
                t.wait_on = None
                t.timed_out = True
                ready = [t]
            else:
                if self.tasks[0].state != "done":
                    self._deadlock()
                return None
        self.step += 1
        if self.mode == "replay":
            tid = self.replay.get(self.step)
            for t in ready:
                if t.id == tid:
                    self._record(t)
                    return t
            return ready[0]
        if self.mode == "none" or len(ready) == 1:
            return ready[0]
        if self.mode == "pct":
            t = max(ready, key=self._prio)
        else:
            t = ready[self.srng.randrange(len(ready))]
        if t is not ready[0]:
            self._record(t)
        return t

    def _prio(self, t):
        p = self.prio.get(t.id)
        if p is None:
            p = self.prio[t.id] = self.srng.random() + 1
        return p

    def _record(self, t):
        self.switches.append([self.step, t.id])

    def _deadlock(self):
        blocked = [f"{t.id}:{t.name}@{t.where}" for t in self.tasks if t.state == "blocked"]
        if self.failure is None and not self.ending:
            self.failure = Violation("deadlock", "all tasks blocked: " + ", ".join(blocked))

    def _pick(self, cur):
        """Voluntary decision at a point."""
        mode = self.mode
        if mode == "none":
            return cur
        if mode == "replay":
            tid = self.replay.get(self.step)
            if tid is None or tid == cur.id:
                return cur
            t = self.tasks[tid] if tid < len(self.tasks) else None
            if t is None or t.state != "ready":
                return cur
            self._record(t)
            return t
        if mode == "random":
            if self.srng.random() >= self.p:
                return cur
            ready = self._ready()
            t = ready[self.srng.randrange(len(ready))]
        elif mode == "burst":
            if self.burst_left > 0:
                self.burst_left -= 1
                return cur
            self.burst_left = int(self.srng.expovariate(1.0 / self.burst))
            ready = self._ready()
            t = ready[self.srng.randrange(len(ready))]
        elif mode == "pct":
            if self.step in self.change:
                self.prio[cur.id] = self.srng.random() * 0.5
            ready = self._ready()
            t = max(ready, key=self._prio)
        else:
            return cur
        if t is not cur:
            self._record(t)
        return t

    def point(self, kind, where=None, cur=None):
        """A possible preemption/fault point of the current task."""
        if cur is None:
            cur = self.current
        if self.no_yield or cur.ident != _get_ident():
            return
        self.step += 1
        cur.steps += 1
        self.now += 1e-6
        if self.next_deadline is not None and self.now >= self.next_deadline:
            self._expire()
        if self.clock_jumps:
            j = self.clock_jumps.pop(self.step, None)
            if j is not None:
                self.now += j
                self.fault("clock-jump")
        if cur.kill or self.ending:
            if kind in ("line", "call"):
                raise SimKill()
            return
        if self.step > self.max_steps:
            if self.failure is None:
                self.failure = Violation("no-termination", f"more than {self.max_steps} steps; at {where}")
            raise SimKill()
        if self.injections and kind in ("line", "call"):
            for inj in self.injections:
                if inj.fired is None and (inj.tasks is None or inj.tasks(cur)):
                    if inj.kinds is not None and kind not in inj.kinds:
                        continue
                    inj.count += 1
                    if inj.count == inj.k:
                        inj.fired = where
                        if inj.exc is None:
                            inj.file = sys._getframe(2).f_code.co_filename
                            self.fault("stall")
                            self.block(inj, self.now + inj.seconds, "stall")
                            continue
                        self.fault("exception:" + inj.name)
                        raise inj.exc("injected")
        if self.preempt and len(self.tasks) > 1:
            nxt = self._pick(cur)
            if nxt is not cur:
                self.switch(cur, nxt, where)

    def _expire(self):
        """Wake the tasks whose timeout has passed."""
        nxt = None
        for t in self.tasks:
            if t.state == "blocked" and t.deadline is not None:
                if t.deadline <= self.now:
                    t.state = "ready"
                    t.wait_on = None
                    t.timed_out = True
                elif nxt is None or t.deadline < nxt:
                    nxt = t.deadline
        self.next_deadline = nxt

    def switch(self, cur, nxt, where):
        self.n_switch += 1
        cur.where = where
        self.trace_items.append((cur.id, nxt.id, where))
        self._transfer(cur, nxt)
        nxt.sem.release()
        cur.sem.acquire()
        if cur.kill:
            raise SimKill()

    def block(self, obj, deadline=None, where=None):
        """Block the current task on obj; returns False on timeout."""
        cur = self.current
        if self.ending or cur.kill:
            raise SimKill()
        cur.state = "blocked"
        cur.wait_on = obj
        cur.deadline = deadline
        if deadline is not None and (self.next_deadline is None or deadline < self.next_deadline):
            self.next_deadline = deadline
        cur.timed_out = False
        cur.where = where
        nxt = self._choose_forced(cur)
        if nxt is cur:
            cur.deadline = None
            return not cur.timed_out
        if nxt is None:
            self.main_sem.release()  # deadlock: let the main thread end the run
        else:
            self.trace_items.append((cur.id, nxt.id, where))
            self._transfer(cur, nxt)
            nxt.sem.release()
        cur.sem.acquire()
        cur.deadline = None
        if cur.kill:
            raise SimKill()
        return not cur.timed_out

    def join(self, *tasks):
        for t in tasks:
            while t.state != "done":
                self.block(t, where="join")

    def yield_until(self, pred, budget=2000):
        """Let other tasks run until pred() or nothing else can happen."""
        cur = self.current
        for _ in range(budget):
            if pred():
                return True
            others = [t for t in self._ready() if t is not cur]
            if not others:
                return pred()
            self.step += 1
            self.switch(cur, others[0], "yield_until")
        return pred()

    # -- running -----------------------------------------------------------
    def run(self, fn):
        """Run fn as the root task and return its result."""
        global SIM
        import numpy as np

        assert SIM is None
        saved = np.random.get_state()
        np.random.seed(self.nodes[0].legacy_seed)
        root = self.spawn(fn, name="root")
        root.harness = True
        SIM = self
        self.current = root
        try:
            root.sem.release()
            self.main_sem.acquire()
            # baton is back: everything done, deadlock, or root finished
            self.ending = True
            for t in self.tasks:
                if t.state != "done":
                    t.kill = True
                    self.current = t
                    t.state = "ready"
                    t.sem.release()
                    self.main_sem.acquire()
        finally:
            SIM = None
            np.random.set_state(saved)
        if self.failure is not None and not isinstance(root.exc, Violation):
            raise self.failure
        if root.exc is not None:
            raise root.exc
        return root.result


class SimLock:
    """Replacement for a plain lock.  Outside simulations there is only one
    thread, so it is just a flag there."""

    __slots__ = ("_locked", "__weakref__")

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None or sim.no_yield or sim.current is None or sim.current.ident != _get_ident():
            if self._locked:
                if not blocking or timeout == 0:
                    return False
                if sim is None:
                    raise RuntimeError("lock contention outside a simulation")
                raise RuntimeError("lock contention in scheduler")
            self._locked = True
            return True
        if not sim.ending:
            sim.point("lock", "lock")
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._locked:
            if not sim.block(self, deadline, "lock"):
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = SIM
        if sim is not None:
            sim._wake(self)

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


def _sim_start_new_thread(fn, args=(), kwargs=None):
    sim = SIM
    kwargs = kwargs or {}
    if sim is None:
        raise RuntimeError("thread started outside a simulation")
    sim.point("thread-start", "thread-start")
    if sim.thread_fail is not None and sim.thread_fail(sim.current):
        sim.fault("thread-start-failure")
        raise RuntimeError("can't start new thread")
    sim.started_threads += 1
    t = sim._new_task("thread", sim.current.node)
    sim._launch(t, lambda: fn(*args, **kwargs))
    import time

    while t.ident is None:  # real, bounded wait: the thread parks at once
        real_sleep(0.00001)
    return t.ident


# -- seams ---------------------------------------------------------------
def _perf_counter():
    sim = SIM
    if sim is None or sim.current is None:
        return real_perf_counter()
    sim.point("clock", "clock")
    return sim.now + sim.current.node.skew


def _wall_time():
    sim = SIM
    if sim is None or sim.current is None:
        return real_time()
    sim.point("clock", "clock")
    return 1.7e9 + sim.now + sim.current.node.skew + sim.current.node.wall


def _sleep(s):
    sim = SIM
    if sim is None:
        return real_sleep(s)
    cur = sim.current
    sim.block(("sleep", cur.id), deadline=sim.now + max(s, 0), where="sleep")


def _salted(x):
    if isinstance(x, (str, bytes)):
        return True
    return isinstance(x, (tuple, frozenset)) and any(_salted(y) for y in x)


def _hash(x):
    sim = SIM
    h = real_hash(x)
    if sim is None or sim.current is None:
        return h
    if isinstance(x, (tuple, frozenset)) and _salted(x):
        x = repr([_hash(y) for y in x])
    if isinstance(x, (str, bytes)):
        # stable base + the node's salt: what hash randomisation would give
        import zlib

        b = x.encode() if isinstance(x, str) else bytes(x)
        v = zlib.crc32(b) * 0x9E3779B97F4A7C15 ^ sim.current.node.salt * 0xC2B2AE3D27D4EB4F
        v &= (1 << 64) - 1
        v ^= v >> 29
        v = v * 0xBF58476D1CE4E5B9 & ((1 << 64) - 1)
        v -= 1 << 63
        return v if v != -1 else -2
    return h


def _urandom(n):
    sim = SIM
    if sim is None or sim.current is None:
        return real_urandom(n)
    sim.entropy_reads += 1
    return sim.current.node.entropy.randbytes(n)


real_getpid = os.getpid
real_id = id


def _getpid():
    sim = SIM
    if sim is None or sim.current is None:
        return real_getpid()
    return sim.current.node.pid


def _cpu_count():
    sim = SIM
    if sim is None or sim.current is None:
        return 8
    return sim.current.node.cpu


def _affinity(pid=0):
    return set(range(_cpu_count()))


def _order(o):
    """A seeded stand-in for the address of an object."""
    v = o.__dict__.get("_dst_order")
    if v is None:
        sim = SIM
        if sim is None:
            return real_id(o) >> 4
        sim.ordered += 1
        v = _random.Random(f"order/{sim.entropy_seed}/{sim.ordered}").getrandbits(44)
        o.__dict__["_dst_order"] = v
    return v


def install():
    import threading

    threading.Lock = threading._allocate_lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _sim_start_new_thread
    _time.perf_counter = _perf_counter
    _time.monotonic = _perf_counter
    _time.time = _wall_time
    _time.sleep = _sleep
    _time.perf_counter_ns = lambda: int(_perf_counter() * 1e9)
    _time.monotonic_ns = lambda: int(_perf_counter() * 1e9)
    _time.time_ns = lambda: int(_wall_time() * 1e9)
    _time.process_time = _perf_counter
    _time.thread_time = _perf_counter
    threading._time = _perf_counter
    builtins.hash = _hash
    os.urandom = _urandom
    os.getpid = _getpid
    os.cpu_count = _cpu_count
    os.sched_getaffinity = _affinity
    _random._urandom = _urandom

    orig_wait = threading.Thread._wait_for_tstate_lock

    def _wait(self, block=True, timeout=-1):
        sim = SIM
        if sim is not None:
            t = sim.by_ident.get(self.ident)
            if t is not None and t.state != "done":
                if not block:
                    return
                deadline = None if timeout is None or timeout < 0 else sim.now + timeout
                while t.state != "done":
                    if not sim.block(t, deadline, "join"):
                        return
            return orig_wait(self, True, -1)
        return orig_wait(self, block, timeout)

    threading.Thread._wait_for_tstate_lock = _wait

    def hook(args):
        sim = SIM
        if sim is not None:
            sim.thread_errors.append((args.exc_type, str(args.exc_value)))

    threading.excepthook = hook

    # sets of futures and threads, and the lock order inside wait(), follow
    # their addresses: put that order behind the seed as well
    import concurrent.futures._base as cfb

    cfb.Future.__hash__ = _order
    threading.Thread.__hash__ = _order
    cfb.id = _order

    import queue

    queue.SimpleQueue = queue._PySimpleQueue
    import logging

    logging.raiseExceptions = False
    logging.getLogger("concurrent.futures").disabled = True
    import concurrent.futures  # noqa
    import concurrent.futures.thread  # noqa
    import numpy as np

    real_empty, real_empty_like = np.empty, np.empty_like

    def poison(a):
        if SIM is not None and isinstance(a, np.ndarray) and a.dtype.kind in "fc":
            a.fill(np.nan)
        elif SIM is not None and isinstance(a, np.ndarray) and a.dtype.kind in "iu":
            a.fill(0x5A)
        return a

    def empty(*a, **k):
        return poison(real_empty(*a, **k))

    def empty_like(*a, **k):
        return poison(real_empty_like(*a, **k))

    np.empty = empty
    np.empty_like = empty_like


# -- monitoring ------------------------------------------------------------
TOOL = 3
_mon = sys.monitoring


def _on_line(code, line):
    sim = SIM
    if sim is not None and sim.current is not None:
        sim.point("line", (code.co_name, line))


def _on_call(code, offset, fn, arg0):
    sim = SIM
    if sim is not None and sim.current is not None:
        sim.point("call", (code.co_name, -offset))


def monitor_files(prefixes, calls=True):
    """Deliver line/call points for all functions defined under the prefixes."""
    import gc
    import types

    try:
        _mon.use_tool_id(TOOL, "dst")
        _mon.register_callback(TOOL, _mon.events.LINE, _on_line)
        _mon.register_callback(TOOL, _mon.events.CALL, _on_call)
    except ValueError:
        pass
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        _mon.set_local_events(TOOL, code, _mon.events.LINE | (_mon.events.CALL if calls else 0))
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(prefixes):
            walk(o.__code__)
    return len(seen)
