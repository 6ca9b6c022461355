"""Deterministic simulation kernel.

Real OS threads are parked and released one at a time ("baton passing"): at any
moment exactly one simulated task runs.  Every decision about who runs next, how
long somebody is stalled and how far the virtual clock moves is taken by one
seeded pseudo-random generator (or read back from a replay file).  Time is
virtual: it moves only when nobody can run (to the next deadline) or when a task
is deliberately stalled.
"""

import _thread as _real_thread
import hashlib
import random

NS = 1_000_000_000


class SimKill(BaseException):
    """Raised inside parked tasks when a simulated run is over."""


class SimAbort(BaseException):
    """Raised in the driver: the run cannot continue (deadlock, step limit...)."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


CUR = None  # the active Kernel, if any


class Task:
    __slots__ = (
        "tid", "name", "sem", "state", "deadline", "wait_on", "timed_out",
        "fn", "sentinel", "exc", "kill", "os_ident", "where", "abort", "blocked_since",
        "daemon_sys",
    )

    def __init__(self, tid, name, fn=None):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.sem = _real_thread.allocate_lock()
        self.sem.acquire()
        self.state = "run"  # run | block | done
        self.deadline = None  # ns
        self.wait_on = None
        self.timed_out = False
        self.sentinel = None
        self.exc = None
        self.kill = False
        self.abort = None
        self.os_ident = None
        self.where = ""
        self.blocked_since = 0
        self.daemon_sys = False


class Decisions:
    """Source of all scheduling decisions: seeded search or replay."""

    def __init__(self, seed=None, replay=None, p_switch=0.1, p_stall=0.0,
                 stalls=(0.001, 0.05, 0.5, 3.0), p_pick=1.0):
        self.replay = None if replay is None else {int(k): v for k, v in replay.items()}
        self.rng = random.Random(seed)
        self.p_switch = p_switch
        self.p_stall = p_stall
        self.stalls = [int(s * NS) for s in stalls]
        self.p_pick = p_pick
        self.idx = 0
        self.log = {}
        self.stall_budget = 12

    def at_point(self, n_other, may_stall):
        """-> 0 continue; ('s', i) switch to i-th other; ('z', ns) stall self."""
        i = self.idx
        self.idx = i + 1
        if self.replay is not None:
            d = self.replay.get(i)
            if d is None:
                return None
            if d[0] == "s" and n_other == 0:
                return None
            if d[0] == "s":
                d = ["s", d[1] % n_other]
            self.log[i] = d
            return d
        r = self.rng.random()
        if r < self.p_switch:
            if n_other:
                d = ["s", self.rng.randrange(n_other)]
                self.log[i] = d
                return d
            return None
        if may_stall and r > 1.0 - self.p_stall and self.stall_budget > 0:
            self.stall_budget -= 1
            d = ["z", self.rng.choice(self.stalls)]
            self.log[i] = d
            return d
        return None

    def pick(self, n):
        """Current task blocked or ended: which of n runnable tasks goes on."""
        i = self.idx
        self.idx = i + 1
        if self.replay is not None:
            d = self.replay.get(i)
            if d is None or d[0] != "p":
                return 0
            c = d[1] % n
            if c:
                self.log[i] = ["p", c]
            return c
        if n == 1 or self.rng.random() >= self.p_pick:
            return 0
        c = self.rng.randrange(n)
        if c:
            self.log[i] = ["p", c]
        return c


class Kernel:
    def __init__(self, decisions, step_limit=200_000, time_limit=10_000.0,
                 wall_jumps=(), io=None, trace_limit=4000):
        self.dec = decisions
        self.now = 0
        self.tasks = []
        self.current = None
        self.steps = 0
        self.step_limit = step_limit
        self.time_limit = int(time_limit * NS)
        self.killing = False
        self.dead = False
        self.switches = 0
        self.stalls = 0
        self.timeouts = 0
        self.by_os = {}
        self.hash = hashlib.blake2b(digest_size=12)
        self.wall_jumps = sorted((int(t * NS), int(d * NS)) for t, d in wall_jumps)
        self.trace = []
        self.trace_limit = trace_limit
        self.thread_errors = []
        self.nopre = 0
        self.io = io
        self.next_tid = 1
        self.max_tasks = 0
        self.on_step = None

    # -- lifecycle ---------------------------------------------------------
    def __enter__(self):
        global CUR
        assert CUR is None
        CUR = self
        t = Task(self._tid(), "driver")
        t.os_ident = _real_thread.get_ident()
        self.by_os[t.os_ident] = t
        self.tasks.append(t)
        self.current = t
        return self

    def __exit__(self, et, ev, tb):
        global CUR
        try:
            self.kill_all()
        finally:
            self.dead = True
            CUR = None
        return False

    def _tid(self):
        t = self.next_tid
        self.next_tid += 1
        return t

    def me(self):
        return self.by_os.get(_real_thread.get_ident())

    # -- tasks -------------------------------------------------------------
    def spawn(self, fn, name=None):
        t = Task(self._tid(), name or "task", fn)
        self.tasks.append(t)
        self.max_tasks = max(self.max_tasks, sum(1 for x in self.tasks if x.state != "done"))
        started = _real_thread.allocate_lock()
        started.acquire()

        def boot():
            t.os_ident = _real_thread.get_ident()
            self.by_os[t.os_ident] = t
            started.release()
            t.sem.acquire()
            try:
                if not t.kill:
                    fn()
            except SimKill:
                pass
            except SimAbort as e:  # hand the abort to the driver
                self._abort_driver(e)
            except BaseException as e:  # noqa: BLE001
                t.exc = e
                self.thread_errors.append((t.name, repr(e)))
            finally:
                self._finish(t)

        _real_thread.start_new_thread(boot, ())
        started.acquire()
        self._note("spawn", t.tid)
        return t

    def _abort_driver(self, e):
        d = self.tasks[0]
        if d.abort is None:
            d.abort = e
        d.state = "run"
        d.deadline = None
        if d.wait_on is not None:
            d.wait_on = None

    def _finish(self, t):
        t.state = "done"
        s = t.sentinel
        t.sentinel = None
        if s is not None:
            s._release_raw()
        self.by_os.pop(t.os_ident, None)
        self._note("exit", t.tid)
        if self.killing:
            self.tasks[0].sem.release()
            return
        try:
            nxt = self._next_runnable()
        except SimAbort as e:
            self._abort_driver(e)
            nxt = self.tasks[0]
        self.current = nxt
        nxt.sem.release()

    def kill_all(self):
        self.killing = True
        me = self.tasks[0]
        for t in list(self.tasks[1:]):
            if t.state != "done":
                t.kill = True
                self.current = t
                t.sem.release()
                me.sem.acquire()
        self.current = me

    # -- scheduling --------------------------------------------------------
    def _note(self, kind, *a):
        s = f"{kind}{a}"
        self.hash.update(s.encode())
        if len(self.trace) < self.trace_limit:
            self.trace.append((round(self.now / NS, 6), kind) + a)

    def _expire(self):
        for t in self.tasks:
            if t.state == "block" and t.deadline is not None and t.deadline <= self.now:
                t.state = "run"
                t.timed_out = True
                t.deadline = None
                self.timeouts += 1

    def runnable(self):
        return [t for t in self.tasks if t.state == "run"]

    def _next_runnable(self):
        """Pick the next task to run, moving the clock if nobody can run."""
        while True:
            r = self.runnable()
            if r:
                return r[self.dec.pick(len(r))] if len(r) > 1 else r[0]
            dl = [t.deadline for t in self.tasks if t.state == "block" and t.deadline is not None]
            if not dl:
                raise SimAbort("deadlock", self.describe())
            self.now = max(self.now, min(dl))
            if self.now > self.time_limit:
                raise SimAbort("time_limit", f"virtual time {self.now / NS:.1f}s; " + self.describe())
            self._expire()

    def describe(self):
        return "; ".join(
            f"{t.name}#{t.tid}:{t.state}@{t.where}" for t in self.tasks if t.state != "done"
        )

    def _switch_to(self, nxt, me):
        if nxt is me:
            return
        self.switches += 1
        self._note("sw", me.tid, nxt.tid, me.where)
        self.current = nxt
        nxt.sem.release()
        me.sem.acquire()
        self._resumed(me)

    def _resumed(self, me):
        if me.kill:
            raise SimKill()
        if me.abort is not None:
            e = me.abort
            me.abort = None
            raise e

    def step(self, me):
        self.steps += 1
        if self.steps > self.step_limit:
            e = SimAbort(
                "step_limit",
                f"{self.step_limit} steps at virtual {self.now / NS:.3f}s in {me.name}@{me.where}",
            )
            if me.tid == 1:
                raise e
            # hand it to the driver and park this task for good
            self._abort_driver(e)
            me.state = "block"
            me.deadline = None
            self._switch_to(self.tasks[0], me)

    def point(self, where=""):
        """A place where the scheduler may preempt the running task."""
        me = self.me()
        if me is None or self.killing or self.dead:
            if me is not None and self.killing:
                self.steps += 1
                if self.steps > self.step_limit * 3 and me.tid != 1:
                    raise SimKill()
            return
        if where:
            me.where = where
        self.step(me)
        if self.on_step is not None:
            self.on_step()
        if self.nopre:
            return
        tasks = self.tasks
        if len(tasks) == 1:
            # still count the decision point, so that indices are stable
            d = self.dec.at_point(0, True)
        else:
            others = [t for t in tasks if t.state == "run" and t is not me]
            d = self.dec.at_point(len(others), True)
        if d is None:
            return
        if d[0] == "s":
            self._switch_to(others[d[1]], me)
        elif d[0] == "z":
            self.stalls += 1
            self._note("stall", me.tid, d[1])
            self._block(me, None, self.now + d[1])

    def _block(self, me, wait_on, deadline):
        me.state = "block"
        me.wait_on = wait_on
        me.deadline = deadline
        me.timed_out = False
        me.blocked_since = self.now
        try:
            nxt = self._next_runnable()
        except SimAbort as e:
            me.state = "run"
            me.deadline = None
            me.wait_on = None
            if me.tid == 1:
                raise
            self._abort_driver(e)
            nxt = self.tasks[0]
            # park this task for good
            me.state = "block"
        self._switch_to(nxt, me)
        me.state = "run"
        me.deadline = None
        me.wait_on = None
        return not me.timed_out

    def sleep(self, seconds, where="sleep"):
        me = self.me()
        if me is None or self.killing or self.dead:
            return
        me.where = where
        self.step(me)
        ns = max(0, int(seconds * NS))
        self._block(me, None, self.now + ns)

    def wall(self):
        w = 1_700_000_000 * NS + self.now
        for t, d in self.wall_jumps:
            if t <= self.now:
                w += d
        return w

    def seconds(self):
        return self.now / NS


# ---------------------------------------------------------------------------
# Simulated _thread primitives
# ---------------------------------------------------------------------------

class SimLock:
    """Stands in for _thread.lock."""

    def __init__(self):
        self._locked = False
        self._waiters = []
        self._kern = None

    def _fresh(self):
        # locks that outlive a run (module level) start each run unlocked
        k = CUR
        if k is not self._kern:
            self._kern = k
            self._locked = False if k is not None else self._locked
            self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = CUR
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout is not None and timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        me = k.me() if k is not None else None
        if me is None or k.killing or k.dead:
            if self._locked and not blocking:
                return False
            self._locked = True
            return True
        self._fresh()
        k.point("acquire")
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        # rounded up, so that a timed wait never ends before its float deadline
        deadline = None if timeout == -1 else k.now + int(timeout * NS) + 2
        while True:
            self._waiters.append(me)
            me.where = "acquire"
            ok = k._block(me, self, deadline)
            if me in self._waiters:
                self._waiters.remove(me)
            if not self._locked:
                self._locked = True
                return True
            if not ok or (deadline is not None and k.now >= deadline):
                return False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _release_raw(self):
        self._locked = False
        k = CUR
        for t in self._waiters:
            if t.state == "block" and t.wait_on is self:
                t.state = "run"
                t.deadline = None
                t.timed_out = False
        self._waiters = []

    def release(self):
        k = CUR
        me = k.me() if k is not None else None
        if me is None or k.killing or k.dead:
            self._locked = False
            return
        self._fresh()
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._release_raw()
        k.point("release")

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []


class SimRLock:
    """Stands in for _thread.RLock."""

    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        i = get_ident()
        if self._owner == i and self._count > 0:
            self._count += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._owner = i
            self._count = 1
        return r

    __enter__ = acquire

    def release(self):
        if self._owner != get_ident():
            k = CUR
            if k is not None and not k.killing:
                raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0
            self._b.release()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == get_ident()

    def _acquire_restore(self, state):
        self._b.acquire()
        self._count, self._owner = state

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._b.release()
        return st

    def _recursion_count(self):
        return self._count if self._owner == get_ident() else 0

    def _at_fork_reinit(self):
        self.__init__()


def get_ident():
    k = CUR
    if k is not None:
        t = k.me()
        if t is not None:
            return t.tid
    return 1


def start_new_thread(function, args, kwargs=None):
    k = CUR
    if k is None:
        raise RuntimeError("simulated thread started outside a simulation")
    if k.me() is None or k.killing:
        raise RuntimeError("can't start new thread")
    t = k.spawn(lambda: function(*args, **(kwargs or {})), name="thread")
    k.point("thread_start")
    return t.tid


def _set_sentinel():
    lk = SimLock()
    k = CUR
    t = k.me() if k is not None else None
    if t is not None:
        lk._kern = k
        if t.tid != 1:
            t.sentinel = lk
    return lk
