"""SimSched: one real thread per task, exactly one runs at a time, a seeded scheduler owns the baton.

Yield points are the line (or line, call and return) events of code under /repo/riptable, plus lock operations: every
lock riptable creates at import or later is a SimLock/SimRLock (see patch_locks), whose contended acquire
parks the task with the scheduler instead of the OS.  A schedule is a list of preemptions
[yield_point_number, task]; without preemptions a task runs until it finishes or blocks.
"""
import os
import sys
import threading
import _thread

_real_Lock = threading.Lock
_real_RLock = threading.RLock
_cur = threading.local()
REPO_PREFIX = os.path.realpath(os.environ.get("RTSIM_REPO", "/repo")) + os.sep + "riptable" + os.sep
_SKIP = (os.sep + "tests" + os.sep, os.sep + "benchmarks" + os.sep)


class _SimLockBase:
    _factory = None

    def __init__(self):
        self._real = self._factory()

    def acquire(self, blocking=True, timeout=-1):
        t = getattr(_cur, "task", None)
        if t is None:
            return self._real.acquire(blocking, timeout)
        s = t.sched
        while not self._real.acquire(False):
            if not blocking:
                return False
            s.lock_waits += 1
            s.block(t, self)
        s.lock_ops += 1
        return True

    def release(self):
        self._real.release()
        t = getattr(_cur, "task", None)
        if t is not None:
            t.sched.wake(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._real, n)


class SimLock(_SimLockBase):
    _factory = staticmethod(_real_Lock)

    def locked(self):
        return self._real.locked()


class SimRLock(_SimLockBase):
    _factory = staticmethod(_real_RLock)


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


def unpatch_locks():
    threading.Lock = _real_Lock
    threading.RLock = _real_RLock


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class _Abort(BaseException):
    pass


class Task:
    def __init__(self, sched, idx, fn):
        self.sched, self.idx, self.fn = sched, idx, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"  # ready | blocked | done
        self.waiting = None
        self.result = None
        self.steps = 0


class Sched:
    def __init__(self, fns, rng=None, p=0.05, preempt=None, gran="line", max_steps=400000, first=0, extra_files=(), on_step=None):
        self.tasks = [Task(self, i, f) for i, f in enumerate(fns)]
        self.rng, self.p = rng, p
        self.plan = {int(k): int(v) for k, v in preempt} if preempt is not None else None
        self.gran = gran
        self.max_steps = max_steps
        self.step = 0
        self.realised = []
        self.first = first
        self.lock_ops = self.lock_waits = 0
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.error = None
        self.extra = tuple(extra_files)
        self.on_step = on_step
        self.switch_sites = []
        self._filecache = {}

    # --- decisions -------------------------------------------------------------------------------------
    def _ready(self, exclude=None):
        return [t for t in self.tasks if t.state == "ready" and t is not exclude]

    def _point(self, me, where):
        if self.error is not None:
            raise _Abort()
        self.step += 1
        me.steps += 1
        if self.step > self.max_steps:
            self._fail(StepLimit("no progress within %d steps" % self.max_steps))
        if self.on_step is not None:
            self.on_step(self)
        nxt = None
        if self.plan is not None:
            k = self.plan.get(self.step)
            if k is not None and k < len(self.tasks) and self.tasks[k].state == "ready" and k != me.idx:
                nxt = self.tasks[k]
        elif self.rng is not None and self.rng.random() < self.p:
            o = self._ready(exclude=me)
            if o:
                nxt = self.rng.choice(o)
        if nxt is not None:
            self.realised.append([self.step, nxt.idx])
            self.switch_sites.append(where)
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        nxt.sem.release()
        me.sem.acquire()
        if self.error is not None:
            raise _Abort()

    def _fail(self, err):
        self.error = err
        for t in self.tasks:
            if t.state != "done" and t is not getattr(_cur, "task", None):
                try:
                    t.sem.release()
                except RuntimeError:
                    pass
        raise _Abort()

    def block(self, me, lock):
        me.state, me.waiting = "blocked", lock
        o = self._ready()
        if not o:
            self._fail(Deadlock("all tasks blocked"))
        nxt = self.rng.choice(o) if (self.plan is None and self.rng is not None) else o[0]
        if self.plan is not None:
            k = self.plan.get(-(self.lock_waits))
            if k is not None and k < len(self.tasks) and self.tasks[k] in o:
                nxt = self.tasks[k]
        self.realised.append([-(self.lock_waits), nxt.idx])
        self._switch(me, nxt)

    def wake(self, lock):
        for t in self.tasks:
            if t.state == "blocked" and t.waiting is lock:
                t.state, t.waiting = "ready", None

    # --- tracing ---------------------------------------------------------------------------------------
    def _want(self, fn):
        v = self._filecache.get(fn)
        if v is None:
            v = (fn.startswith(REPO_PREFIX) and not any(x in fn for x in _SKIP)) or fn in self.extra
            self._filecache[fn] = v
        return v

    def _tracer(self, me):
        # "call": also at entry to and return from every riptable function (so within a line that calls one)
        fine = self.gran in ("call", "opcode")

        def local(frame, event, arg):
            if event == "line" or (fine and event == "return"):
                self._point(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def glob(frame, event, arg):
            if self._want(frame.f_code.co_filename):
                if fine:
                    self._point(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                return local
            return None

        return glob

    def _boot(self, me):
        me.sem.acquire()
        _cur.task = me
        try:
            if self.error is None:
                tr = self._tracer(me)
                sys.settrace(tr)
                try:
                    v = me.fn()
                    sys.settrace(None)
                    me.result = ("ok", v)
                except _Abort:
                    me.result = ("abort", None)
                except BaseException as e:
                    sys.settrace(None)
                    me.result = ("exc", e)
                finally:
                    sys.settrace(None)
        finally:
            _cur.task = None
            me.state = "done"
            self._next_or_done()

    def _next_or_done(self):
        if self.error is not None:
            if all(t.state == "done" for t in self.tasks):
                self.done.release()
            return
        o = self._ready()
        if o:
            if self.plan is None and self.rng is not None:
                nxt = self.rng.choice(o)
            else:
                k = self.plan.get(10**9 + self.step) if self.plan is not None else None
                nxt = self.tasks[k] if (k is not None and k < len(self.tasks) and self.tasks[k] in o) else o[0]
            self.realised.append([10**9 + self.step, nxt.idx])
            nxt.sem.release()
        elif all(t.state == "done" for t in self.tasks):
            self.done.release()
        else:
            self.error = Deadlock("tasks left blocked: %s" % [t.idx for t in self.tasks if t.state == "blocked"])
            for t in self.tasks:
                if t.state != "done":
                    t.sem.release()

    def run(self):
        """Run all tasks to completion; returns their results in order.  Raises Deadlock/StepLimit."""
        ths = []
        for t in self.tasks:
            th = threading.Thread(target=self._boot, args=(t,), daemon=True)
            th.start()
            ths.append(th)
        self.tasks[self.first % len(self.tasks)].sem.release()
        self.done.acquire()
        for th in ths:
            th.join(10)
        if self.error is not None:
            raise self.error
        return [t.result for t in self.tasks]
