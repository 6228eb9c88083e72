"""A controlled scheduler for real Python threads, and exhaustive exploration of schedules up to a deviation bound.

One controlled thread runs at a time. A *scheduling point* is reached before every line (optionally: instruction) of the
instrumented modules, before and after every file operation of the interposed file layer, and after a thread is started;
blocking on a lock (directly or inside Condition, Event, Semaphore, Queue, Future, Thread.join) is a forced switch.
By default the running thread continues; a schedule is the sparse list of deviations [(point index, which other runnable
thread)]. All schedules with at most `bound` deviations are executed (delay-bounded exploration).

`install()` must run before sd_mecha is imported: locks made by sd_mecha, and everything created inside a controlled
execution, are cooperative; in threads that are not controlled they behave like ordinary locks.
"""
import gc
import itertools
import queue
import sys
import threading
import _thread
from .core import Inconclusive, CaseTimeout

_real_allocate = _thread.allocate_lock
_RealThread = threading.Thread
_real_SimpleQueue = queue.SimpleQueue
_installed = False
_tls = threading.local()
CURRENT = None  # the active Controller


class Abort(BaseException):
    """Unwinds a controlled thread when its execution is abandoned."""


class Deadlock(Exception):
    pass


class Divergence(Exception):
    pass


def _task():
    return getattr(_tls, "task", None)


def _from_sd_mecha():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        if f.f_globals.get("__name__", "").split(".")[0] == "sd_mecha":
            return True
        f = f.f_back
    return False


def _want_coop():
    return not getattr(_tls, "raw", False) and (_task() is not None or _from_sd_mecha())


class CoopLock:
    def __init__(self):
        self._real = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        task = _task()
        if task is None or CURRENT is None:
            return self._real.acquire(blocking, timeout)
        ctl = task.controller
        while not self._real.acquire(False):
            if not blocking or timeout == 0:
                return False
            if ctl.aborting:
                raise Abort()
            ctl.block(task, self, timed=timeout is not None and timeout > 0)
            if task.timed_out:
                task.timed_out = False
                if not self._real.acquire(False):
                    return False
                return True
        return True

    def release(self):
        task = _task()
        if task is not None and task.controller.aborting and not self._real.locked():
            return
        self._real.release()
        if CURRENT is not None:
            CURRENT.wake(self)

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_allocate()

    def __repr__(self):
        return f"<CoopLock {'locked' if self.locked() else 'unlocked'}>"


class CoopThread(_RealThread):
    def __init__(self, *a, **k):
        raw = getattr(_tls, "raw", False)
        _tls.raw = True
        try:
            super().__init__(*a, **k)
        finally:
            _tls.raw = raw

    def start(self):
        task = _task()
        if task is None or CURRENT is None:
            self._mc_task = None
            return _raw(super().start)
        new = CURRENT.register(self)
        self._mc_task = new
        self.daemon = True
        _raw(super().start)
        CURRENT.point("start")

    def run(self):
        task = getattr(self, "_mc_task", None)
        if task is None:
            return super().run()
        _tls.raw = False
        task.gate.acquire()
        _tls.task = task
        try:
            if not task.controller.aborting:
                super().run()
        except Abort:
            pass
        except BaseException as e:
            task.error = e
        finally:
            task.controller.exit(task)

    def join(self, timeout=None):
        me, target = _task(), getattr(self, "_mc_task", None)
        if me is not None and target is not None and CURRENT is not None:
            while not target.done:
                if me.controller.aborting:
                    raise Abort()
                me.controller.block(me, target)
            return
        return _raw(super().join, timeout)


def _raw(fn, *a):
    raw = getattr(_tls, "raw", False)
    _tls.raw = True
    try:
        return fn(*a)
    finally:
        _tls.raw = raw


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        return CoopLock() if _want_coop() else _real_allocate()

    def RLock(*a, **k):
        if _want_coop():
            r = threading._PyRLock()
            r._block = CoopLock()
            return r
        return real_rlock(*a, **k)

    def SimpleQueue():
        return queue._PySimpleQueue() if _want_coop() else _real_SimpleQueue()

    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading.RLock = RLock
    threading.Thread = CoopThread
    queue.SimpleQueue = SimpleQueue
    import concurrent.futures.thread as cft
    import concurrent.futures._base as cfb
    cft._global_shutdown_lock = CoopLock()
    counter = itertools.count()
    cfb.Future.__hash__ = lambda self: self.__dict__.setdefault("_mc_id", next(counter))
    cfb.Future.__eq__ = lambda self, other: self is other


# ------------------------------------------------------------------------------------------------ instrumentation
_TOOL = 4
_codes = []


def instrument(modules, only=None, instructions=False):
    """Make every line of the given modules' functions a scheduling point (all functions, or those in `only`)."""
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "mc")
    deinstrument()
    ev = mon.events.INSTRUCTION if instructions else mon.events.LINE
    mon.register_callback(_TOOL, mon.events.LINE, _on_event)
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_event)
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        if only is None or any(o in code.co_qualname for o in only):
            mon.set_local_events(_TOOL, code, ev)
            _codes.append(code)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c)

    for m in modules:
        file = m.__file__
        for obj in list(vars(m).values()):
            _walk_obj(obj, file, walk, set())


def _walk_obj(obj, file, walk, seen):
    if id(obj) in seen:
        return
    seen.add(id(obj))
    code = getattr(getattr(obj, "__wrapped__", obj), "__code__", None) or getattr(obj, "__code__", None)
    if code is not None and code.co_filename == file:
        walk(code)
    if isinstance(obj, type) and getattr(sys.modules.get(obj.__module__), "__file__", None) == file:
        for v in list(vars(obj).values()):
            for f in (v, getattr(v, "fget", None), getattr(v, "__func__", None)):
                if f is not None:
                    _walk_obj(f, file, walk, seen)


def deinstrument():
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        return
    for c in _codes:
        mon.set_local_events(_TOOL, c, 0)
    _codes.clear()


def _on_event(code, where):
    task = getattr(_tls, "task", None)
    if task is not None and CURRENT is not None and not task.nopoint:
        task.where = (code.co_name, where)
        CURRENT.point_of(task)


def point(label="io"):
    """An explicit scheduling point (used by the interposed file layer)."""
    task = getattr(_tls, "task", None)
    if task is not None and CURRENT is not None and not task.nopoint:
        task.where = (label, task.where[1])
        CURRENT.point_of(task)


class Task:
    def __init__(self, controller, tid, thread):
        self.controller, self.tid, self.thread = controller, tid, thread
        self.gate = _real_allocate()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.timed = False
        self.timed_out = False
        self.error = None
        self.nopoint = False
        self.where = ("start", 0)


class Controller:
    """One controlled execution."""

    def __init__(self, schedule, horizon=200_000):
        self.schedule = dict(schedule)
        self.horizon = horizon
        self.tasks = []
        self.runnable = []
        self.points = []       # number of alternatives at every point
        self.idx = 0
        self.aborting = False
        self.problem = None
        self.finished = _real_allocate()
        self.finished.acquire()
        self.states = set()

    def register(self, thread):
        t = Task(self, len(self.tasks), thread)
        self.tasks.append(t)
        return t

    # -- called by the running task only
    def enabled(self, task):
        others = [t for t in self.tasks if not t.done and t.waiting is None and t is not task]
        n = len(self.tasks)
        others.sort(key=lambda t: (t.tid - task.tid) % n)
        return others

    def point(self, label):
        task = _task()
        task.where = (label, task.where[1])
        self.point_of(task)

    def point_of(self, task):
        if self.aborting:
            raise Abort()
        others = self.enabled(task)
        if not others:
            return
        i = self.idx
        self.idx += 1
        if i > self.horizon:
            self.fail("horizon", f"no termination within {self.horizon} scheduling points")
            raise Abort()
        self.points.append(len(others))
        self.states.add(hash(tuple(t.where if not t.done else None for t in self.tasks)))
        c = self.schedule.get(i, 0)
        if c:
            if c > len(others):
                self.fail("divergence", f"choice {c} of {len(others)} at point {i}")
                raise Abort()
            self.switch(task, others[c - 1])

    def choose_forced(self, task):
        """The running task cannot continue: pick the next one."""
        others = self.enabled(task)
        if not others:
            timed = [t for t in self.tasks if not t.done and t.waiting is not None and t.timed]
            if timed:
                t = timed[0]
                t.waiting, t.timed_out = None, True
                return t
            return None
        if len(others) == 1:
            return others[0]
        i = self.idx
        self.idx += 1
        self.points.append(len(others) - 1)
        c = self.schedule.get(i, 0)
        if c >= len(others):
            self.fail("divergence", f"forced choice {c} of {len(others)} at point {i}")
            raise Abort()
        return others[c]

    def block(self, task, on, timed=False):
        task.waiting, task.timed = on, timed
        nxt = self.choose_forced(task)
        if nxt is task:
            return
        if nxt is None:
            self.fail("deadlock", "deadlock: " + "; ".join(
                f"thread {t.tid} at {t.where} waits for {t.waiting!r}" for t in self.tasks if not t.done))
            task.waiting = None
            raise Abort()
        self.switch(task, nxt)

    def wake(self, lock):
        for t in self.tasks:
            if t.waiting is lock:
                t.waiting = None

    def switch(self, task, nxt):
        nxt.gate.release()
        task.gate.acquire()
        if self.aborting:
            raise Abort()

    def exit(self, task):
        task.done = True
        _tls.task = None
        if self.aborting:
            self.release_next()
            return
        for t in self.tasks:
            if t.waiting is task:
                t.waiting = None
        try:
            nxt = self.choose_forced(task)
        except Abort:
            nxt = None
        if self.aborting:
            return
        if nxt is None:
            if all(t.done for t in self.tasks):
                self.finished.release()
            else:
                self.fail("deadlock", "deadlock: " + "; ".join(
                    f"thread {t.tid} at {t.where} waits for {t.waiting!r}" for t in self.tasks if not t.done))
            return
        nxt.gate.release()

    def fail(self, kind, text):
        if self.problem is None:
            self.problem = (kind, text)
        self.aborting = True
        self.release_next()

    def release_next(self):
        for t in self.tasks:
            if not t.done and t is not _task():
                try:
                    t.gate.release()
                except RuntimeError:
                    pass
        try:
            self.finished.release()
        except RuntimeError:
            pass


class Result:
    pass


def execute(body, schedule=(), horizon=200_000, timeout=60):
    """Run body() in a controlled thread under a schedule; every thread it starts is controlled too."""
    global CURRENT
    ctl = Controller(schedule, horizon)
    res = Result()
    res.value, res.error = None, None

    def root():
        try:
            res.value = body()
        except Abort:
            raise
        except BaseException as e:
            res.error = e

    gcon = gc.isenabled()
    gc.disable()
    CURRENT = ctl
    try:
        t = CoopThread(target=root, daemon=True)
        task = ctl.register(t)
        t._mc_task = task
        _raw(_RealThread.start, t)
        task.gate.release()
        try:
            ok = ctl.finished.acquire(True, timeout)
        except CaseTimeout:
            ok = False
        if not ok:
            ctl.aborting = True
            raise Inconclusive("a thread blocked outside the controlled primitives")
        if ctl.problem:  # let the threads unwind
            for other in ctl.tasks:
                _raw(_RealThread.join, other.thread, 2)
        else:
            for other in ctl.tasks:
                _raw(_RealThread.join, other.thread, 5)
    finally:
        CURRENT = None
        if gcon:
            gc.enable()
    res.problem, res.points, res.states = ctl.problem, ctl.points, ctl.states
    res.threads = len(ctl.tasks)
    res.thread_errors = [t.error for t in ctl.tasks if t.error is not None]
    return res


def explore(run, judge, shard, bound, slice_=(0, 1), limit=None, horizon=200_000, first=()):
    """Execute every schedule with at most `bound` deviations (this worker's slice of the first deviations).

    run() -> a fresh body; judge(res) -> None or (signature, message).
    """
    j, J = slice_
    stats = {"n": 0}

    def one(schedule):
        body = run()
        res = execute(body, schedule, horizon)
        stats["n"] += 1
        if res.problem and res.problem[0] == "divergence":
            raise Inconclusive(f"replay diverged: {res.problem[1]}")
        shard.trace()
        shard.step(len(res.points))
        shard.states |= res.states
        bad = None
        if res.problem:
            bad = (res.problem[0], res.problem[1])
        else:
            bad = judge(res)
        if bad:
            again = execute(run(), schedule, horizon)
            bad2 = (again.problem if again.problem else judge(again))
            if bad2:
                c = dict(shard.case) if isinstance(shard.case, dict) else {"case": shard.case}
                inner = dict(c.get("case") or {})
                inner["schedule"] = [list(x) for x in schedule]
                c["case"] = inner
                shard.violation(bad[0], f"schedule {schedule}: {bad[1]}", c)
            else:
                shard.inconclusive.append(f"not reproduced on replay: {bad}"[:400])
                shard.count("inconclusive")
        return res

    def rec(schedule, res, depth):
        if depth >= bound:
            return
        start = schedule[-1][0] + 1 if schedule else 0
        k = 0
        for i in range(start, len(res.points)):
            for c in range(1, res.points[i] + 1):
                if depth == 0:
                    k += 1
                    if k % J != j:
                        continue
                s = schedule + [(i, c)]
                r = one(s)
                if len(shard.violations) > 40:
                    return
                rec(s, r, depth + 1)

    root = one([]) if j == 0 else execute(run(), [], horizon)
    if root.problem and root.problem[0] == "divergence":
        raise Inconclusive("divergence")
    shard.cmax("points", len(root.points))
    rec([], root, 0)
    shard.cmax("deviations", bound)
    return stats["n"]
