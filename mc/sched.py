"""Controlled scheduler for real Python threads, and a preemption-bounded explorer.

install() replaces the lock primitives that `threading`, `queue` and `concurrent.futures` are built
from, so that every blocking operation of code imported afterwards (and of those stdlib modules) is a
scheduling point while a Scheduler is active, and an ordinary lock operation otherwise.  One real
thread runs at a time.  Optionally every source line of given files is a scheduling point as well, so
unsynchronised shared state is interleaved at line granularity.

Time is virtual: a timed wait may be chosen to time out at any point (a deviation, like a preemption),
and times out for free when nothing else can run.
"""
from __future__ import annotations

import _thread
import gc
import itertools
import sys
import threading

from mc.core import HarnessError, Violation

_real_lock = _thread.allocate_lock
_active: "Scheduler | None" = None


class Abort(BaseException):
    pass


class Deadlock(Violation):
    pass


class MCLock:
    """Drop-in for _thread.lock; cooperative while a scheduler is active."""

    __slots__ = ("_l", "_used", "__weakref__")

    def __init__(self):
        self._l = _real_lock()
        self._used = _active is None  # a lock made by the running execution is private until shared

    def _is_owned(self):  # for Condition: no trial acquire
        return self._l.locked()

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s.me() if s is not None else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        if s.aborting:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            raise Abort()
        if not self._used:  # nobody else can know a lock never acquired before
            self._used = True
            if self._l.acquire(False):
                return True
        if not blocking:
            s.point("try")
            return self._l.acquire(False)
        if timeout is not None and timeout >= 0:
            ok = s.block(lambda: not self._l.locked(), s.clock + timeout)
        else:
            ok = s.block(lambda: not self._l.locked(), None)
        if not ok:
            return False
        if not self._l.acquire(False):
            raise HarnessError("lock vanished")
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire
    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __exit__(self, *a):
        self._l.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()


class _T:
    __slots__ = ("id", "go", "pred", "deadline", "timed_out", "done", "ident", "exc")

    def __init__(self, id):
        self.id = id
        self.go = _real_lock()
        self.go.acquire()
        self.pred = None  # None: runnable
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.ident = None
        self.exc = None


class Scheduler:
    def __init__(self, prefix, max_points=20000, trace_files=()):
        self.prefix = prefix
        self.threads = []
        self.by_ident = {}
        self.points = []  # (n_options, default_is_running, chosen, timeouts_from)
        self.choices = []
        self.clock = 0.0
        self.aborting = False
        self.cur = None
        self.dead = None
        self.diverged = False
        self.max_points = max_points
        self.trace_files = tuple(trace_files)
        self.switches = 0

    # -- identity
    def me(self):
        t = self.by_ident.get(_thread.get_ident())
        return t

    # -- the scheduling decision, made by the running thread
    def _options(self, me):
        run = []
        if me is not None and not me.done and (me.pred is None or me.pred()):
            run.append((me, False))
        for t in self.threads:
            if t is me or t.done:
                continue
            if t.pred is None or t.pred():
                run.append((t, False))
        n_run = len(run)
        for t in self.threads:
            if t.done or t.deadline is None or t.pred is None or t.pred():
                continue
            run.append((t, True))
        return run, n_run

    def _pick(self, me):
        opts, n_run = self._options(me)
        if not opts:
            return None
        if n_run == 0:  # only timeouts: the earliest deadlines fire
            d = min(t.deadline for t, _ in opts)
            opts = [o for o in opts if o[0].deadline == d]
        i = len(self.choices)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(opts):
                self.diverged = True
                c = 0
        running = bool(me is not None and opts[0][0] is me and not opts[0][1])
        self.choices.append(c)
        # cost of option k: switching away from a runnable thread, or an early timeout
        costs = []
        for k, (t, to) in enumerate(opts):
            cost = 0
            if k > 0 and running and not to:
                cost = 1
            if to and n_run > 0:
                cost = 1
            costs.append(cost)
        self.points.append(costs)
        if len(self.points) > self.max_points:
            self.fail(Violation(f"no termination within {self.max_points} scheduling points (livelock)"))
            return None
        t, to = opts[c]
        if to:
            self.clock = max(self.clock, t.deadline)
            t.timed_out = True
        return t

    def fail(self, exc):
        if self.dead is None:
            self.dead = exc
        self.aborting = True

    def _switch(self, me):
        nxt = self._pick(me)
        if nxt is None:
            if self.dead is None:
                st = [(t.id, "blocked") for t in self.threads if not t.done]
                self.fail(Deadlock(f"deadlock: no thread can run; {st}"))
            self._release_all(me)
            if me is not None and not me.done:
                raise Abort()
            return
        if nxt is me:
            return
        self.switches += 1
        self.cur = nxt
        nxt.go.release()
        if me is not None and not me.done:
            me.go.acquire()
            if self.aborting:
                raise Abort()

    def _release_all(self, me):
        for t in self.threads:
            if t is not me and not t.done:
                try:
                    t.go.release()
                except RuntimeError:
                    pass

    def point(self, kind=""):
        me = self.me()
        if me is None or self.aborting:
            return
        me.pred = None
        me.deadline = None
        self._switch(me)

    def block(self, pred, deadline):
        me = self.me()
        me.pred = pred
        me.deadline = deadline
        me.timed_out = False
        self._switch(me)
        me.pred = None
        me.deadline = None
        return not me.timed_out

    # -- threads
    def spawn(self, func, args, kwargs):
        t = _T(len(self.threads))
        self.threads.append(t)

        def boot():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            t.go.acquire()
            try:
                if not self.aborting:
                    if self.trace_files:
                        sys.settrace(self.tracer)
                    try:
                        func(*args, **kwargs)
                    finally:
                        sys.settrace(None)
            except Abort:
                pass
            except BaseException as e:  # threading.Thread reports its own exceptions
                t.exc = e
            finally:
                t.done = True
                self.by_ident.pop(t.ident, None)
                if not self.aborting:
                    try:
                        self._switch(t)
                    except Abort:
                        pass

        _orig["start_new_thread"](boot, ())
        return t

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.endswith(self.trace_files):
            return None
        return self.line_tracer

    def line_tracer(self, frame, event, arg):
        if event == "line" and not self.aborting:
            self.point("line")
        return self.line_tracer


_orig = {}


class _LightEvent(threading.Event):
    """Thread start handshake: one blocking point instead of the eight of the general Event."""

    def wait(self, timeout=None):
        s = _active
        if s is not None and s.me() is not None and not s.aborting:
            if not self._flag:
                s.block(lambda: self._flag, None)
            return True
        return super().wait(timeout)

    def set(self):
        s = _active
        if s is not None and s.me() is not None:
            self._flag = True
            return
        super().set()


def _start_new_thread(func, args, kwargs=None):
    s = _active
    if s is None or s.me() is None:
        return _orig["start_new_thread"](func, args, kwargs or {})
    t = s.spawn(func, args, kwargs or {})
    owner = getattr(func, "__self__", None)
    if owner is not None:
        owner._mc_rec = t
    return id(t)


def _wait_for_tstate_lock(self, block=True, timeout=-1):
    s = _active
    rec = getattr(self, "_mc_rec", None)
    if s is None or rec is None or s.me() is None or s.aborting:
        return _orig["wait_tstate"](self, block, timeout)
    if not block:
        if rec.done:
            _orig["wait_tstate"](self, True, -1)
            return True
        return False
    ok = s.block(lambda: rec.done, s.clock + timeout if timeout is not None and timeout >= 0 else None)
    if ok:
        return _orig["wait_tstate"](self, True, -1)
    return False


def _vtime():
    s = _active
    if s is not None and s.me() is not None:
        return s.clock
    return _orig["monotonic"]()


def _vsleep(secs):
    s = _active
    if s is not None and s.me() is not None and not s.aborting:
        s.block(lambda: False, s.clock + secs)
        return
    return _orig["sleep"](secs)


_future_serial = itertools.count()


def install():
    """Idempotent. Call before importing the code under test."""
    if _orig:
        return
    import concurrent.futures
    import concurrent.futures._base as base
    import concurrent.futures.thread as cft
    import queue
    import time

    _orig["start_new_thread"] = threading._start_new_thread
    _orig["wait_tstate"] = threading.Thread._wait_for_tstate_lock
    _orig["monotonic"] = time.monotonic
    _orig["sleep"] = time.sleep
    threading.Lock = MCLock
    threading._allocate_lock = MCLock
    threading._CRLock = None
    threading._start_new_thread = _start_new_thread
    otinit = threading.Thread.__init__

    def tinit(self, *a, **k):
        otinit(self, *a, **k)
        self._started = _LightEvent()
        self._mc_serial = next(_future_serial)

    threading.Thread.__init__ = tinit
    threading.Thread.__hash__ = lambda self: getattr(self, "_mc_serial", 0)  # threads are kept in sets
    threading.Thread._wait_for_tstate_lock = _wait_for_tstate_lock
    threading._time = _vtime
    queue.time = _vtime
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _vsleep
    time.monotonic = _vtime
    cft._global_shutdown_lock = MCLock()
    import tqdm

    tqdm.tqdm.monitor_interval = 0  # no monitor thread
    ohook = threading.excepthook

    def hook(args):
        if args.exc_type is not Abort and _active is None:
            ohook(args)

    threading.excepthook = hook
    # futures are put in sets and sorted by id(): make both orders those of creation
    oinit = base.Future.__init__

    def finit(self, *a, **k):
        oinit(self, *a, **k)
        self._mc_serial = next(_future_serial)

    base.Future.__init__ = finit
    base.Future.__hash__ = lambda self: getattr(self, "_mc_serial", 0)
    base.id = lambda o: getattr(o, "_mc_serial", None) if isinstance(o, base.Future) else _builtin_id(o)


_builtin_id = id


class Execution:
    __slots__ = ("result", "exc", "points", "choices", "diverged", "switches")


def execute(body, prefix, max_points=20000, trace_files=()):
    """Run body() as controlled thread 0 under the given choice prefix (then default choices)."""
    global _active, _future_serial
    if not _orig:
        raise HarnessError("scheduler not installed")
    _future_serial = itertools.count()
    s = Scheduler(list(prefix), max_points=max_points, trace_files=trace_files)
    main = _T(0)
    main.ident = _thread.get_ident()
    s.threads.append(main)
    s.by_ident[main.ident] = main
    x = Execution()
    x.result = x.exc = None
    _active = s
    try:
        try:
            if s.trace_files:
                sys.settrace(s.tracer)
            try:
                x.result = body()
            finally:
                sys.settrace(None)
        except Abort:
            x.exc = s.dead
        except Exception as e:
            x.exc = e
        if not s.aborting:
            # let every other thread finish
            try:
                s.block(lambda: all(t.done for t in s.threads[1:]), None)
            except Abort:
                x.exc = s.dead
        if s.dead is not None:
            x.exc = s.dead
    finally:
        sys.settrace(None)
        main.done = True
        if s.aborting:
            s._release_all(main)
        _active = None
    for th in [t for t in threading.enumerate() if getattr(t, "_mc_rec", None) is not None]:
        _orig["wait_tstate"](th, True, 5)
    x.points, x.choices, x.diverged, x.switches = s.points, s.choices, s.diverged, s.switches
    return x


def explore(make_body, check, bound, max_points=20000, trace_files=(), cap=None, part=(0, 1), delays=False):
    """Every schedule of make_body()() with at most `bound` deviations.

    A deviation is a preemption or an early timeout (choosing freely when the running thread blocks);
    with delays=True every departure from the default schedule is one (delay bounding).
    part=(k, K): only the schedules whose first departure from the default one is number k mod K
    (the default one itself belongs to every part).
    check(x) is called on each execution and returns a hashable observation (or raises Violation).
    Returns dict(schedules, points, outcomes, diverged, capped).
    """
    stats = dict(schedules=0, points=0, switches=0, outcomes=set(), diverged=0, capped=False)
    stack = [([], 0)]
    gc_was = gc.isenabled()
    if not gc.get_freeze_count():
        gc.collect()
        gc.freeze()
    gc.disable()
    try:
        # once unrecorded: first-use initialisation (imports, caches) must not shift the points
        execute(make_body(), [], max_points, trace_files)
        while stack:
            prefix, spent = stack.pop()
            x = execute(make_body(), prefix, max_points, trace_files)
            stats["schedules"] += 1
            stats["points"] += len(x.points)
            stats["switches"] += x.switches
            for _ in range(5):
                if not x.diverged:
                    break
                x = execute(make_body(), prefix, max_points, trace_files)
            if x.diverged:
                stats["diverged"] += 1
                continue
            try:
                stats["outcomes"].add(check(x))
            except Violation as v:
                v.schedule = list(x.choices)
                while v.schedule and v.schedule[-1] == 0:
                    v.schedule.pop()
                v.msg = f"{v.msg} [schedule {v.schedule}]"
                v.args = (v.msg,)
                raise
            if stats["schedules"] % 200 == 0:
                gc.collect()
            if cap is not None and stats["schedules"] >= cap:
                stats["capped"] = True
                break
            nxt = []
            for i in range(len(prefix), len(x.points)):
                costs = x.points[i]
                for alt in range(1, len(costs)):
                    cost = 1 if delays else costs[alt]
                    if spent + cost <= bound:
                        nxt.append((x.choices[:i] + [alt], spent + cost))
            if stats["schedules"] == 1 and part[1] > 1:
                nxt = nxt[part[0]::part[1]]
            stack.extend(reversed(nxt))
    finally:
        gc.collect()
        if gc_was:
            gc.enable()
    return stats
