"""A simulated ray (and lm_eval, cma) for mergekit.evo: one process, every completion order chosen by the explorer.

Model: a remote function call is pending until the explorer lets it finish (its body runs atomically then, once the
objects it was given are there). An actor runs its plain methods one after the other; coroutine methods share the
actor's event loop, which only runs while nothing blocks. Results are futures; errors surface where a result is asked
for. The explorer chooses at every point where the real program would wait: in ray.get and ray.wait, and when the
event loop has nothing to do.
"""
from __future__ import annotations

import asyncio
import inspect
import sys
import types

W = None  # the current world
TIMEOUTS = 1  # of waits that could have gone on, per execution


class Hang(BaseException):
    """Nothing can happen any more, and somebody still waits."""


class World:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []  # (chosen, number of choices)
        self.pending = []  # calls not finished
        self.loop = asyncio.new_event_loop()
        self.sleepers = []
        self.progress = 1  # something has happened since the last tick
        self.waits = 0  # waits that ran out since something happened
        self.timeouts = 0  # waits that ran out although something was under way
        self.groups = 0  # placement groups in use
        self.trace = []

    def choose(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    # ---- events
    def runnable(self):
        heads = set()
        res = []
        for t in self.pending:
            if t.actor is not None:  # calls of an actor begin in the order they were made
                if (id(t.actor), t.is_async) in heads:
                    continue
                heads.add((id(t.actor), t.is_async))
            if t.running or any(not a.done for a in t.deps()):
                continue
            res.append(t)
        return res

    def step(self, tick=True):
        """Let one thing happen; False if nothing can."""
        self.spin()
        ev = [("run", t) for t in self.runnable()]
        if tick and self.sleepers and self.progress:
            ev.append(("tick", None))
        if not ev:
            return False
        kind, t = ev[self.choose(len(ev))] if len(ev) > 1 else ev[0]
        if kind == "tick":
            self.progress = 0
            s, self.sleepers = self.sleepers, []
            for f in s:
                f.set_result(None)
        else:
            t.run()
        self.spin()
        return True

    def spin(self):
        """Run the event loop until nothing is ready in it."""
        if self.loop.is_running():
            return
        for _ in range(100000):
            self.loop.call_soon(self.loop.stop)
            self.loop.run_forever()
            if not self.loop._ready:
                return
        raise Hang("the event loop never comes to rest")

    def happened(self):
        self.progress = 1
        self.waits = 0

    def close(self):
        for t in asyncio.all_tasks(self.loop):
            t.cancel()
        try:
            for _ in range(3):
                self.loop.call_soon(self.loop.stop)
                self.loop.run_forever()
        finally:
            self.loop.close()


class ObjectRef:
    def __init__(self, what):
        self.what = what
        self.done = False
        self.value = self.error = None
        self.waiters = []

    def finish(self, value=None, error=None):
        assert not self.done
        self.done, self.value, self.error = True, value, error
        W.happened()
        for f in self.waiters:
            if not f.done():
                f.set_result(None)

    def result(self):
        if self.error is not None:
            raise self.error
        return self.value

    def __await__(self):
        f = W.loop.create_future()
        if self.done:  # others get a turn all the same
            W.loop.call_soon(f.set_result, None)
        else:
            self.waiters.append(f)
        yield from f
        return self.result()


class Call:
    def __init__(self, fn, args, kw, actor=None, is_async=False, retries=0, retry=()):
        self.retries, self.retry = retries, tuple(retry)
        self.fn, self.args, self.kw, self.actor, self.is_async = fn, args, kw, actor, is_async
        self.ref = ObjectRef(getattr(fn, "__name__", str(fn)))
        self.running = False
        W.pending.append(self)

    def deps(self):
        return [a for a in list(self.args) + list(self.kw.values()) if isinstance(a, ObjectRef)]

    def run(self):
        self.running = True
        W.happened()
        W.trace.append(self.ref.what)
        try:
            args = [a.result() if isinstance(a, ObjectRef) else a for a in self.args]
            kw = {k: a.result() if isinstance(a, ObjectRef) else a for k, a in self.kw.items()}
            if self.is_async:  # starts; finishes whenever its coroutine does
                W.pending.remove(self)
                task = W.loop.create_task(self.fn(*args, **kw))
                task.add_done_callback(lambda t: self.ref.finish(None if t.cancelled() or t.exception() else t.result(), None if t.cancelled() else t.exception()))
                return
            while True:
                try:
                    value, error = self.fn(*args, **kw), None
                    break
                except self.retry:
                    self.retries -= 1
                    if self.retries < 0:
                        raise
        except Hang:
            raise
        except Exception as e:
            value, error = None, e
        W.pending.remove(self)
        self.ref.finish(value, error)


class RemoteFunction:
    def __init__(self, fn, kw):
        self.fn = fn
        self.how = dict(retries=kw.get("max_retries", 3), retry=kw.get("retry_exceptions") or ())

    def remote(self, *a, **kw):
        inspect.signature(self.fn).bind(*a, **kw)  # ray complains at once
        return Call(self.fn, a, kw, **self.how).ref

    def options(self, **kw):
        return self

    def __call__(self, *a, **kw):
        raise TypeError("Remote functions cannot be called directly.")


class Handle:
    def __init__(self, cls, a, kw):
        self._obj = None
        h = self

        def create():
            h._obj = cls(*a, **kw)
        create.__name__ = cls.__name__
        self._cls = cls
        self._init = Call(create, [], {}, actor=self)
        self._init.run()

    def __getattr__(self, name):
        fn = getattr(self._cls, name)  # AttributeError, as in ray
        h = self
        is_async = inspect.iscoroutinefunction(fn)

        class Method:
            @staticmethod
            def remote(*a, **kw):
                def call(*a, **kw):
                    if h._init.ref.error is not None:
                        raise h._init.ref.error
                    return getattr(h._obj, name)(*a, **kw)
                call.__name__ = name
                if is_async:
                    async def acall(*a, **kw):
                        if not h._init.ref.done:
                            await h._init.ref
                        return await call(*a, **kw)
                    acall.__name__ = name
                    return Call(acall, a, kw, actor=h, is_async=True).ref
                return Call(call, a, kw, actor=h).ref
        return Method


class RemoteClass:
    def __init__(self, cls):
        self.cls = cls

    def remote(self, *a, **kw):
        return Handle(self.cls, a, kw)

    def options(self, **kw):
        return self


def remote(*a, **kw):
    if len(a) == 1 and not kw and callable(a[0]):
        return RemoteClass(a[0]) if inspect.isclass(a[0]) else RemoteFunction(a[0], {})
    return lambda x: RemoteClass(x) if inspect.isclass(x) else RemoteFunction(x, kw)


def get(refs, timeout=None):
    rs = refs if isinstance(refs, list) else [refs]
    for r in rs:
        if not isinstance(r, ObjectRef):
            raise ValueError(f"Invalid type of object refs, {type(r)}")
    while not all(r.done for r in rs):
        bad = [r for r in rs if r.done and r.error is not None]
        if bad:
            break
        if not W.step():
            raise Hang(f"waiting for {[r.what for r in rs if not r.done]} for ever")
    for r in rs:
        if r.done and r.error is not None:
            raise r.error
    res = [r.result() for r in rs]
    return res if isinstance(refs, list) else res[0]


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    refs = list(refs)
    if len(set(map(id, refs))) != len(refs):
        raise ValueError("Wait requires a list of unique object refs.")
    if not refs:
        return [], []
    while True:
        ready = [r for r in refs if r.done]
        if len(ready) >= num_returns:
            break
        run = W.runnable() if W.loop.is_running() else []
        run = [t for t in run if not t.is_async]  # the loop is blocked
        if timeout is not None:
            W.waits += 1
            if not run:
                if W.waits > 4 and not W.sleepers:
                    raise Hang("polling for ever")
                break
            c = W.choose(len(run) + (W.timeouts < TIMEOUTS))
            if c == len(run):
                W.timeouts += 1
                break
            run[c].run()
        elif run:
            run[W.choose(len(run)) if len(run) > 1 else 0].run()
        else:
            raise Hang("waiting for ever")
    ready = [r for r in refs if r.done][:num_returns]
    return ready, [r for r in refs if r not in ready]


def put(value):
    r = ObjectRef("put")
    r.done, r.value = True, value
    return r


class ActorPool:
    """As in ray.util: results in the order of submission."""

    def __init__(self, actors):
        self._idle = list(actors)
        self._future_to_actor = {}
        self._index_to_future = {}
        self._next_task = self._next_return = 0
        self._pending = []

    def map(self, fn, values):
        while self.has_next():  # leftovers of an iteration nobody finished
            try:
                self.get_next()
            except TimeoutError:
                pass
        for v in values:
            self.submit(fn, v)

        def it():
            while self.has_next():
                yield self.get_next()
        return it()

    def submit(self, fn, v):
        if self._idle:
            a = self._idle.pop()
            f = fn(a, v)
            self._future_to_actor[f] = (self._next_task, a)
            self._index_to_future[self._next_task] = f
            self._next_task += 1
        else:
            self._pending.append((fn, v))

    def has_next(self):
        return bool(self._future_to_actor)

    def get_next(self):
        i = self._next_return
        while i not in self._index_to_future:
            raise ValueError("It is not allowed to call get_next() after get_next_unordered().")
        f = self._index_to_future[i]
        while not f.done:
            # an actor that is done takes the next task while we wait for ours
            if not W.step():
                raise Hang(f"waiting for {f.what} for ever")
        del self._index_to_future[i]
        self._next_return += 1
        _i, a = self._future_to_actor.pop(f)
        self._return(a)
        return f.result()

    def map_unordered(self, fn, values):
        for v in values:
            self.submit(fn, v)

        def it():
            while self.has_next():
                yield self.get_next_unordered()
        return it()

    def get_next_unordered(self):
        while not any(f.done for f in self._future_to_actor):
            if not W.step():
                raise Hang("waiting for any of the pool for ever")
        f = next(f for f in self._future_to_actor if f.done)
        i, a = self._future_to_actor.pop(f)
        self._return(a)
        del self._index_to_future[i]
        self._next_return = max(self._next_return, i + 1)
        return f.result()

    def _return(self, a):
        self._idle.append(a)
        if self._pending:
            self.submit(*self._pending.pop(0))


class PlacementGroup:
    pass


def placement_group(bundles, strategy="PACK"):
    W.groups += 1
    return PlacementGroup()


def remove_placement_group(pg):
    assert isinstance(pg, PlacementGroup)
    W.groups -= 1


class PlacementGroupSchedulingStrategy:
    def __init__(self, placement_group):
        assert isinstance(placement_group, PlacementGroup)


async def sleep(delay, result=None):
    f = W.loop.create_future()
    W.sleepers.append(f)
    await f
    return result


# ---- evaluation harness
SCORE = None  # model, tasks -> {task: {metric: value}}


def simple_evaluate(model, model_args=None, tasks=None, num_fewshot=None, batch_size=None, max_batch_size=None, device=None, use_cache=None,
                    cache_requests=False, limit=None, log_samples=True, system_instruction=None, apply_chat_template=False, fewshot_as_multiturn=False,
                    gen_kwargs=None, task_manager=None, verbosity=None, random_seed=0):
    return {"results": SCORE(model, model_args, tasks, dict(num_fewshot=num_fewshot, limit=limit, apply_chat_template=apply_chat_template,
                                                           fewshot_as_multiturn=fewshot_as_multiturn, batch_size=batch_size, task_manager=task_manager))}


class TaskManager:
    def __init__(self, verbosity=None, include_path=None, include_defaults=True):
        self.include_path = include_path


class HFLM:
    def __init__(self, pretrained, **kw):
        self.model = pretrained


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    parent, _, leaf = name.rpartition(".")
    if parent:
        setattr(sys.modules[parent], leaf, m)
    return m


def install():
    """Put the simulated packages in place of those that are not installed."""
    if "ray" in sys.modules:
        return
    module("ray", remote=remote, get=get, wait=wait, put=put, ObjectRef=ObjectRef, init=lambda *a, **kw: None, shutdown=lambda: None)
    module("ray.util", ActorPool=ActorPool, placement_group=placement_group, remove_placement_group=remove_placement_group)
    module("ray.util.queue")
    module("ray.util.scheduling_strategies", PlacementGroupSchedulingStrategy=PlacementGroupSchedulingStrategy)
    module("lm_eval", simple_evaluate=simple_evaluate)
    module("lm_eval.api")
    module("lm_eval.api.model", LM=type("LM", (), {}))
    module("lm_eval.api.task", Task=type("Task", (), {"download": lambda s: None}), ConfigurableTask=type("ConfigurableTask", (), {"download": lambda s: None}))
    module("lm_eval.models")
    module("lm_eval.models.huggingface", HFLM=HFLM)
    module("lm_eval.models.vllm_causallms", VLLM=type("VLLM", (), {}))
    module("lm_eval.tasks", TaskManager=TaskManager)
    module("cma", CMAEvolutionStrategy=type("CMAEvolutionStrategy", (), {}), fmin2=None)
    try:
        import pandas  # noqa: F401
    except ImportError:
        module("pandas", DataFrame=None)


def explore(run, limit=200000):
    """All executions of run() under every sequence of choices; yields (result, choices)."""
    global W
    prefix = []
    n = 0
    while True:
        W = World(prefix)
        saved = asyncio.sleep
        asyncio.sleep = sleep
        try:
            res = run()
        finally:
            asyncio.sleep = saved
            w = W
            try:
                w.close()
            except Exception:
                pass
        yield res, [c for c, _n in w.taken]
        n += 1
        if n >= limit:
            raise RuntimeError("more executions than the limit")
        t = w.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [c for c, _n in t[:-1]] + [t[-1][0] + 1]
