"""E02: the multi-accelerator executor, on every small task graph and every bounded schedule."""
from __future__ import annotations

import itertools

import torch
import tqdm  # noqa: F401  (imported before the lock primitives are replaced)
import networkx  # noqa: F401
import transformers  # noqa: F401

from mc import sched

sched.install()

from mc import graphs
from mc.core import Family, Obs, Violation
from mc.fakegpu import fake_gpus
from mergekit.multigpu_executor import MultiGPUExecutor
import threading

LEVEL = "model_checking"
ASSUMPTIONS = [
    "accelerators are simulated at torch.accelerator / torch.cuda.Stream; device-side asynchrony is not modelled",
    "scheduling points are all lock operations, waits, thread starts and joins of threading/queue/concurrent.futures "
    "(plus, where stated, every source line of the executor); time is virtual",
    "per-device duplicated tasks are leaf inputs, as in the product (they are never targets)",
]


def flags_ok(n, edges, flags):
    """Reference classification: is the graph one the executor documents as supported?"""
    deps = {j: [i for (i, jj) in edges if jj == j] for j in range(n)}
    users = {i: [j for (ii, j) in edges if ii == i] for i in range(n)}
    lead = set()
    for i in range(n):
        if flags[i] == "m" and all(d in lead for d in deps[i]):
            lead.add(i)
    trail = set()
    for i in reversed(range(n)):
        if flags[i] == "m" and all(u in trail for u in users[i]):
            trail.add(i)
    return all(i in lead or i in trail for i in range(n) if flags[i] == "m")


def terms(n, deps):
    t = {}
    for i in range(n):
        t[i] = (i, tuple((f"a{d}", t[d]) for d in deps[i]))
    return t


class TLog(graphs.Log):
    """Results are structural terms, so duplicated per-device results compare equal."""

    def __init__(self, main):
        super().__init__()
        self.main = main
        self.lock = sched._real_lock()

    def execute(self, node, kwargs):
        s = sched._active
        if s is not None:
            s.point("task")
        with self.lock:
            self.events.append((node, threading.get_ident() == self.main))
        if s is not None:
            s.point("task")
        if self.fail == node:
            raise graphs.NodeFailed(node)
        for k, v in kwargs.items():
            if not isinstance(v, tuple):
                raise Violation(f"task {node} got {v!r} for {k}")
        return (node, tuple((k, kwargs[k]) for k in kwargs))


def scenario(n, edges, flags, targets, gpus, fail=None, storage="cpu"):
    attrs = [dict(main_only=f == "m", per_gpu=f == "g") for f in flags]
    tasks, deps = graphs.build(n, edges, attrs)
    need = graphs.needed(n, deps, targets)
    want = terms(n, deps)
    box = {}

    def make():
        def body():
            graphs.LOG = box["log"] = TLog(threading.get_ident())
            box["log"].fail = fail
            with fake_gpus(gpus):
                ex = MultiGPUExecutor([tasks[t] for t in targets], storage_device=torch.device(storage) if storage else None)
                return [(t.idx, v) for t, v in ex.run(quiet=True)]

        return body

    def check(x):
        log = box["log"]
        ran = [e[0] for e in log.events]
        if fail is not None and fail in need:
            if isinstance(x.exc, graphs.NodeFailed):
                return ("failed", tuple(sorted(set(ran))))
            if x.exc is None:
                raise Violation(f"task {fail} raised on a worker but the run ended normally: {x.result}")
            raise Violation(f"task {fail} raised, the run reported {type(x.exc).__name__}: {x.exc}")
        if x.exc is not None:
            if isinstance(x.exc, Violation):
                raise x.exc
            raise Violation(f"run failed with {type(x.exc).__name__}: {x.exc}")
        for i in range(n):
            c = ran.count(i)
            if i not in need:
                if c:
                    raise Violation(f"task {i} ran though no target needs it")
            elif flags[i] == "g":
                if c < 1 or c > gpus + 1:
                    raise Violation(f"per-device task {i} ran {c} times on {gpus} devices")
            elif c != 1:
                raise Violation(f"task {i} ran {c} times; executions {ran}")
        for i, on_main in log.events:
            if flags[i] == "m" and not on_main:
                raise Violation(f"main-thread-only task {i} ran on a worker thread")
        got = dict(x.result)
        if len(x.result) != len(got) or set(got) != set(targets):
            raise Violation(f"results yielded for {sorted(t for t, _ in x.result)}, targets are {sorted(targets)}")
        for t in targets:
            if got[t] != want[t]:
                raise Violation(f"target {t} has value {got[t]}, serial execution gives {want[t]}")
        return ("ok", tuple(ran))

    return make, check


def gen(nmax, gpus_list, tier, with_fail=False):
    for n in range(1, nmax + 1):
        for edges in graphs.all_edge_sets(n):
            for flags in itertools.product("pmg", repeat=n):
                if any(flags[i] == "g" and any(jj == i for _, jj in edges) for i in range(n)):
                    continue
                sinks = [i for i in range(n) if not any(ii == i for ii, _ in edges)]
                tsets = [sinks]
                if len(sinks) < n:
                    tsets.append(list(range(n)))
                for targets in tsets:
                    targets = [t for t in targets if flags[t] != "g"]
                    if not targets:
                        continue
                    for gpus in gpus_list:
                        if with_fail:
                            for f in range(n):
                                yield [n, edges, "".join(flags), targets, gpus, f]
                        else:
                            yield [n, edges, "".join(flags), targets, gpus]


def restrict(n, edges, flags, targets):
    """The subgraph the targets need (what the executor classifies)."""
    deps = {j: [i for (i, jj) in edges if jj == j] for j in range(n)}
    need = graphs.needed(n, deps, targets)
    e2 = [e for e in edges if e[1] in need]
    return e2, need


def run_scn(case, bound, trace=(), part=(0, 1), delays=False):
    n, edges, flags, targets, gpus = case[:5]
    fail = case[5] if len(case) > 5 else None
    e2, need = restrict(n, edges, flags, targets)
    fl = "".join(f if i in need else "p" for i, f in enumerate(flags))
    make, check = scenario(n, edges, flags, targets, gpus, fail)
    if not flags_ok(n, e2, fl):
        x = sched.execute(make(), [])
        if isinstance(x.exc, RuntimeError):
            return Obs("rejected", states=1, transitions=len(x.points), execs=1)
        check(x)  # supporting more graphs is fine, as long as the result is right
        return Obs("accepted", states=1, transitions=len(x.points), execs=1)
    st = sched.explore(make, check, bound, trace_files=trace, part=part, delays=delays)
    return Obs((sorted(st["outcomes"]), st["diverged"]), states=len(st["outcomes"]), transitions=st["points"],
               execs=st["schedules"])


def gen_small(tier):
    yield from gen(2, (1, 2, 3), tier)


def gen_graphs(tier):
    yield from gen(3 if tier == "quick" else 4, (2,) if tier == "quick" else (2, 3), tier)


def gen_fail(tier):
    yield from gen(2 if tier == "quick" else 3, (1, 2), tier, with_fail=True)


# deeper schedules on the shapes the product has:
#   writer(main) -> saves (parallel islands) -> finalize(main), plus a tokenizer-like target
SHAPES = [
    # n, edges, flags, targets
    [2, [], "pp", [0, 1]],
    [3, [[0, 1], [0, 2]], "mpp", [1, 2]],
    [3, [[0, 2], [1, 2]], "ppm", [0, 1, 2]],
    [4, [[0, 1], [0, 2], [1, 3], [2, 3]], "mppm", [1, 2, 3]],
    [4, [[0, 1], [0, 2]], "gppp", [1, 2, 3]],
    [5, [[0, 2], [1, 2], [0, 3], [2, 4], [3, 4], [0, 4]], "mpppm", [2, 3, 4]],
]


PARTS = 8


def gen_deep(tier):
    for s in SHAPES:
        for gpus in (2, 3) if tier == "thorough" else (2,):
            for k in range(PARTS):
                yield [s + [gpus], k]


def gen_deep3(tier):
    if tier == "thorough":
        for s in SHAPES[:4]:
            for k in range(64):
                yield [s + [2], k]


def gen_line(tier):
    for s in SHAPES[:5] if tier == "quick" else SHAPES:
        yield s + [2]


LINES = ("mergekit/multigpu_executor.py", "mergekit/graph.py")

FAMILIES = [
    Family("small", gen_small, lambda c: run_scn(c, 1), chunk=1, timeout=600,
           rule="every DAG on <=2 tasks x {parallel, main-thread-only, per-device} flags x 1-3 devices; all schedules with <=1 preemption or early timeout"),
    Family("graphs", gen_graphs, lambda c: run_scn(c, 1, delays=True), chunk=1, timeout=600,
           rule="every DAG on <=3 (4) tasks x flags x 2 (2-3) devices; all schedules with <=1 delay"),
    Family("failures", gen_fail, lambda c: run_scn(c, 1), chunk=1, timeout=600,
           rule="every DAG on <=2 (3) tasks x flags x each failing task; <=1 preemption"),
    Family("deep", gen_deep, lambda c: run_scn(c[0], 2, part=(c[1], PARTS), delays=True), chunk=1, timeout=3000,
           rule="six product-shaped graphs, 2 (2-3) devices, all schedules with <=2 delays"),
    Family("deep3", gen_deep3, lambda c: run_scn(c[0], 3, part=(c[1], 64), delays=True), chunk=1, timeout=3000,
           rule="(thorough) four product-shaped graphs, 2 devices, all schedules with <=3 delays"),
    Family("lines", gen_line, lambda c: run_scn(c, 1, trace=LINES, delays=True), chunk=1, timeout=800,
           rule="product-shaped graphs with every source line of the executors a scheduling point; <=1 delay"),
]
