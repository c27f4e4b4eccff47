"""E01: the serial graph executor, on every small task graph."""
from __future__ import annotations

import gc
import itertools

import torch

from mc import graphs
from mc.core import Family, Obs, Violation
from mergekit.graph import Executor, Task, TaskUniverse

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tasks are synthetic (tiny values); the graph code never looks at task internals beyond the Task interface",
    "bounds: graphs of at most 5 tasks, 2 label/priority classes at the largest size",
]

SMALL = [(None, 0), ("b", 0), ("a", 9)]
FULL = [(l, p) for l in (None, "a", "b") for p in (0, 5)]


def subsets(n, minsize=1):
    for r in range(minsize, n + 1):
        yield from (list(c) for c in itertools.combinations(range(n), r))


def gen_plain(tier):
    top = 5
    for n in range(1, top + 1):
        if n <= 3:
            alpha = FULL
        elif n == 4:
            alpha = SMALL if tier == "quick" else FULL[:4]
        else:
            alpha = [(None, 0), ("a", 5)] if tier == "thorough" else [(None, 0)]
        for edges in graphs.all_edge_sets(n):
            for combo in itertools.product(range(len(alpha)), repeat=n):
                yield [n, edges, [list(alpha[c]) for c in combo]]


def check_run(n, edges, attrs, targets, cached, log, deps, yielded, cached_vals):
    need = graphs.needed(n, deps, targets, cached)
    order = [e[0] for e in log.events]
    if sorted(order) != sorted(need):
        raise Violation(f"executed {order}, needed exactly once each: {sorted(need)}")
    serial = {e[0]: e[2] for e in log.events}
    for node, args, _s, _t in log.events:
        want = {
            f"a{d}": ((d, serial[d]) if d in need else (d, cached_vals[d].serial))
            for d in deps[node]
        }
        if args != want:
            raise Violation(f"task {node} was called with {args}, dependencies' results are {want}")
    done = set()
    for x in order:
        if not all(d in done or d in cached for d in deps[x]):
            raise Violation(f"task {x} ran before one of its dependencies {deps[x]}; order {order}")
        done.add(x)
    want_t = [x for x in order if x in targets]
    if [y[0] for y in yielded] != want_t:
        raise Violation(f"yielded results for {[y[0] for y in yielded]}, expected {want_t}")
    for node, s in yielded:
        if s != serial[node]:
            raise Violation(f"target {node} yielded a value that is not its result")
    return order


def liveness_hook(n, deps, need, targets, cached, log):
    """At the start of each task, only results still needed (or made by the last step) may be alive."""
    state = {"hist": [], "max": 0}

    def hook(node, kwargs):
        order = [e[0] for e in log.events]
        done = set(order)
        alive = [log.events[s][0] for s, r in log.alive.items() if r() is not None]
        pending = need - done
        ok = set()
        for x in pending:
            ok |= set(deps[x])
        if order:
            ok |= {order[-1], *deps[order[-1]]}
        if len(order) > 1:
            ok |= {order[-2]}
        ok |= set([x for x in order if x in targets][-1:])  # the generator may hold what it yielded last
        extra = [x for x in alive if x not in ok]
        if extra:
            raise Violation(f"results of {extra} are still held when task {node} starts; no remaining task uses them")
        state["max"] = max(state["max"], len(alive))

    return hook


def run_one(n, edges, attrs, targets, cached=(), copies=False, as_handles=False, dup_targets=False):
    log = graphs.reset()
    tasks, deps = graphs.build(n, edges, attrs, copies=copies)
    need = graphs.needed(n, deps, targets, set(cached))
    tlist = [tasks[t] for t in targets]
    if dup_targets:
        tlist = tlist + [tasks[targets[0]]]
    kw = {}
    cached_vals = {}
    if cached or as_handles:
        uni = TaskUniverse(tlist)
        tl = [uni.add_task(t) for t in tlist]
        if cached:
            cached_vals = {}
            cv = {}
            for c in cached:
                h = uni.get_handle(tasks[c])
                if h is None:
                    continue
                cached_vals[c] = graphs.Val(c, {}, f"cached{c}")
                cv[h] = cached_vals[c]
            kw["cached_values"] = cv
        tlist = tl
    log.hook = liveness_hook(n, deps, need, targets, cached, log)
    ex = Executor(tlist, **kw)
    yielded = []
    for task, value in ex.run(quiet=True):
        if not isinstance(value, graphs.Val):
            raise Violation(f"yielded value for task {task.idx} is {value!r}")
        if value.node != task.idx:
            raise Violation(f"task {task.idx} was yielded with the value of task {value.node}")
        yielded.append((task.idx, value.serial))
        del value
    order = check_run(n, edges, attrs, targets, cached, log, deps, yielded, cached_vals)
    return order


def attrs_of(al):
    return [dict(label=l, prio=p) for l, p in al]


def run_plain(case):
    n, edges, al = case
    attrs = attrs_of(al)
    outs, trans, ex = set(), 0, 0
    for targets in subsets(n):
        if n >= 5 and len(targets) not in (1, n) :
            continue
        order = run_one(n, edges, attrs, targets)
        outs.add((tuple(targets), tuple(order)))
        trans += len(order)
        ex += 1
    return Obs(sorted(outs), states=len(outs), transitions=trans, execs=ex)


def gen_variants(tier):
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        alpha = SMALL if n <= 3 else SMALL[:2]
        for edges in graphs.all_edge_sets(n):
            for combo in itertools.product(range(len(alpha)), repeat=n):
                yield [n, edges, [list(alpha[c]) for c in combo]]


def run_variants(case):
    n, edges, al = case
    attrs = attrs_of(al)
    outs, trans, ex = set(), 0, 0
    for targets in subsets(n):
        for copies, handles, dup in itertools.product((0, 1), repeat=3):
            order = run_one(n, edges, attrs, targets, copies=copies, as_handles=handles, dup_targets=dup)
            trans += len(order)
            ex += 1
            outs.add((tuple(targets), tuple(order)))
        for cached in subsets(n, 0):
            order = run_one(n, edges, attrs, targets, cached=cached)
            trans += len(order)
            ex += 1
            outs.add((tuple(targets), tuple(cached), tuple(order)))
    return Obs(sorted(outs), states=len(outs), transitions=trans, execs=ex)


# --- tasks whose dependencies are made anew on every look, as the real ones do ------
class Fresh(graphs.Node):
    def arguments(self):
        return {f"a{d}": Fresh(idx=d) for d in Fresh.structure[self.idx]}


Fresh.structure = {}


def gen_fresh(tier):
    for n in range(2, 5 if tier == "quick" else 6):
        for edges in graphs.all_edge_sets(n):
            yield [n, edges]


def run_fresh(case):
    n, edges = case
    deps = {j: [i for (i, jj) in edges if jj == j] for j in range(n)}
    Fresh.structure = deps
    outs, ex, trans = [], 0, 0
    for targets in itertools.permutations(range(n)) if n <= 4 else itertools.permutations(range(n), 3):
        for keep in (True, False):
            log = graphs.reset()
            if keep:
                uni = [Fresh(idx=t) for t in targets]
            else:  # nothing but the universe holds on to the tasks
                uni = TaskUniverse()
                uni = [uni.add_task(Fresh(idx=t)) for t in targets]
            yielded = [(t.idx, v.serial) for t, v in Executor(uni).run(quiet=True)]
            order = check_run(n, edges, None, targets, (), log, deps, yielded, {})
            outs.append(order)
            ex += 1
            trans += len(order)
    return Obs((case, sorted(map(tuple, set(map(tuple, outs))))), states=len(set(map(tuple, outs))), transitions=trans, execs=ex)


def gen_fail(tier):
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        for edges in graphs.all_edge_sets(n):
            for f in range(n):
                yield [n, edges, f]


def run_fail(case):
    n, edges, f = case
    attrs = [dict() for _ in range(n)]
    log = graphs.reset()
    tasks, deps = graphs.build(n, edges, attrs)
    log.fail = f
    got = []
    try:
        for task, value in Executor(tasks).run(quiet=True):
            got.append(task.idx)
    except graphs.NodeFailed as e:
        if e.args[0] != f:
            raise Violation("wrong failure propagated")
    else:
        raise Violation(f"task {f} raised, but the run ended normally; executed {[e[0] for e in log.events]}")
    order = [e[0] for e in log.events]
    if order.count(f) != 1 or order[-1] != f:
        raise Violation(f"execution went on after the failure of {f}: {order}")
    down = {f}
    for j in range(n):
        if any(d in down for d in deps[j]):
            down.add(j)
    if set(got) & down:
        raise Violation(f"results yielded for tasks depending on the failed one: {got}")
    return Obs((order, got), transitions=len(order))


# --- devices ---------------------------------------------------------------
class DevTensor(torch.Tensor):
    """A CPU tensor that claims to live on a named device (there is no accelerator here)."""

    @staticmethod
    def make(tag, dev):
        t = torch.zeros(1).as_subclass(DevTensor)
        t.tag, t.dev = tag, torch.device(dev)
        return t

    @property
    def device(self):
        return self.dev

    def to(self, *a, **kw):
        dev = kw.get("device", a[0] if a else None)
        return DevTensor.make(self.tag, dev)

    def cpu(self):
        return DevTensor.make(self.tag, "cpu")


SEEN = []


def wrap(shape, t):
    return {"t": lambda: t, "d": lambda: {"x": t, "n": 3}, "l": lambda: [t, None], "tt": lambda: (t, "s"),
            "dl": lambda: {"x": [t, {"y": (t,)}]}}[shape]()


def tensors_in(v):
    if isinstance(v, DevTensor):
        return [v]
    if isinstance(v, dict):
        return [x for y in v.values() for x in tensors_in(y)]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in tensors_in(y)]
    return []


def shape_of(v):
    if isinstance(v, DevTensor):
        return "T"
    if isinstance(v, dict):
        return {k: shape_of(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [shape_of(x) for x in v])
    return repr(v)


class DevNode(graphs.Node):
    shape: str = "t"
    src: str = "cpu"

    def execute(self, **kwargs):
        SEEN.append((self.idx, {k: ([(t.tag, str(t.device)) for t in tensors_in(v)], shape_of(v)) for k, v in kwargs.items()}))
        return wrap(self.shape, DevTensor.make(self.idx, self.src))


def gen_dev(tier):
    for shape in ("t", "d", "l", "tt", "dl"):
        for acc0, acc1 in itertools.product((False, True), repeat=2):
            for math, storage in itertools.product(("cpu", "cuda:0", "xpu:1"), repeat=2):
                for src in ("math", "storage", "other"):
                    yield [shape, acc0, acc1, math, storage, src]


def run_dev(case):
    shape, acc0, acc1, math, storage, src = case
    SEEN.clear()
    dev = {"math": math, "storage": storage, "other": "cuda:3"}[src]
    a = DevNode(idx=0, acc=acc0, shape=shape, src=dev)
    b = DevNode(idx=1, acc=acc1, shape=shape, src=dev, deps=(("a0", a),))
    c = DevNode(idx=2, acc=acc0, shape=shape, src=dev, deps=(("a0", a), ("a1", b)))
    out = {t.idx: v for t, v in Executor([a, b, c], math_device=torch.device(math), storage_device=torch.device(storage)).run(quiet=True)}
    ref = shape_of(wrap(shape, DevTensor.make(0, "cpu")))
    for idx, args in SEEN:
        acc = acc1 if idx == 1 else acc0
        want = str(torch.device(math if acc else storage))
        for k, (ts, sh) in args.items():
            if any(d != want or tag != int(k[1]) for tag, d in ts) or not ts or sh != ref:
                raise Violation(f"task {idx} (accelerated={acc}) received {k} as {ts} {sh}, wanted device {want}")
    for idx, v in out.items():
        ts = tensors_in(v)
        if shape_of(v) != ref or any(str(t.device) != str(torch.device(storage)) or t.tag != idx for t in ts):
            raise Violation(f"result of {idx} is {shape_of(v)} on {[str(t.device) for t in ts]}, storage is {storage}")
    if set(out) != {0, 1, 2}:
        raise Violation(f"targets yielded: {sorted(out)}")
    return Obs(case, transitions=3)


FAMILIES = [
    Family("graphs", gen_plain, run_plain, chunk=64,
           rule="every DAG on <=5 tasks x group label/priority classes x every non-empty target set"),
    Family("variants", gen_variants, run_variants, chunk=16,
           rule="every DAG on <=3 (4) tasks x equal-but-distinct task objects x handles/tasks x duplicate targets x every set of cached values"),
    Family("fresh", gen_fresh, run_fresh, chunk=8,
           rule="every DAG on <=4 (5) tasks whose arguments() builds new equal objects each time x every order of adding the targets x kept alive or not"),
    Family("failures", gen_fail, run_fail, chunk=16, rule="every DAG on <=3 (4) tasks x every failing task"),
    Family("devices", gen_dev, run_dev, chunk=32, rule="value container shapes x accelerated flags x math/storage/source devices"),
]
