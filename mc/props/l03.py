"""L03: tensors loaded by several threads at once, under every schedule with bounded preemptions."""
from __future__ import annotations

import io
import json
import os
import pickle
import threading

import safetensors.torch
import torch
import transformers  # noqa: F401

from mc import sched

sched.install()

from mc import ckpt
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.common import ModelReference
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
from mergekit.io.tasks import LoaderCache, LoadTensor
from mergekit.options import MergeOptions

LEVEL = "model_checking"
ASSUMPTIONS = [
    "scheduling points: every synchronisation operation and every source line of the loading modules",
    "bounds: 2 threads (3 in one plan) x 2 reads, <=2 deviations (delay bounding; 1 for the larger plans)",
]
FILES = ("mergekit/io/lazy_unpickle.py", "mergekit/io/lazy_tensor_loader.py", "mergekit/io/loader.py", "mergekit/io/tasks.py")

SHARDS = [["a", "b"], ["c"]]


def content(tag):
    return {"a": ckpt.seq(3, torch.float32, tag), "b": ckpt.seq(2, torch.float16, tag + 10), "c": ckpt.seq(4, torch.bfloat16, tag + 20).reshape(2, 2)}


def make(d, tag, fmt):
    os.makedirs(d)
    ts = content(tag)
    safe = fmt.startswith("st")
    stem, ext = ("model", "safetensors") if safe else ("pytorch_model", "bin")
    save = safetensors.torch.save_file if safe else torch.save
    if fmt.endswith("1"):
        save(ts, os.path.join(d, f"{stem}.{ext}"))
    else:
        wm = {}
        for i, names in enumerate(SHARDS):
            fn = f"{stem}-{i + 1:05d}-of-00002.{ext}"
            save({n: ts[n] for n in names}, os.path.join(d, fn))
            wm.update({n: fn for n in names})
        json.dump({"weight_map": wm}, open(os.path.join(d, f"{stem}.{ext}.index.json"), "w"))


_dirs = {}


def get(tag, fmt):
    key = (os.getpid(), tag, fmt)
    if key not in _dirs:
        d = os.path.join(scratch("m"), f"model{tag}{fmt}")
        make(d, tag, fmt)
        _dirs[key] = d
    return _dirs[key]


# a plan: list of threads; a thread is a list of (source, tensor); a source is (kind, tag, fmt)
#   loader: one LazyTensorLoader per (tag, fmt, lazy), shared by the threads; own: a loader opened by the thread itself
#   task: LoadTensor task through the process-wide cache
L = lambda tag, fmt, lazy=True: ("loader", tag, fmt, lazy)
O = lambda tag, fmt, lazy=True: ("own", tag, fmt, lazy)
T = lambda tag, fmt, lazy=True: ("task", tag, fmt, lazy)
PLANS = {
    "two-pickles": ([[(L(1, "bin1"), "a")], [(L(2, "bin1"), "b")]], 2),
    "one-pickle-two-shards": ([[(L(1, "bin2"), "a"), (L(1, "bin2"), "b")], [(L(1, "bin2"), "c")]], 2),
    "one-safetensors-two-shards": ([[(L(1, "st2"), "a"), (L(1, "st2"), "b")], [(L(1, "st2"), "c"), (L(1, "st2"), "a")]], 2),
    "one-shard-flushed": ([[(L(1, "bin1"), "a"), (L(1, "bin1"), "b")], [(L(1, "bin1"), "flush"), (L(1, "bin1"), "c")]], 2),
    "lazy-and-eager": ([[(L(1, "bin1"), "a")], [(L(2, "bin1", False), "b")]], 2),
    "open-and-read": ([[(L(1, "bin1"), "a")], [(O(2, "bin1"), "b")]], 2),
    "eager-open": ([[(O(1, "bin1", False), "a")], [(O(2, "bin2", True), "c")]], 1),
    "tasks-same-model": ([[(T(1, "bin2"), "a"), (T(1, "bin2"), "c")], [(T(1, "bin2"), "c"), (T(1, "bin2"), "b")]], 1),
    "tasks-two-models": ([[(T(1, "bin1"), "a")], [(T(2, "bin1"), "a")]], 1),
    "tasks-mixed": ([[(T(1, "bin1"), "a")], [(T(2, "st2"), "c"), (T(1, "bin1"), "b")]], 1),
    "three-pickles": ([[(L(1, "bin1"), "a")], [(L(2, "bin1"), "b")], [(L(3, "bin2"), "c")]], 1),
}


def surface():
    return (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor, torch.nn.Module.register_parameter, torch.nn.Module.register_buffer)


SURFACE = surface()


def restore():
    (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor, torch.nn.Module.register_parameter, torch.nn.Module.register_buffer) = SURFACE


def gen(tier):
    for p in PLANS:
        for k in range(8):
            yield [p, k, PLANS[p][1] + (1 if tier == "thorough" and PLANS[p][1] == 1 else 0)]


def run(case):
    plan, part, bound = case
    threads = PLANS[plan][0]
    box = {}

    def mk():
        restore()
        LoaderCache.loaders = {}

        def body():
            loaders = {}
            for th in threads:
                for src, _n in th:
                    get(src[1], src[2])
                    if src[0] == "loader" and src not in loaders:
                        loaders[src] = LazyTensorLoader.from_disk(get(src[1], src[2]), lazy_unpickle=src[3])
            lazy = any(src[0] == "task" and src[3] for th in threads for src, _n in th)
            LoaderCache().setup(MergeOptions(lazy_unpickle=lazy))
            box["got"] = got = [[] for _ in threads]
            box["errs"] = errs = []

            go = threading.Event()

            def work(i, th):
                go.wait()
                try:
                    for src, name in th:
                        kind, tag, fmt, lz = src
                        if kind == "loader":
                            ld = loaders[src]
                            if name == "flush":
                                ld.flush()
                                continue
                            t = ld.get_tensor(name)
                        elif kind == "own":
                            t = LazyTensorLoader.from_disk(get(tag, fmt), lazy_unpickle=lz).get_tensor(name)
                        else:
                            t = LoadTensor(model=ModelReference.parse(get(tag, fmt)), tensor=name).execute()
                        got[i].append((tag, name, t))
                except Exception as e:
                    errs.append(f"thread {i}: {type(e).__name__}: {e}")

            ths = [threading.Thread(target=work, args=(i, th)) for i, th in enumerate(threads)]
            for t in ths:
                t.start()
            go.set()
            for t in ths:
                t.join()

        return body

    def check(x):
        now = surface()
        restore()
        if x.exc is not None:
            raise Violation(f"{plan}: {type(x.exc).__name__}: {x.exc}")
        if box["errs"]:
            raise Violation(f"{plan}: {box['errs']}")
        for th, res in zip(threads, box["got"]):
            want = [(s[1], n) for s, n in th if n != "flush"]
            if [(a, b) for a, b, _t in res] != want:
                raise Violation(f"{plan}: reads {want} gave {[(a, b) for a, b, _t in res]}")
            for tag, name, t in res:
                if not isinstance(t, torch.Tensor) or not ckpt.same(t, content(tag)[name]):
                    raise Violation(f"{plan}: {name} of model {tag} read as {t!r}")
        for what, a, b in zip(("pickle.Unpickler", "pickle.load", "torch._utils._rebuild_tensor", "Module.register_parameter", "Module.register_buffer"), SURFACE, now):
            if a is not b:
                raise Violation(f"{plan}: {what} is left replaced when all threads are done")
        return "ok"

    st = sched.explore(mk, check, bound, trace_files=FILES, part=(part, 8), delays=True)
    if st["diverged"]:
        raise HarnessError(f"{st['diverged']} schedules could not be replayed")
    restore()
    return Obs((plan, sorted(st["outcomes"])), states=st["schedules"], transitions=st["points"], execs=st["schedules"])


FAMILIES = [Family("schedules", gen, run, chunk=1, timeout=3000, rule="11 thread plans; every schedule with <=2 (1 for the larger plans; 2 in thorough) departures from the default at source-line granularity")]
