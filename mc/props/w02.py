"""W02: crashes, failed writes and reused output directories, at every file-system operation."""
from __future__ import annotations

import concurrent.futures
import itertools
import json
import os
import shutil
import threading

from mc import crash

crash.ensure_preloaded()

import safetensors.torch
import torch
import transformers  # noqa: F401

from mc import ckpt
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
from mergekit.io.tensor_writer import TensorWriter

_Pool = concurrent.futures.ThreadPoolExecutor

LEVEL = "model_checking"
ASSUMPTIONS = [
    "process death: completed system calls survive, in order; a write may be torn at any of the enumerated lengths (power loss is not modelled, nothing here syncs)",
    "background writing with one writer thread that either finishes each write before the caller goes on or starts only when the caller waits (orders in between: W01)",
]

# a checkpoint layout: (sizes, shard limit in bytes, safe, background)
LAYOUTS = {
    "s1": ([1], 0, True, False),
    "s2": ([2, 1], 0, True, False),
    "m2": ([2, 1], 8, True, False),
    "m3": ([2, 2, 1], 8, True, False),
    "b1": ([1, 2], 0, False, False),
    "b2": ([1, 2], 8, False, False),
    "a1": ([2, 1], 0, True, True),
    "a2": ([2, 1], 8, True, True),
    "ab2": ([1, 2], 8, False, True),
    "m4": ([1, 1, 1, 1], 4, True, False),
    "a3": ([1, 1, 1], 4, True, True),
}


def tensors(layout, tag):
    return {f"t{i}.weight": ckpt.seq(s, start=100 * tag + 10 * i + 1) for i, s in enumerate(LAYOUTS[layout][0])}


class order:
    """Background writes that end before submit() returns ("early"), or start only when their result is awaited ("late")."""

    def __init__(self, when):
        self.when = when

    def __enter__(self):
        self.submit, self.shutdown, self.result = _Pool.submit, _Pool.shutdown, concurrent.futures.Future.result
        submit, shutdown, result, when = self.submit, self.shutdown, self.result, self.when
        gate = threading.Event()

        def my_submit(pool, fn, /, *a, **kw):
            if when == "early":
                fut = submit(pool, fn, *a, **kw)
                concurrent.futures.wait([fut])
                return fut

            def later():
                gate.wait(0.2)  # an upper bound, for code that polls instead of waiting
                return fn(*a, **kw)

            return submit(pool, later)

        def my_shutdown(pool, *a, **kw):
            gate.set()
            return shutdown(pool, *a, **kw)

        def my_result(fut, *a, **kw):
            gate.set()
            return result(fut, *a, **kw)

        if when:
            _Pool.submit, _Pool.shutdown, concurrent.futures.Future.result = my_submit, my_shutdown, my_result

    def __exit__(self, *a):
        _Pool.submit, _Pool.shutdown, concurrent.futures.Future.result = self.submit, self.shutdown, self.result


def orders(layout):
    return ["early", "late"] if LAYOUTS[layout][3] else [None]


def write(path, layout, tag, how="plain", when=None):
    with order(when):
        _write(path, layout, tag, how)


def _write(path, layout, tag, how):
    sizes, limit, safe, asy = LAYOUTS[layout]
    w = TensorWriter(path, max_shard_size=limit, safe_serialization=safe, use_async=asy)
    if how == "with":
        with w:
            for k, t in tensors(layout, tag).items():
                w.save_tensor(k, t)
    else:
        for k, t in tensors(layout, tag).items():
            w.save_tensor(k, t)
        w.finalize()


def load_mergekit(path, lazy=True):
    ld = LazyTensorLoader.from_disk(path, lazy_unpickle=lazy)
    return {k: ld.get_tensor(k).clone() for k in ld.index.tensor_paths}


def load_standard(path):
    """The order in which transformers looks for weights, read independently of mergekit."""
    for single, index in (("model.safetensors", "model.safetensors.index.json"), ("pytorch_model.bin", "pytorch_model.bin.index.json")):
        if os.path.exists(os.path.join(path, single)):
            return ckpt.read_file(os.path.join(path, single))
        if os.path.exists(os.path.join(path, index)):
            wm = json.load(open(os.path.join(path, index)))["weight_map"]
            files = {f: ckpt.read_file(os.path.join(path, f)) for f in set(wm.values())}
            return {k: files[f][k] for k, f in wm.items()}
    raise FileNotFoundError(path)


def reader_views(path):
    """What each reader gets: tensors, or None if it fails."""
    res = {}
    for name, fn in (("mergekit", load_mergekit), ("mergekit-eager", lambda p: load_mergekit(p, False)), ("standard", load_standard)):
        try:
            res[name] = fn(path)
        except Exception:
            res[name] = None
    return res


def check_state(path, allowed, what):
    """Every reader either fails or gets exactly one of the allowed complete checkpoints."""
    seen = []
    for reader, got in reader_views(path).items():
        if got is None:
            seen.append("-")
            continue
        for tag, want in allowed.items():
            if set(got) == set(want) and all(ckpt.same(got[k], want[k]) for k in want):
                seen.append(tag)
                break
        else:
            raise Violation(f"{what}: {reader} loads {({k: ckpt.desc(v) for k, v in got.items()})}, which is no complete checkpoint "
                            f"(complete: { {t: {k: ckpt.desc(v) for k, v in w.items()} for t, w in allowed.items()} }); files {sorted(os.listdir(path))}")
    return tuple(seen)


def must_be(path, want, what):
    for reader, got in reader_views(path).items():
        if got is None:
            raise Violation(f"{what}: {reader} cannot load the finished checkpoint; files {sorted(os.listdir(path))}")
        ckpt.compare(got, want, f"{what}: {reader}")


TEARS = [0, 1, crash.HALF, -1]


def gen_crash(tier):
    for layout in LAYOUTS:
        for old in [None, "s2", "m3", "b1"] if tier == "quick" else [None] + list(LAYOUTS):
            for when in orders(layout):
                yield [layout, old, when]


def run_crash(case):
    """Die at every operation (and inside every write) of writing a checkpoint, into an empty or used directory."""
    layout, old, when = case
    new_t = tensors(layout, 2)
    allowed = {"new": new_t}
    if old:
        allowed["old"] = tensors(old, 1)
    d = scratch("c")
    outs, states, n = [], set(), 0
    try:
        base = os.path.join(d, "base")
        if old:
            write(base, old, 1)
        else:
            os.makedirs(base)

        def fresh():
            out = os.path.join(d, "out")
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(base, out)
            return out

        out = fresh()
        full = crash.run(lambda: write(out, layout, 2, when=when), out)
        if full.status != "ok":
            raise Violation(f"writing {layout} over {old} fails: {full.error}")
        must_be(out, new_t, f"{layout} over {old}")
        nops = len(full.ops)
        if nops < 2:
            raise HarnessError(f"only {nops} operations seen: {full.ops}")
        for k in range(nops):
            modes = [(crash.DIE, 0)]
            if full.ops[k].startswith("write"):
                modes += [(crash.TORN, t) for t in TEARS[1:]]
            for mode, torn in modes:
                out = fresh()
                r = crash.run(lambda: write(out, layout, 2, when=when), out, k, mode, torn)
                n += 1
                if r.status != "died":
                    raise HarnessError(f"operation {k} of {nops} not reached: {r.status} {r.error}")
                s = check_state(out, allowed, f"death at operation {k} ({full.ops[k]}, torn={torn if mode == crash.TORN else None}) of writing {layout} over {old}")
                states.add(s)
                # writing again from the remains gives the new checkpoint
                rr = crash.run(lambda: write(out, layout, 2, when=when), out)
                if rr.status != "ok":
                    raise Violation(f"writing again after death at operation {k} fails: {rr.error}")
                must_be(out, new_t, f"written again after death at operation {k}")
                n += 1
        return Obs((case, sorted(states)), states=len(states), transitions=nops * n, execs=n + 1)
    finally:
        drop(d)


def gen_fault(tier):
    for layout in LAYOUTS:
        for how in ("plain", "with"):
            for when in orders(layout):
                yield [layout, how, when]


def run_fault(case):
    """Every operation fails once, or it and all later ones do: the caller hears of it, or nothing is missing."""
    layout, how, when = case
    new_t = tensors(layout, 2)
    d = scratch("f")
    states, n = set(), 0
    try:
        out = os.path.join(d, "out")
        os.makedirs(out)
        full = crash.run(lambda: write(out, layout, 2, how, when), out)
        if full.status != "ok":
            raise Violation(f"writing fails: {full.error}")
        for k in range(len(full.ops)):
            for mode in (crash.FAIL_ONCE, crash.FAIL_ON):
                shutil.rmtree(out)
                os.makedirs(out)
                r = crash.run(lambda: write(out, layout, 2, how, when), out, k, mode)
                n += 1
                what = f"operation {k} ({full.ops[k]}) fails {'once' if mode == crash.FAIL_ONCE else 'from then on'}"
                if r.status == "hang":
                    raise Violation(f"{what}: the writer never returns")
                if r.status == "crashed":
                    # the serialiser itself may die on an error (C++ runtime); that is a crash, not a silent success
                    states.add(("crashed", check_state(out, {"new": new_t}, what)))
                    continue
                if r.status == "ok":
                    must_be(out, new_t, what + ", no error was reported")
                    states.add("ok")
                else:
                    states.add(("error", check_state(out, {"new": new_t}, what)))
                    r2 = crash.run(lambda: write(out, layout, 2, how, when), out)
                    if r2.status != "ok":
                        raise Violation(f"writing again after {what}: {r2.error}")
                    must_be(out, new_t, f"written again after {what}")
        return Obs((case, sorted(map(str, states))), states=len(states), transitions=len(full.ops) * n, execs=n + 1)
    finally:
        drop(d)


def gen_reuse(tier):
    names = list(LAYOUTS)
    for a, b in itertools.product(names, names):
        yield [[a, b]]
    trip = ["s2", "m3", "b1", "b2", "m2"] if tier == "quick" else names
    for t in itertools.product(trip, repeat=3):
        yield [list(t)]


def run_reuse(case):
    """Write one layout after the other into the same directory."""
    d = scratch("r")
    try:
        for i, layout in enumerate(case[0]):
            write(d, layout, i + 1)
            must_be(d, tensors(layout, i + 1), f"{case[0][: i + 1]} written into one directory")
        return Obs((case, sorted(os.listdir(d))), states=len(case[0]), transitions=len(case[0]), execs=len(case[0]))
    finally:
        drop(d)


class Boom(Exception):
    pass


def gen_abort(tier):
    for layout in LAYOUTS:
        for n in range(len(LAYOUTS[layout][0]) + 1):
            for how in ("with", "plain"):
                yield [layout, n, how]


def run_abort(case):
    """The caller fails after saving n tensors: what is left does not load as a checkpoint (unless complete)."""
    layout, n, how = case
    sizes, limit, safe, asy = LAYOUTS[layout]
    want = tensors(layout, 2)
    d = scratch("x")

    def body():
        w = TensorWriter(d, max_shard_size=limit, safe_serialization=safe, use_async=asy)
        try:
            if how == "with":
                with w:
                    for i, (k, t) in enumerate(want.items()):
                        if i == n:
                            raise Boom()
                        w.save_tensor(k, t)
                    raise Boom()
            else:
                for i, (k, t) in enumerate(want.items()):
                    if i == n:
                        raise Boom()
                    w.save_tensor(k, t)
        except Boom:
            return "boom"

    try:
        r = crash.run(body, d)
        if r.status != "ok" or (how == "with" and r.value != "boom"):
            raise Violation(f"an error raised while saving was replaced or swallowed: {r.status} {r.value} {r.error}")
        return Obs((case, check_state(d, {"new": want}, f"caller failed after {n} of {len(want)} saves ({how})")), transitions=n + 1)
    finally:
        drop(d)


FAMILIES = [
    Family("reuse", gen_reuse, run_reuse, rule="every pair of 10 layouts and triple of 5 (10) layouts written into one directory"),
    Family("abort", gen_abort, run_abort, rule="every layout, caller failing after every number of saves, with and without context manager"),
    Family("faults", gen_fault, run_fault, chunk=1, timeout=600, rule="every layout x background writes finishing at once or starting when awaited x every file-system operation failing once or for good, then a clean retry"),
    Family("crashes", gen_crash, run_crash, chunk=1, timeout=800, rule="every layout (background writes early or late) over an empty or used directory x death before every file-system operation and inside every write (1 byte, half, all but one), then a clean retry"),
]
