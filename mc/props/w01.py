"""W01: checkpoint writer round trip, on all short save histories and writer schedules."""
from __future__ import annotations

import itertools
import os
import re

import safetensors.torch
import torch
import transformers  # noqa: F401

from mc import sched

sched.install()

from mc import ckpt
from mc.core import Family, Obs, Violation, drop, scratch
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
from mergekit.io.tensor_writer import TensorWriter
import threading

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tensors of at most a few elements; names are unique within one checkpoint (as architecture definitions guarantee)",
    "bounds: histories of 3 (4) saves; 2 saver threads x 1-2 saves with 0-2 background writer threads, <=2 preemptions",
]

KINDS = ["f4", "f8", "h6", "sc", "e", "nc", "sh", "b16", "i8"]


def make(kind, i, prev):
    """-> tensor of the kind; i makes values distinct."""
    b = 10 * i + 1
    if kind == "f4":
        return ckpt.seq(1, start=b)
    if kind == "f8":
        return ckpt.seq(2, start=b)
    if kind == "f12":
        return ckpt.seq(3, start=b)
    if kind == "h6":
        return ckpt.seq(3, torch.float16, start=b)
    if kind == "sc":
        return torch.tensor(float(b))
    if kind == "e":
        return torch.zeros(0, 2)
    if kind == "nc":
        return ckpt.seq(6, start=b).reshape(2, 3).t()
    if kind == "sh":  # shares memory with the previous tensor, if any
        return prev.view(prev.shape) if prev is not None else ckpt.seq(2, start=b)
    if kind == "vi":  # same memory, another type
        return prev.reshape(-1).view(torch.int16) if prev is not None and prev.dim() and prev.stride()[-1] == 1 else ckpt.seq(2, torch.int16, start=b)
    if kind == "hd":  # same address, shorter
        return prev.reshape(-1)[:1] if prev is not None and prev.numel() else ckpt.seq(1, start=b)
    if kind == "tl":  # overlapping end
        return prev.reshape(-1)[1:] if prev is not None and prev.numel() else ckpt.seq(1, start=b)
    if kind == "rs":  # same memory, another shape
        return prev.reshape(1, -1) if prev is not None else ckpt.seq(2, start=b).reshape(1, -1)
    if kind == "ex":  # one element seen many times
        return prev.reshape(-1)[:1].expand(3) if prev is not None and prev.numel() else ckpt.seq(1, start=b).expand(3)
    if kind == "b16":
        return ckpt.seq(2, torch.bfloat16, start=b).reshape(2, 1)
    if kind == "i8":
        return ckpt.seq(1, torch.int64, start=b)
    raise KeyError(kind)


def verify(path, want, stem, ext, limit):
    got, info = ckpt.read_dir(path, stem, ext)
    if got is None:
        raise Violation(f"no checkpoint in {sorted(os.listdir(path))}")
    ckpt.compare(got, want, "files")
    n = len(info["files"])
    names = sorted(info["files"])
    present = sorted(f for f in os.listdir(path))
    if info["index"] is None:
        exp = [f"{stem}.{ext}"]
    else:
        if n < 2:
            raise Violation(f"index for {n} shard(s)")
        exp = [f"{stem}-{i + 1:05d}-of-{n:05d}.{ext}" for i in range(n)]
        if names != exp:
            raise Violation(f"shard files {names}, expected {exp}")
        exp = exp + [f"{stem}.{ext}.index.json"]
        total = sum(ckpt.nbytes(t) for t in want.values())
        if info["index"].get("metadata", {}).get("total_size") != total:
            raise Violation(f"total_size {info['index'].get('metadata')}, stored bytes {total}")
    if present != sorted(exp):
        raise Violation(f"directory holds {present}, expected {sorted(exp)}")
    for fn, ts in info["files"].items():
        size = sum(ckpt.nbytes(t) for t in ts.values())
        if limit > 0 and len(ts) > 1 and size > limit:
            raise Violation(f"shard {fn} holds {sorted(ts)} = {size} bytes, limit {limit}")
        extra = [k for k in ts if info["index"] and info["index"]["weight_map"].get(k) != fn]
        if extra:
            raise Violation(f"shard {fn} holds {extra} which the index places elsewhere")
    if stem in ("model", "pytorch_model"):
        for lazy in (True, False) if ext == "bin" else (True,):
            ld = LazyTensorLoader.from_disk(path, lazy_unpickle=lazy)
            if set(ld.index.tensor_paths) != set(want):
                raise Violation(f"loader lists {sorted(ld.index.tensor_paths)}")
            for k in list(want) + list(reversed(list(want))):
                g = ld.get_tensor(k)
                if not ckpt.same(g, want[k]):
                    raise Violation(f"loader (lazy={lazy}) reads {k} as {ckpt.desc(g)}, saved {ckpt.desc(want[k])}")
    return n


def one_history(kinds, limit, safe, use_async, clone, ctx_mgr=False, basename=None, threads=1, mutate=False):
    d = scratch("w")
    try:
        out = os.path.join(d, "x", "out")
        want = {}
        kw = dict(max_shard_size=limit, safe_serialization=safe, use_async=use_async)
        if use_async:
            kw["max_write_threads"] = threads
        if basename:
            kw["override_basename"] = basename
        w = TensorWriter(out, **kw)
        prev = None
        keep = []

        def saves():
            nonlocal prev
            for i, k in enumerate(kinds):
                t = make(k, i, prev)
                want[f"t{i}.weight"] = t.detach().clone()
                w.save_tensor(f"t{i}.weight", t, clone=clone)
                prev = t
                keep.append(t)
                if mutate:
                    t.mul_(3)

        if ctx_mgr:
            with w:
                saves()
        else:
            saves()
            w.finalize()
        stem = basename or ("model" if safe else "pytorch_model")
        return verify(out, want, stem, "safetensors" if safe else "bin", limit)
    finally:
        drop(d)


LIMITS = [0, 1, 8, 12, 16, 10**6, -1]


def gen_hist(tier):
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        kinds = KINDS if n <= 3 else ["f4", "f8", "h6", "sc", "nc", "sh", "e"]
        for ks in itertools.product(kinds, repeat=n):
            yield list(ks)


def run_hist(ks):
    outs, ex = [], 0
    for limit in LIMITS if len(ks) <= 2 else LIMITS[1:6]:
        for safe in (True, False):
            outs.append(one_history(ks, limit, safe, False, False))
            ex += 1
    return Obs((ks, outs), states=len(set(outs)), transitions=ex * (len(ks) + 1), execs=ex)


def gen_share(tier):
    """Every way in which successive tensors can share memory."""
    ks = ["f8", "f12", "nc", "sh", "vi", "hd", "tl", "rs", "ex"]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in itertools.product(ks, repeat=n):
            if c[0] in ("f8", "f12", "nc") and any(k in ks[3:] for k in c[1:]):
                yield list(c)


def run_share(ks):
    outs, ex = [], 0
    for limit, safe, asy, clone in itertools.product((0, 16), (True, False), (False, True), (False, True)):
        if "vi" in ks and not safe and not clone:
            continue  # torch.save refuses one storage under two types, with an error
        outs.append(one_history(ks, limit, safe, asy, clone))
        ex += 1
    return Obs((ks, outs), states=len(set(outs)), transitions=ex * (len(ks) + 1), execs=ex)


def gen_opts(tier):
    top = 2 if tier == "quick" else 3
    for n in range(1, top + 1):
        for ks in itertools.product(["f4", "f8", "nc", "sh", "e"], repeat=n):
            yield list(ks)


def run_opts(ks):
    outs, ex = [], 0
    for limit, safe, asy, clone, cm, base in itertools.product((0, 8, 16), (True, False), (False, True), (False, True), (False, True), (None, "adapter_model")):
        outs.append(one_history(ks, limit, safe, asy, clone, cm, base, threads=2, mutate=clone))
        ex += 1
    return Obs((ks, outs), states=len(set(outs)), transitions=ex * (len(ks) + 1), execs=ex)


def gen_boundary(tier):
    """Sizes around the limit: every pair/triple of sizes vs every limit."""
    sizes = [1, 2, 3] if tier == "quick" else [1, 2, 3, 4]
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for ss in itertools.product(sizes, repeat=n):
            yield list(ss)


def run_boundary(ss):
    outs = []
    for limit in range(3, 4 * sum(ss) + 2):
        if limit % 4 not in (0, 1, 3):
            continue
        d = scratch("w")
        try:
            want = {}
            w = TensorWriter(d, max_shard_size=limit)
            for i, s in enumerate(ss):
                want[f"n{i}"] = ckpt.seq(s, start=10 * i + 1)
                w.save_tensor(f"n{i}", want[f"n{i}"])
            w.finalize()
            outs.append(verify(d, want, "model", "safetensors", limit))
        finally:
            drop(d)
    return Obs((ss, outs), states=len(set(outs)), transitions=len(outs) * (len(ss) + 1), execs=len(outs))


# --- schedules ---------------------------------------------------------------
def gen_sched(tier):
    plans = [
        # saves per saver thread (kinds), limit, safe, async writer threads (0: synchronous)
        [[["f4"], ["f8"]], 4, True, 0],
        [[["f4"], ["f8"]], 4, True, 1],
        [[["f4", "f8"]], 4, True, 1],
        [[["f4", "f8", "h6"]], 4, True, 2],
        [[["f4", "f8"], ["h6"]], 8, True, 1],
        [[["f4"], ["f8"]], 0, False, 1],
    ]
    if tier == "thorough":
        plans += [
            [[["f4", "f8"], ["h6", "f4"]], 4, True, 2],
            [[["f4", "f8"], ["h6", "f4"]], 8, True, 0],
            [[["f4"], ["f8"], ["h6"]], 4, True, 1],
        ]
    for p in plans:
        for mode in ("sync", "line"):
            for k in range(8):
                yield p + [mode, k]


def run_sched(case, bound=None):
    threads, limit, safe, nwriters, mode, part = case
    box = {}

    def mk():
        def body():
            d = box["d"] = scratch("s")
            want = {}
            prepared = []
            i = 0
            for ks in threads:
                row = []
                for k in ks:
                    t = make(k, i, None)
                    row.append((f"t{i}", t))
                    want[f"t{i}"] = t.clone()
                    i += 1
                prepared.append(row)
            box["want"] = want
            kw = dict(max_shard_size=limit, safe_serialization=safe, use_async=nwriters > 0)
            if nwriters:
                kw["max_write_threads"] = nwriters
            w = TensorWriter(d, **kw)
            errs = []

            go = threading.Event()

            def saver(row):
                go.wait()
                try:
                    for name, t in row:
                        w.save_tensor(name, t)
                except Exception as e:
                    errs.append(e)

            if len(prepared) == 1:
                go.set()
                saver(prepared[0])
            else:
                ths = [threading.Thread(target=saver, args=(r,)) for r in prepared]
                for t in ths:
                    t.start()
                go.set()
                for t in ths:
                    t.join()
            if errs:
                raise errs[0]
            w.finalize()

        return body

    def check(x):
        try:
            if x.exc is not None:
                if isinstance(x.exc, Violation):
                    raise x.exc
                raise Violation(f"writing failed with {type(x.exc).__name__}: {x.exc}")
            stem, ext = ("model", "safetensors") if safe else ("pytorch_model", "bin")
            n = verify(box["d"], box["want"], stem, ext, limit)
            return (n, tuple(sorted((k, v) for k, v in (ckpt.read_dir(box["d"], stem, ext)[1]["index"] or {"weight_map": {}})["weight_map"].items())))
        finally:
            drop(box["d"])

    st = sched.explore(mk, check, 2 if mode == "sync" else 1,
                       trace_files=("mergekit/io/tensor_writer.py",) if mode == "line" else (), part=(part, 8),
                       delays=mode == "line")
    return Obs((sorted(st["outcomes"]), st["diverged"]), states=len(st["outcomes"]), transitions=st["points"], execs=st["schedules"])


FAMILIES = [
    Family("histories", gen_hist, run_hist, chunk=4,
           rule="every sequence of <=3 (4) saves over 9 tensor kinds x shard limits x safe/pickle"),
    Family("sharing", gen_share, run_share, chunk=4,
           rule="all sequences of 2-3 (4) tensors over 9 ways of sharing memory with the previous one x limit x format x background x clone"),
    Family("options", gen_opts, run_opts, chunk=1,
           rule="every sequence of <=2 (3) saves x limit x format x background x clone(+later mutation) x context manager x basename"),
    Family("boundary", gen_boundary, run_boundary, chunk=2,
           rule="every sequence of 2-4 (5) sizes 1-3 (4) words x every shard limit around the sums"),
    Family("schedules", gen_sched, run_sched, chunk=1, timeout=1500,
           rule="saver and writer threads: all schedules with <=2 preemptions at synchronisation points, and <=1 delay at every source line of the writer"),
]
