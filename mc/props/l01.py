"""L01: every read of a checkpoint returns the stored tensor: all layouts, all short read histories."""
from __future__ import annotations

import collections
import itertools
import json
import os

import safetensors.torch
import torch
import transformers  # noqa: F401

from mc import ckpt
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex
from mergekit.io.loader import TensorLoader

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the index of a sharded checkpoint describes its files truthfully",
    "bounds: read histories of 4 (5) operations; tensors of at most 8 elements",
    "a pickle layout outside the lazy reader's vocabulary may be refused with an error, never misread",
]

DTYPES = {"f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16, "f64": torch.float64, "i64": torch.int64,
          "i32": torch.int32, "i16": torch.int16, "i8": torch.int8, "u8": torch.uint8, "bool": torch.bool}
ODD = {"f8": torch.float8_e4m3fn, "c64": torch.complex64, "u16": torch.uint16}
VIEWS = ["plain0", "plain1", "scalar", "empty", "empty2", "one", "mat", "cube", "t", "off", "step", "expand", "col", "diag", "rev_off", "chan"]


def view(kind, dt):
    base = ckpt.seq(12, dt) if dt not in (torch.float8_e4m3fn,) else ckpt.seq(12).to(dt)
    if kind == "plain0":
        return base.clone()
    if kind == "plain1":
        return base[:3].clone()
    if kind == "scalar":
        return base[3].clone()
    if kind == "empty":
        return base[:0].clone()
    if kind == "empty2":
        return base[:0].clone().reshape(2, 0)
    if kind == "one":
        return base[5:6].clone().reshape(1, 1)
    if kind == "mat":
        return base.reshape(3, 4)
    if kind == "cube":
        return base.reshape(2, 2, 3)
    if kind == "t":
        return base.reshape(3, 4).t()
    if kind == "off":
        return base[4:9]
    if kind == "step":
        return base[1:10:3]
    if kind == "expand":
        return base[2:3].expand(4)
    if kind == "col":
        return base.reshape(3, 4)[:, 1]
    if kind == "diag":
        return base[:9].reshape(3, 3).diagonal()
    if kind == "rev_off":
        return base[11]
    if kind == "chan":
        return base.reshape(1, 2, 2, 3).permute(0, 3, 1, 2)
    raise KeyError(kind)


def read_all(loader, names):
    return {n: loader.get_tensor(n).clone() for n in names}


def lazy_or_refuse(path, names):
    """Tensors as the lazy reader gives them, or None if it refuses the file."""
    try:
        ld = LazyTensorLoader(ShardedTensorIndex.from_file(path), lazy_unpickle=True)
        return {n: ld.get_tensor(n) for n in names}
    except Exception as e:
        return e


# every plain contiguous, offset or strided tensor of these types is within the lazy reader's vocabulary
def gen_layout(tier):
    for dt in list(DTYPES) + list(ODD):
        for v in VIEWS:
            yield [dt, v]


def run_layout(case):
    dt, v = case
    dtype = DTYPES.get(dt) or ODD[dt]
    t = view(v, dtype)
    want = t.detach().clone()
    d = scratch("l")
    n = 0
    outs = []
    try:
        stores = {
            "dict": lambda p: torch.save({"pre": torch.ones(1), "x": t, "post": torch.zeros(2)}, p),
            "odict": lambda p: torch.save(collections.OrderedDict([("x", t)]), p),
            "shared": lambda p: torch.save({"x": t, "y": t, "z": t.reshape(-1)[:1]}, p),
            "grad": lambda p: torch.save({"x": t.detach().clone().requires_grad_()}, p),
            "param": lambda p: torch.save({"x": torch.nn.Parameter(t.detach().clone())}, p),
            "legacy": lambda p: torch.save({"x": t}, p, _use_new_zipfile_serialization=False),
            "wrapped": lambda p: torch.save({"state_dict": {"x": t, "w": torch.ones(2)}}, p),
        }
        if not (dtype.is_floating_point or dtype.is_complex):
            stores.pop("grad"), stores.pop("param")
        for name, save in stores.items():
            p = os.path.join(d, f"{name}.bin")
            save(p)
            for lazy in (False, True):
                n += 1
                try:
                    ld = LazyTensorLoader(ShardedTensorIndex.from_file(p), lazy_unpickle=lazy)
                    got = ld.get_tensor("x")
                    again = ld.get_tensor("x")
                except Exception as e:
                    must = dt in DTYPES and (not lazy or name in ("dict", "odict", "shared", "wrapped"))
                    if must:
                        raise Violation(f"{name} file, lazy={lazy}: reading {ckpt.desc(want)} (view {v}) fails with {type(e).__name__}: {e}")
                    outs.append((name, lazy, "refused"))
                    continue
                for g in (got, again):
                    if not ckpt.same(g.detach(), want):
                        raise Violation(f"{name} file, lazy={lazy}: read {ckpt.desc(g)}, stored {ckpt.desc(want)} (view {v})")
                outs.append((name, lazy, "ok"))
        # safetensors
        p = os.path.join(d, "x.safetensors")
        try:
            safetensors.torch.save_file({"pre": torch.ones(1), "x": t.contiguous().clone()}, p)
        except Exception:
            p = None
        if p:
            n += 1
            ld = LazyTensorLoader(ShardedTensorIndex.from_file(p))
            g = ld.get_tensor("x")
            if not ckpt.same(g, want):
                raise Violation(f"safetensors: read {ckpt.desc(g)}, stored {ckpt.desc(want)}")
        return Obs((case, outs), states=len(outs), transitions=2 * n, execs=n)
    finally:
        drop(d)


# --- views into one storage, read in every order ---
def gen_spans(tier):
    spans = [(o, l) for o in range(4) for l in range(0, 5 - o)]
    k = 2 if tier == "quick" else 3
    for vs in itertools.combinations(spans, k):
        yield [list(map(list, vs))]


def run_spans(case):
    spans = case[0]
    d = scratch("v")
    try:
        base = ckpt.seq(4, torch.float32)
        other = ckpt.seq(3, torch.float16, start=50)
        ts = {f"v{i}": base[o:o + l] for i, (o, l) in enumerate(spans)}
        ts["o"] = other
        p = os.path.join(d, "pytorch_model.bin")
        torch.save(ts, p)
        names = list(ts)
        n = 0
        for order in itertools.product(names, repeat=3):
            ld = TensorLoader.get(p, use_lazy_unpickle=True)
            for nm in order:
                g = ld.get_tensor(nm)
                if not ckpt.same(g, ts[nm]):
                    raise Violation(f"views {spans} of one storage, reads {order}: {nm} is {ckpt.desc(g)}, stored {ckpt.desc(ts[nm])}")
            n += 1
        return Obs((case, n), states=n, transitions=3 * n, execs=n)
    finally:
        drop(d)


# --- views far apart in a large storage, around the sizes at which reading is buffered ---
MARKS = [0, 1, 1023, 1024, 4096, 16383, 16384, 16385, 65536, 262143, 262144, 300000]


def gen_far(tier):
    k = 2 if tier == "quick" else 3
    for ms in itertools.permutations(MARKS, k):
        yield list(ms)


def far_fixture(d):
    base = torch.arange(300004, dtype=torch.float32)
    ts = {f"m{m}": base[m:m + 3] for m in MARKS}
    p = os.path.join(d, "pytorch_model.bin")
    torch.save(ts, p)
    return p, ts


_far = {}


def run_far(ms):
    if os.getpid() not in _far:
        _far[os.getpid()] = far_fixture(scratch("f"))
    p, ts = _far[os.getpid()]
    ld = TensorLoader.get(p, use_lazy_unpickle=True)
    for m in ms:
        g = ld.get_tensor(f"m{m}")
        if not ckpt.same(g, ts[f"m{m}"]):
            raise Violation(f"reads at elements {ms} of a large storage: at {m} got {ckpt.desc(g)}, stored {ckpt.desc(ts[f'm{m}'])}")
    return Obs(ms, transitions=len(ms))


# --- read histories ---
TENS = {
    "a.weight": ckpt.seq(3, torch.float32, 1), "b.weight": ckpt.seq(4, torch.float16, 10).reshape(2, 2),
    "c.weight": ckpt.seq(2, torch.int64, 20), "d.weight": torch.tensor(7.5), "b": ckpt.seq(2, torch.bfloat16, 30),
}
SHARDS = [["a.weight", "b.weight"], ["c.weight", "b"], ["d.weight"]]
FORMATS = ["st1", "st3", "bin1", "bin3", "bin1e", "bin3e"]


def make_ckpt(d, fmt):
    safe = fmt.startswith("st")
    stem, ext = ("model", "safetensors") if safe else ("pytorch_model", "bin")
    save = (lambda ts, p: safetensors.torch.save_file(ts, p)) if safe else torch.save
    if "1" in fmt:
        save(dict(TENS), os.path.join(d, f"{stem}.{ext}"))
    else:
        wm = {}
        for i, names in enumerate(SHARDS):
            fn = f"{stem}-{i + 1:05d}-of-{len(SHARDS):05d}.{ext}"
            save({n: TENS[n] for n in names}, os.path.join(d, fn))
            wm.update({n: fn for n in names})
        json.dump({"metadata": {}, "weight_map": wm}, open(os.path.join(d, f"{stem}.{ext}.index.json"), "w"))


# op: (key, aliases, raise_on_missing) or "flush"
OPS = [
    ("a.weight", None, True), ("b.weight", None, True), ("c.weight", None, True), ("d.weight", None, True), ("b", ["a.weight"], True),
    ("zz", None, True), ("zz", None, False), ("zz", ["yy", "c.weight", "a.weight"], True), ("zz", ["d.weight", "yy"], False),
    ("a.weight", ["c.weight"], False), ("a", ["weight"], False), ("zz", ["yy"], True), "flush",
]


def oracle(op):
    key, aliases, rais = op
    for k in [key] + list(aliases or []):
        if k in TENS:
            return TENS[k]
    return KeyError if rais else None


def gen_reads(tier):
    length = 4 if tier == "quick" else 5
    for fmt in FORMATS:
        for first in itertools.product(range(len(OPS)), repeat=length - 1):
            yield [fmt, list(first)]


_dirs = {}


def get_dir(fmt):
    key = (os.getpid(), fmt)
    if key not in _dirs:
        _dirs[key] = scratch("k")
        make_ckpt(_dirs[key], fmt)
    return _dirs[key]


def step(ld, op, hist):
    if op == "flush":
        ld.flush()
        return "f"
    key, aliases, rais = op
    want = oracle(op)
    try:
        got = ld.get_tensor(key, aliases=aliases, raise_on_missing=rais)
    except KeyError:
        if want is not KeyError:
            raise Violation(f"history {hist}: {op} reported missing, stored as {want if want is None else ckpt.desc(want)}")
        return "k"
    if want is KeyError or want is None:
        if got is not None or want is KeyError:
            raise Violation(f"history {hist}: {op} gave {got if got is None else ckpt.desc(got)} although absent")
        return "n"
    if got is None or not ckpt.same(got, want):
        raise Violation(f"history {hist}: {op} gave {ckpt.desc(got)}, stored {ckpt.desc(want)}")
    return ckpt.desc(got)


def run_reads(case):
    fmt, first = case
    d = get_dir(fmt)
    outs = set()
    n = 0
    for last in range(len(OPS)):
        seq = first + [last]
        ld = LazyTensorLoader.from_disk(d, lazy_unpickle=not fmt.endswith("e"))
        if sorted(ld.index.tensor_paths) != sorted(TENS):
            raise Violation(f"{fmt}: index lists {sorted(ld.index.tensor_paths)}")
        hist = []
        for i in seq:
            hist.append(OPS[i])
            outs.add((i, step(ld, OPS[i], (fmt, hist))))
        n += 1
    return Obs((case, len(outs)), states=len(outs), transitions=n * len(seq), execs=n)


def gen_names(tier):
    yield from ["model.safetensors", "pytorch_model.bin", "x.pt", "y.pth", "Z.SafeTensors", "my.model.v1.bin", "a b.bin", "archive.bin", "ü.bin", "no_ext"]


def run_names(fn):
    """File naming: any file name, also after renaming, lazily and eagerly; the order of the shard list."""
    d = scratch("n")
    try:
        p = os.path.join(d, fn)
        src = os.path.join(d, "first_name.tmp")
        n = 0
        for rename in (False, True):
            for names in itertools.permutations(["a.weight", "c.weight", "d.weight"]):
                ts = {k: TENS[k] for k in names}
                target = src if rename else p
                if fn.lower().endswith(".safetensors"):
                    safetensors.torch.save_file(ts, target)
                else:
                    torch.save(ts, target)
                if rename:
                    os.replace(src, p)
                for lazy in (True, False):
                    ld = LazyTensorLoader(ShardedTensorIndex.from_file(p), lazy_unpickle=lazy)
                    ckpt.compare({k: ld.get_tensor(k) for k in ld.index.tensor_paths}, ts, f"{fn} rename={rename} lazy={lazy}")
                    n += 1
        return Obs((fn, n), states=1, transitions=3 * n, execs=n)
    finally:
        drop(d)


def gen_dirs(tier):
    """Which of several checkpoint files in a directory are read."""
    for have in itertools.product((0, 1), repeat=4):
        yield list(have)


def run_dirs(case):
    d = scratch("p")
    try:
        val = {}
        for (i, fn), h in zip(enumerate(["model.safetensors", "model.safetensors.index.json", "pytorch_model.bin", "pytorch_model.bin.index.json"]), case):
            if not h:
                continue
            t = {"x": torch.tensor([float(i)])}
            val[i] = float(i)
            p = os.path.join(d, fn)
            if fn.endswith(".safetensors"):
                safetensors.torch.save_file(t, p)
            elif fn.endswith(".bin"):
                torch.save(t, p)
            elif i == 1:
                safetensors.torch.save_file(t, os.path.join(d, "s.safetensors"))
                json.dump({"weight_map": {"x": "s.safetensors"}}, open(p, "w"))
            else:
                torch.save(t, os.path.join(d, "s.bin"))
                json.dump({"weight_map": {"x": "s.bin"}}, open(p, "w"))
        try:
            ld = LazyTensorLoader.from_disk(d)
        except RuntimeError:
            if val:
                raise Violation(f"a directory holding {os.listdir(d)} is not recognised")
            return Obs((case, None))
        if not val:
            raise Violation("an empty directory loads")
        # safetensors are preferred to pickles (documented order); within one format index and file describe one model
        got = ld.get_tensor("x").item()
        ok = [v for i, v in val.items() if i < 2] or list(val.values())
        if got not in ok:
            raise Violation(f"with {sorted(os.listdir(d))} the loader reads {got}, expected one of {ok}")
        return Obs((case, got))
    finally:
        drop(d)


FAMILIES = [
    Family("layouts", gen_layout, run_layout, rule="13 types x 16 shapes/strides/offsets x 8 containers x lazy/eager"),
    Family("spans", gen_spans, run_spans, rule="all pairs (triples) of views of a 4-element storage x all read orders of 3"),
    Family("far", gen_far, run_far, rule="all orders of reading 2 (3) of 12 views at buffer-size boundaries of a 1.2 MB storage"),
    Family("histories", gen_reads, run_reads, rule="all sequences of 4 (5) of 13 operations (reads, aliases, misses, flush) x 6 formats"),
    Family("filenames", gen_names, run_names, rule="10 file names x all tensor orders x renamed or not x lazy/eager"),
    Family("directories", gen_dirs, run_dirs, rule="all subsets of the 4 entry files"),
]
