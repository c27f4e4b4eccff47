"""P02: working, stored and output data types of every tensor."""
from __future__ import annotations

import itertools
import os

import torch
import transformers  # noqa: F401

from mc import archdefs, core, e2e, tiny
from mc.ckpt import compare, desc, same
from mc.core import Family, Obs, Violation
from mergekit.architecture import get_architecture_info
from mergekit.config import MergeConfiguration
from mergekit.graph import Executor
from mergekit.io.tasks import LoaderCache
from mergekit.options import MergeOptions
from mergekit.plan import MergePlanner

LEVEL = "model_checking"
ASSUMPTIONS = [
    "values chosen so that every conversion between the types is visible in the bits (rounding, overflow, underflow)",
    "models of different stored types are merged only with a working type set",
]

DT = dict(float32=torch.float32, float16=torch.float16, bfloat16=torch.bfloat16, float64=torch.float64)
NAMES = ["float32", "float16", "bfloat16"]
VALUES = [1 + 2.0**-9, 1 + 2.0**-12, 3.14159265, -0.0625, 70000.0, 65519.0, 65520.0, 1e-8, 6e-8, 1 + 2.0**-8, 257.0, 2049.0, 1.0 / 3.0, -1e-30, 1e30, 0.0]
SOFT = [1 + 2.0**-9, 1 + 2.0**-12, 3.14159265, -0.0625, 257.0, 2049.0, 1.0 / 3.0, 100.1, -7.7, 0.0, 2.5, -1000.3, 0.1, 0.2, 513.0, 12345.0]
SOFT2 = [2.0**-9, 2.0**-11, -1.14159265, 0.3, 1.0, 2.0, 1.0 / 7.0, 0.01, 7.71, 3.0, -0.001, 0.3, 0.7, 0.2, 1.5, 0.5]


def vec(vals, shape, dtype, rot=0):
    n = 1
    for s in shape:
        n *= s
    v = [vals[(i + rot) % len(vals)] for i in range(n)]
    return torch.tensor(v, dtype=torch.float64).reshape(shape).to(dtype)


def model(d, dtypes, vals, cfg_dtype):
    """A one-layer model; dtypes: list cycled over its tensors."""
    ts = {}
    for i, (nm, shape) in enumerate(tiny.llama_shapes(1, h=4, i=4).items()):
        ts[nm] = vec(vals, shape, DT[dtypes[i % len(dtypes)]], i)
    tiny.write_model(d, tiny.llama_config(1, h=4, i=4, dtype=cfg_dtype), ts)
    return ts


def in_memory(cfg):
    c = MergeConfiguration.model_validate(cfg)
    o = MergeOptions(quiet=True)
    LoaderCache().setup(o)
    tasks = MergePlanner(c, get_architecture_info(c, o), o, c.referenced_models()[0].config()).plan_in_memory()
    return {t.weight_info.name: v for t, v in Executor(tasks, "cpu", "cpu").run(quiet=True)}


def gen_single(tier):
    stored = [["float32"], ["float16"], ["bfloat16"], ["float32", "float16", "bfloat16"], ["float64", "bfloat16"], ["float64"]]
    for st, w, o in itertools.product(stored, [None] + NAMES, [None] + NAMES):
        for how in ("passthrough", "scale", "linear", "memory", "task_arithmetic", "async", "pickle"):
            yield [st, w, o, how]


def run_single(case):
    st, w, o, how = case
    vals = VALUES if how not in ("linear", "task_arithmetic") else SOFT
    root, T = e2e.per_process("p02s-" + "-".join(st) + str(len(vals)) + str(vals is SOFT), lambda d: model(os.path.join(d, "m"), st, vals, st[0]))
    m = os.path.join(root, "m")
    cfg = dict(merge_method=how if how in ("linear", "task_arithmetic") else "passthrough", models=[dict(model=m, parameters=dict(weight=1.0))])
    if how == "task_arithmetic":
        cfg["base_model"] = m
    if how == "scale":
        cfg["models"][0]["parameters"] = dict(scale=3.0)
    if w:
        cfg["dtype"] = w
    if o:
        cfg["out_dtype"] = o
    want = {}
    for nm, x in T.items():
        y = x.to(DT[w]) if w else x
        if how == "scale":
            y = y * 3.0
        want[nm] = y.to(DT[o]) if o else y
    if how == "memory":
        compare(in_memory(cfg), want, str(case))
        return Obs(case)
    extra = dict(async_write=True) if how == "async" else dict(safe_serialization=False) if how == "pickle" else {}
    got, c = e2e.merge(cfg, **extra)
    compare(got, want, str(case))
    rec = c.get("dtype", c.get("torch_dtype"))
    if rec != (o or w or st[0]):
        raise Violation(f"{case}: config records {rec}, expected {o or w or st[0]}")
    return Obs(case, states=len(got))


def gen_pair(tier):
    for a, b, w, o in itertools.product(NAMES + ["float64"], NAMES + ["float64"], [None] + NAMES, [None] + NAMES):
        if a != b and w is None:
            continue
        for method in ("linear", "task_arithmetic", "slices"):
            yield [a, b, w, o, method]


def run_pair(case):
    """Two models: arithmetic happens in the working type, the result is converted once more when saved."""
    a, b, w, o, method = case
    root, T = e2e.per_process(f"p02p-{a}-{b}", lambda d: dict(a=model(os.path.join(d, "a"), [a], SOFT, a), b=model(os.path.join(d, "b"), [b], SOFT2, b)))
    A, B = os.path.join(root, "a"), os.path.join(root, "b")
    cfg = dict(merge_method=method)
    if method == "linear":
        cfg.update(models=[dict(model=A, parameters=dict(weight=1.0)), dict(model=B, parameters=dict(weight=1.0))], parameters=dict(normalize=False))
    elif method == "slices":
        cfg.update(merge_method="passthrough", slices=[dict(sources=[dict(model=A, layer_range=[0, 1])]), dict(sources=[dict(model=B, layer_range=[0, 1])])])
    else:
        cfg.update(base_model=A, models=[dict(model=B, parameters=dict(weight=1.0))])
    if w:
        cfg["dtype"] = w
    if o:
        cfg["out_dtype"] = o
    got, c = e2e.merge(cfg)
    want = {}
    for nm in T["a"]:
        x, y = (T[k][nm].to(DT[w]) if w else T[k][nm] for k in "ab")
        if method == "linear":
            r = (x.double() + y.double()).to(x.dtype)
        elif method == "task_arithmetic":
            r = x + (y - x)
        else:
            r = None
        want[nm] = r
    if method == "slices":
        want = {nm: (T["a"][nm].to(DT[w]) if w else T["a"][nm]) for nm in T["a"] if "layers" in nm or "embed" in nm}
        for nm in T["b"]:
            t = T["b"][nm].to(DT[w]) if w else T["b"][nm]
            if "layers" in nm:
                want[nm.replace("layers.0", "layers.1")] = t
            elif "embed" not in nm:
                want[nm] = t
    if o:
        want = {k: v.to(DT[o]) for k, v in want.items()}
    compare(got, want, str(case))
    rec = c.get("dtype", c.get("torch_dtype"))
    if rec != (o or w or a):
        raise Violation(f"{case}: config records {rec}, expected {o or w or a}")
    return Obs(case, states=len(got))


BERT_CFG = dict(architectures=["BertModel"], model_type="bert", hidden_size=2, num_attention_heads=1, intermediate_size=3, vocab_size=4, type_vocab_size=2,
                max_position_embeddings=4)
METHODS = {
    # name: (number of models besides the base, base needed, parameters)
    "linear": (2, False, {}), "slerp": (1, True, dict(t=0.3)), "nuslerp": (2, False, {}), "passthrough": (1, False, {}), "model_stock": (2, True, {}),
    "arcee_fusion": (1, True, {}), "karcher": (2, False, {}), "task_arithmetic": (2, True, {}), "ties": (2, True, dict(density=0.5)),
    "dare_ties": (2, True, dict(density=0.5)), "dare_linear": (2, True, dict(density=0.5)), "breadcrumbs": (2, True, dict(density=0.5, gamma=0.1)),
    "breadcrumbs_ties": (2, True, dict(density=0.5, gamma=0.1)), "della": (2, True, dict(density=0.5, epsilon=0.1)),
    "della_linear": (2, True, dict(density=0.5, epsilon=0.1)), "multislerp": (2, False, {}), "nearswap": (1, True, dict(t=0.5)), "ram": (2, True, {}),
    "ramplus_tl": (2, True, {}), "sce": (2, True, dict(select_topk=0.5)),
}


def gen_methods(tier):
    for m in METHODS:
        for st, w, o in itertools.product(NAMES, [None] + NAMES, [None] + NAMES):
            yield [m, st, w, o]


def run_methods(case):
    """Every method: working type in, output type out; nothing else sneaks in."""
    m, st, w, o = case
    k, base, params = METHODS[m]
    root, T = e2e.per_process(f"p02m-{st}", lambda d: {t: model(os.path.join(d, t), [st], v, st) for t, v in
                                                      (("a", SOFT), ("b", SOFT2), ("c", [x * 0.5 + 1 for x in SOFT]))})
    ms = "abc"[: k + (1 if base else 0)]
    cfg = dict(merge_method=m, models=[dict(model=os.path.join(root, t), parameters=dict(weight=0.6)) for t in ms], parameters=dict(params))
    if base:
        cfg["base_model"] = os.path.join(root, "a")
    if w:
        cfg["dtype"] = w
    if o:
        cfg["out_dtype"] = o
    got, c = e2e.merge(cfg, random_seed=1)
    for nm, x in got.items():
        if x.dtype != DT[o or w or st]:
            raise Violation(f"{case}: {nm} has type {x.dtype}")
        if x.shape != T["a"][nm].shape:
            raise Violation(f"{case}: {nm} has shape {tuple(x.shape)}")
    if set(got) != set(T["a"]):
        raise Violation(f"{case}: tensors {sorted(got)}")
    rec = c.get("dtype", c.get("torch_dtype"))
    if rec != (o or w or st):
        raise Violation(f"{case}: config records {rec}")
    return Obs(case, states=len(got))


def gen_forced(tier):
    for m in METHODS:
        for w, o in itertools.product([None] + NAMES, repeat=2):
            for memory in (False, True):
                yield [m, w, o, memory]


def make_bert(d):
    pre, layers, post = archdefs.expand("", archdefs.load("bert"), 1)
    res = {}
    for t in "abc":
        ts = {}
        for w in pre + layers[0] + post:
            if w.get("force_dtype"):
                ts[w["name"]] = torch.tensor([[0, 1, 2, 513, 100003]])
            else:
                ts[w["name"]] = tiny.value(t, w["name"], (4, 3))
        res[t] = ts
        tiny.write_model(os.path.join(d, t), dict(BERT_CFG, num_hidden_layers=1, dtype="float32"), ts)
    return res


def run_forced(case):
    """An integer tensor whose type the architecture forces keeps type and (equal in all models) value."""
    m, w, o, memory = case
    k, base, params = METHODS[m]
    root, T = e2e.per_process("p02b", make_bert)
    ms = "abc"[: k + (1 if base else 0)]
    cfg = dict(merge_method=m, models=[dict(model=os.path.join(root, t), parameters=dict(weight=0.5)) for t in ms], parameters=dict(params))
    if base:
        cfg["base_model"] = os.path.join(root, "a")
    if w:
        cfg["dtype"] = w
    if o:
        cfg["out_dtype"] = o
    try:
        got = in_memory(cfg) if memory else e2e.merge(cfg, random_seed=1)[0]
    except (NotImplementedError, RuntimeError) as e:
        if "Long" in str(e) or "only support floating point" in str(e):
            raise Violation(f"{case}: the int64 tensor cannot be merged: {e}", key=f"forced-int64-error-{m}")
        raise
    for nm, x in T["a"].items():
        if x.dtype == torch.int64:
            if got[nm].dtype != torch.int64 or not same(got[nm], x):
                raise Violation(f"{case}: {nm} is {desc(got[nm])}, every model has {desc(x)}")
        elif got[nm].dtype != DT[o or w or "float32"]:
            raise Violation(f"{case}: {nm} has type {got[nm].dtype}")
    return Obs(case, states=len(got))


FAMILIES = [
    Family("single", gen_single, run_single, rule="stored types (also mixed) x dtype x out_dtype x 7 ways of merging one model"),
    Family("pair", gen_pair, run_pair, rule="two stored types x dtype x out_dtype x 3 methods"),
    Family("methods", gen_methods, run_methods, rule="20 methods x stored x dtype x out_dtype"),
    Family("forced", gen_forced, run_forced, rule="int64 position ids x 20 methods x dtype x out_dtype, to disk and in memory"),
]
