"""S06: adapters named in a merge: applied exactly, never mixed up, also after crashes and at once in two processes."""
from __future__ import annotations

import itertools
import json
import math
import os

from mc import core, crash

crash.ensure_preloaded()
os.environ["HF_HOME"] = os.path.join(core._scratch_root or "/nonexistent", "hf")
os.environ["HF_HUB_OFFLINE"] = "1"

import huggingface_hub.constants
import safetensors.torch
import torch

from mc import ckpt, e2e, tiny
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mc.props.s03 import hush
from mergekit.common import ModelReference
from mergekit.io.tasks import LoaderCache
from mergekit.options import MergeOptions

LEVEL = "model_checking"
ASSUMPTIONS = [
    "adapters are LoRA adapters as written by peft; tiny llama models, 1-2 layers",
    "crash points: every file-system operation below the cache directory (process death, torn writes, failing operations)",
    "the cache identifies a model by its name and revision: files changed in place under the same name are not covered",
    "model hub repositories are simulated by an offline hub cache",
]
DT = {None: None, "float32": torch.float32, "bfloat16": torch.bfloat16, "float16": torch.float16}
L = "base_model.model."


# ---------------------------------------------------------------- models and adapters
def base_model(d, tag, layers=1, dtype=torch.float32, fmt="safetensors", tied=False):
    tiny.make_llama(d, tag, layers, dtype, vocab=4, h=2, i=3, lm_head=not tied, fmt=fmt)
    return tiny.llama_tensors(tag, layers, dtype, vocab=4, h=2, i=3, lm_head=not tied)


def small(tag, name, shape):
    """Integers between -2 and 2."""
    t = tiny.value(tag, name, shape)
    return (t * 4).remainder(5) - 2


ADAPTERS = {  # rank, alpha, options, adapted modules, modules saved in full
    "plain": (1, 2, {}, ["q_proj"], []),
    "wide": (2, 2, {}, ["q_proj", "v_proj", "down_proj", "gate_proj"], []),
    "rs": (4, 4, {"use_rslora": True}, ["o_proj", "up_proj"], []),
    "half": (2, 1, {}, ["k_proj", "o_proj"], []),
    "embed": (1, 1, {}, ["embed_tokens", "q_proj"], []),
    "head": (1, 2, {}, ["lm_head", "v_proj"], []),
    "full": (1, 1, {}, ["q_proj"], ["lm_head"]),
    "fullembed": (1, 1, {}, ["down_proj"], ["embed_tokens", "lm_head"]),
    "layer": (1, 3, {"layers_to_transform": [0]}, ["q_proj", "up_proj"], []),
    "alphas": (1, 3, {"alpha_pattern": {"q_proj": 5}, "rank_pattern": {"up_proj": 2}}, ["q_proj", "up_proj"], []),
    "conv": (1, 2, {"lora_bias": False, "inference_mode": True}, ["q_proj", "k_proj", "v_proj", "o_proj", "gate_proj", "up_proj", "down_proj"], []),
}


def adapter(d, kind, tag, shapes, layers=1):
    """Write an adapter -> {name: delta or ("=", tensor)}"""
    r0, alpha0, extra, targets, full = ADAPTERS[kind]
    os.makedirs(d, exist_ok=True)
    conf = dict(peft_type="LORA", task_type="CAUSAL_LM", base_model_name_or_path="x", r=r0, lora_alpha=alpha0, lora_dropout=0.0,
                target_modules=targets, modules_to_save=full or None, bias="none", fan_in_fan_out=False, inference_mode=True, **{k: v for k, v in extra.items() if k != "inference_mode"})
    with open(os.path.join(d, "adapter_config.json"), "w") as f:
        json.dump(conf, f)
    sd, res = {}, {}
    for name, shape in shapes.items():
        mod = name.removesuffix(".weight")
        leaf = mod.split(".")[-1]
        if leaf in full:
            t = tiny.value(f"full{tag}", name, shape)
            sd[f"{L}{mod}.weight"] = t
            res[name] = ("=", t)
            continue
        if leaf not in targets:
            continue
        if "layers_to_transform" in extra and not any(f"layers.{i}." in name for i in extra["layers_to_transform"]):
            continue
        r = extra.get("rank_pattern", {}).get(leaf, r0)
        alpha = extra.get("alpha_pattern", {}).get(leaf, alpha0)
        scale = alpha / (math.sqrt(r) if extra.get("use_rslora") else r)
        if leaf == "embed_tokens":
            a, b = small(f"A{tag}", name, (r, shape[0])), small(f"B{tag}", name, (shape[1], r))
            sd[f"{L}{mod}.lora_embedding_A"], sd[f"{L}{mod}.lora_embedding_B"] = a, b
            res[name] = scale * (b.double() @ a.double()).T
        else:
            a, b = small(f"A{tag}", name, (r, shape[1])), small(f"B{tag}", name, (shape[0], r))
            sd[f"{L}{mod}.lora_A.weight"], sd[f"{L}{mod}.lora_B.weight"] = a, b
            res[name] = scale * (b.double() @ a.double())
    if not res:
        raise HarnessError("adapter adapts nothing")
    safetensors.torch.save_file({k: v.contiguous() for k, v in sd.items()}, os.path.join(d, "adapter_model.safetensors"), metadata={"format": "pt"})
    return res


def expected(base, delta, dtype):
    res = {}
    for n, t in base.items():
        dt = DT[dtype] or t.dtype
        v = t.double()
        if n in delta:
            v = delta[n][1].double() if isinstance(delta[n], tuple) else v + delta[n]
        res[n] = v.to(dt)
    return res


def compare(got, want, what):
    if set(got) != set(want):
        raise Violation(f"{what}: tensors {sorted(set(got) ^ set(want))} missing or unexpected")
    for n, w in want.items():
        g = got[n]
        if g.dtype != w.dtype or g.shape != w.shape:
            raise Violation(f"{what}: {n} is {ckpt.desc(g)}, expected {ckpt.desc(w)}")
        err = (g.double() - w.double()).abs().max()
        if not err <= 4 * torch.finfo(w.dtype).eps * max(1.0, float(w.double().abs().max())):
            raise Violation(f"{what}: {n} is {g.tolist()}, expected {w.tolist()}")


def load(ref, cache, dtype):
    """What a merge would read for this reference."""
    with hush():
        lc = LoaderCache()
        lc.setup(MergeOptions(lora_merge_cache=cache, lora_merge_dtype=dtype))
        loader = lc.get(ref)
        res = {n: loader.get_tensor(n).clone() for n in loader.index.tensor_paths}
        lc.loaders.clear()
    return res


# ---------------------------------------------------------------- one adapter
def gen_apply(tier):
    layouts = [(dt, fmt, tied, n) for dt in ("float32", "bfloat16") for fmt in ("safetensors", "bin") for tied in (False, True) for n in (1, 2)]
    for kind in ADAPTERS:
        for lay in layouts:
            if lay[2] and any("lm_head" in x or "embed_tokens" in x for x in ADAPTERS[kind][3:5]):
                continue  # no own output weights to adapt
            for dtype in DT:
                for how in ("read", "merge"):
                    if tier == "quick" and how == "merge" and lay[1] == "bin":
                        continue
                    yield dict(kind=kind, layout=list(lay), dtype=dtype, how=how)


def run_apply(case):
    dt, fmt, tied, n = case["layout"]
    d = scratch("l")
    try:
        base = base_model(f"{d}/base", "b", n, DT[dt], fmt, tied)
        delta = adapter(f"{d}/ad", case["kind"], "l", {k: tuple(v.shape) for k, v in base.items()}, n)
        want = expected(base, delta, case["dtype"])
        ref = f"{d}/base+{d}/ad"
        if case["how"] == "read":
            got = load(ModelReference.parse(ref), f"{d}/cache", case["dtype"])
            compare(got, want, f"{case}")
        else:
            plain = base_model(f"{d}/other", "o", n, DT[dt], fmt, tied)
            c = dict(merge_method="linear", dtype="float32", models=[dict(model=ref, parameters=dict(weight=2.0)), dict(model=f"{d}/other", parameters=dict(weight=1.0)),
                                                                    dict(model=f"{d}/base", parameters=dict(weight=-1.0))], parameters=dict(normalize=False))
            with hush():
                got, cfg = e2e.merge(c, f"{d}/out", keep=True, lora_merge_cache=f"{d}/cache", lora_merge_dtype=case["dtype"])[:2]
            full = {k: 2 * want[k].double() + plain[k].double() - base[k].double() for k in want}
            if set(got) != set(full):
                raise Violation(f"{case}: tensors {sorted(set(got) ^ set(full))} missing or unexpected")
            eps = 4 * torch.finfo(DT[case["dtype"]] or DT[dt]).eps
            for k in full:
                if not (got[k].double() - full[k]).abs().max() <= eps * max(8.0, 2 * float(want[k].double().abs().max())):
                    raise Violation(f"{case}: {k} is {got[k].tolist()}, expected {full[k].tolist()}")
        return Obs(case, transitions=len(want))
    finally:
        drop(d)


# ---------------------------------------------------------------- histories
def hub(name, revisions):
    d = os.path.join(huggingface_hub.constants.HF_HUB_CACHE, "models--" + name.replace("/", "--"))
    res = {}
    for i, (rev, make) in enumerate(revisions.items()):
        sha = f"{i + 1:040x}"
        os.makedirs(f"{d}/refs", exist_ok=True)
        with open(f"{d}/refs/{rev}", "w") as f:
            f.write(sha)
        res[rev] = make(f"{d}/snapshots/{sha}")
    return res


def colliding(d):
    """Two names below d with equal CRC-32 (of the whole path and of the name)."""
    import zlib
    seen = {}
    for i in itertools.count():
        p = f"{d}/{i:08x}{'abcdefgh'[i % 8]}/m"
        c = zlib.crc32(p.encode())
        if c in seen:
            return seen[c], p
        seen[c] = p


_uses = {}


def world():
    """Models and adapters, made once and inherited by all workers."""
    if "w" in _uses:
        return _uses["w"]
    d = os.path.join(core._scratch_root, "world")
    if not huggingface_hub.constants.HF_HUB_CACHE.startswith(core._scratch_root):
        raise HarnessError(f"hub cache at {huggingface_hub.constants.HF_HUB_CACHE}")
    m = {}
    for key in ("p/m", "q/m"):
        m[f"{d}/{key}"] = base_model(f"{d}/{key}", key)
    for i, p in enumerate(colliding(f"{d}/c")):
        m[p] = base_model(p, f"collision{i}")
    for rev, ts in hub("org/m", {"main": lambda p: base_model(p, "main"), "r2": lambda p: base_model(p, "r2")}).items():
        m["org/m" if rev == "main" else f"org/m@{rev}"] = ts
    for rev, ts in hub("org2/m", {"main": lambda p: base_model(p, "org2")}).items():
        m["org2/m"] = ts
    shapes = tiny.llama_shapes(1)
    a = {f"{d}/{k}": adapter(f"{d}/{k}", kind, k, shapes) for k, kind in (("p/l", "plain"), ("q/l", "plain"), ("p/wide", "wide"))}
    for rev, x in hub("org/l", {"main": lambda p: adapter(p, "plain", "lm", shapes), "v2": lambda p: adapter(p, "half", "lv", shapes)}).items():
        a["org/l" if rev == "main" else f"org/l@{rev}"] = x
    cp = [p for p in m if p.startswith(f"{d}/c/")]
    uses = [(x, f"{d}/p/l", t) for x in (f"{d}/p/m", f"{d}/q/m", *cp) for t in ("float32", "bfloat16")]
    uses += [(f"{d}/p/m", y, t) for y in (f"{d}/q/l", f"{d}/p/wide") for t in ("float32", "float16")]
    uses += [("org/m", "org/l", "float32"), ("org/m@r2", "org/l", "float32"), ("org/m", "org/l@v2", "float32"), ("org/m@r2", "org/l@v2", None), ("org2/m", "org/l", None),
             (f"{d}/p/m", f"{d}/p/l", None), (f"{d}/p/m", f"{d}/p/l", "float16"), (f"{d}/p/m", f"{d}/p/l", "torch.bfloat16")]
    _uses["w"] = [(x, y, t, expected(m[x], a[y], (t or "").removeprefix("torch.") or None)) for x, y, t in uses]
    return _uses["w"]


NUSES = 20


def setup(tier):
    if len(world()) != NUSES:
        raise HarnessError(f"{len(world())} uses")


def gen_history(tier):
    for a, b in itertools.product(range(NUSES), repeat=2):
        yield [a, b]
        yield [a, b, a]
    if tier == "thorough":
        for t in itertools.product(range(NUSES), repeat=3):
            yield list(t)


def run_history(case):
    w = world()
    d = scratch("h")
    try:
        for i, u in enumerate(case):
            x, y, t, want = w[u]
            got = load(ModelReference.parse(f"{x}+{y}"), f"{d}/cache", t)
            compare(got, want, f"use {i + 1} of {[(w[v][0][-12:], w[v][1][-8:], w[v][2]) for v in case]} with one cache")
        return Obs(tuple(case), states=len(case), transitions=len(case), execs=len(case))
    finally:
        drop(d)


# ---------------------------------------------------------------- crashes
TEARS = [1, crash.HALF, -1]


def gen_crash(tier):
    for u in (0, 4) if tier == "quick" else range(NUSES):
        for before in (None, 1):
            for mode in ("die", "torn", "once", "on"):
                yield [u, before, mode]


def use(u, cache):
    x, y, t, want = world()[u]
    return load(ModelReference.parse(f"{x}+{y}"), cache, t)


def run_crash(case):
    u, before, mode = case
    want = world()[u][3]
    d = scratch("c")
    n = 0

    def fresh(k):
        cache = f"{d}/{k}/cache"
        os.makedirs(f"{d}/{k}")
        if before is not None:
            compare(use(before, cache), world()[before][3], "first use")
        return cache

    try:
        full = crash.run(lambda: use(u, f"{d}/full/cache"), f"{d}/full")
        if full.status != "ok":
            raise Violation(f"merging the adapter fails: {full.error}")
        cache = fresh("count")
        full = crash.run(lambda: use(u, cache), cache)
        if not full.ops:
            raise HarnessError("no file-system operation seen")
        for k, op in enumerate(full.ops):
            todo = {"die": [(crash.DIE, 0)], "torn": [(crash.TORN, t) for t in TEARS] if op.startswith("write") else [],
                    "once": [(crash.FAIL_ONCE, 0)], "on": [(crash.FAIL_ON, 0)]}[mode]
            for m, torn in todo:
                cache = fresh(f"{k}-{m}-{torn}")
                r = crash.run(lambda: use(u, cache), cache, k, m, torn)
                what = f"{mode} at operation {k} of {len(full.ops)} ({op})"
                if r.status == "ok":
                    compare(r.value, want, f"{what}: this use")
                again = crash.run(lambda: use(u, cache), cache)
                if again.status != "ok":
                    raise Violation(f"{what}: the next use fails: {again.error}")
                compare(again.value, want, f"{what}: next use")
                if before is not None:
                    compare(use(before, cache), world()[before][3], f"{what}: use of the other reference")
                n += 1
                drop(f"{d}/{k}-{m}-{torn}")
        return Obs((case, len(full.ops)), states=n, transitions=n, execs=2 * n)
    finally:
        drop(d)


# ---------------------------------------------------------------- two processes at once
def gen_both(tier):
    for u, v in ((0, 0), (0, 1), (4, 4)) if tier == "quick" else itertools.product(range(6), repeat=2):
        for part in range(8):
            yield [u, v, part]


def run_both(case):
    """One process stops before operation k, the other before operation j; then the first goes on to the end, then the second."""
    u, v, part = case
    wants = [world()[u][3], world()[v][3]]
    d = scratch("p")
    n = 0
    try:
        ops = crash.run(lambda: use(u, f"{d}/x/cache"), f"{d}/x").ops
        for k in range(part, len(ops) + 1, 8):
            for j in range(len(ops) + 1):
                top = f"{d}/{k}-{j}"
                os.makedirs(top)
                procs = [crash.Process(lambda: use(u, f"{top}/cache"), top, k, crash.STOP)]
                alive = [procs[0].paused()]
                procs.append(crash.Process(lambda: use(v, f"{top}/cache"), top, j, crash.STOP))
                alive.append(procs[1].paused())
                for p, a, want, i in zip(procs, alive, wants, (1, 2)):
                    if a:
                        p.resume()
                    r = p.join()
                    what = f"process {i} of two that merge at once (pausing before operations {k} and {j} of {len(ops)})"
                    if r.status != "ok":
                        raise Violation(f"{what} fails: {r.error}")
                    compare(r.value, want, what)
                compare(use(u, f"{top}/cache"), wants[0], f"use after two processes merged at once ({k}, {j})")
                n += 1
                drop(top)
        return Obs((case, len(ops)), states=n, transitions=n, execs=2 * n)
    finally:
        drop(d)


FAMILIES = [
    Family("apply", gen_apply, run_apply, setup=setup, rule="11 adapter kinds x data types x formats x tied/untied x layers x merge precision, read alone and in a merge"),
    Family("history", gen_history, run_history, setup=setup, rule="all sequences of 2 uses (and back to the first; thorough: 3) of 20 combinations of model, revision, adapter and precision over one cache"),
    Family("crash", gen_crash, run_crash, setup=setup, chunk=1, timeout=800, rule="process death, torn write, failing operation at every file-system operation of an adapter merge, then the next use"),
    Family("both", gen_both, run_both, setup=setup, chunk=1, timeout=800, rule="two processes using the cache at once: all pairs of pause points"),
]
