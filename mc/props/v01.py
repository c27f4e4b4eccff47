"""V01: evolutionary search: the merge each genotype stands for."""
from __future__ import annotations

import itertools
import math
import os

import numpy as np
import torch
import transformers  # noqa: F401

from mc import e2e, tiny
from mc.ckpt import compare
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.architecture import get_architecture_info
from mergekit.config import MergeConfiguration
from mergekit.evo.config import EvolMergeConfiguration, check_for_naughty_config
from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition
from mergekit.graph import Task
from mergekit.merge import run_merge
from mergekit.merge_methods import REGISTERED_MERGE_METHODS
from mergekit.options import MergeOptions
from mergekit.plan import MergePlanner

LEVEL = "model_checking"
ASSUMPTIONS = [
    "observed: what the planner hands to the merge method for every tensor under the generated configuration; for some genotypes the merge itself",
    "models of 4 layers, at most 3 of them; equally high genes of the two-model method may be chosen in any order",
    "outside the layers interpolated parameters have their first value (C01)",
    "the search and evaluation themselves are the business of V02",
]
PARAMS = {"linear": ["weight"], "task_arithmetic": ["weight"], "ties": ["weight", "density"], "dare_ties": ["weight", "density"], "slerp": ["t"]}
L = 4
RECORD = []


class Nothing(Task[torch.Tensor]):
    what: str

    def __init__(self, what):
        super().__init__(what=what)

    def arguments(self):
        return {}

    def execute(self):
        return torch.zeros(1)


class Recorder:
    """A registered method whose tensors are not merged but noted down."""

    def __init__(self, inner):
        self.inner = inner

    def __getattr__(self, k):
        return getattr(self.inner, k)

    def make_task(self, *, output_weight, tensors, parameters, tensor_parameters, base_model, **kw):
        RECORD.append((output_weight.name, dict(parameters.items()),
                       {os.path.basename(m.model.path): dict(tensor_parameters[m].items()) for m in tensor_parameters.keys()},
                       base_model and os.path.basename(base_model.model.path),
                       {os.path.basename(m.model.path): w.name for m, w in tensors.weight_info.items()}))
        return Nothing(output_weight.name)


def make_models(d):
    return {t: tiny.make_llama(os.path.join(d, t), t, L, value=tiny.wide) for t in "abcd"}


def models():
    return e2e.per_process("v01", make_models)


def plan(cfg):
    """[(tensor, global parameters, parameters per model, base model, source names)] under a configuration."""
    o = MergeOptions()
    arch = get_architecture_info(cfg, o)
    RECORD.clear()
    inner = REGISTERED_MERGE_METHODS[cfg.merge_method]
    REGISTERED_MERGE_METHODS[cfg.merge_method] = Recorder(inner)
    try:
        out_cfg = cfg.referenced_models()[0].config()
        MergePlanner(cfg, arch, options=o, out_model_config=out_cfg).plan_in_memory()
    finally:
        REGISTERED_MERGE_METHODS[cfg.merge_method] = inner
    return list(RECORD)


def definition(root, method, ms, base, gran, filters, neg, smooth, normalize, tok=None):
    d = dict(models=[os.path.join(root, m) for m in ms], merge_method=method, layer_granularity=gran, allow_negative_weights=neg,
             smooth=smooth)
    if base:
        d["base_model"] = os.path.join(root, base)
    if filters:
        d["filters"] = filters
    if normalize is not None:
        d["normalize"] = normalize
    if tok:
        d["tokenizer_source"] = tok
    return d


def genes(pattern, shape):
    n = math.prod(shape)
    k = torch.arange(n, dtype=torch.float64)
    v = {"up": 0.03125 + k / 64, "down": -(0.03125 + k / 64), "mixed": (0.03125 + k / 64) * (-1) ** k,
         "large": (1.0 + k / 4) * (-1) ** (k // 2), "zero": torch.zeros(n, dtype=torch.float64), "half": (k % 2) * 0.5}[pattern]
    return v.view(shape)


def layer_of(name):
    return int(name.split(".")[2]) if name.startswith("model.layers.") else None


def close(a, b):
    return a is not None and abs(float(a) - float(b)) < 1e-6


def genome(d):
    return ModelGenome(ModelGenomeDefinition.model_validate(d))


FILTERS = [None, ["self_attn"], ["self_attn", "mlp"], ["layers.1.", "norm", "attn"]]


def gen_params(tier):
    quick = tier == "quick"
    for method in ("linear", "task_arithmetic", "ties", "dare_ties"):
        for ms, base in (("ab", None), ("abc", None), ("ab", "d"), ("ab", "a"), ("cba", "b"), ("a", "d"), ("a", None)):
            if base is None and method != "linear":
                continue
            for gran, filters, neg, smooth in itertools.product((0, 1, 2, 4), FILTERS, (False, True), (False, True)):
                k = gran + len(filters or "") + smooth + len(ms) + neg
                if quick:  # one gene pattern and form per definition, all normalisations by turns
                    yield [method, ms, base, gran, filters, neg, smooth, ("mixed", "large", "up", "zero")[k % 4], ("flat", "tensor")[k // 4 % 2], (None, True, False)[k % 3]]
                    if k % 4 != 0:
                        yield [method, ms, base, gran, filters, neg, smooth, "mixed", "tensor", None]
                    continue
                for pattern in ("up", "down", "mixed", "large", "zero", "half"):
                    for fm in ("flat", "tensor", "half", "array"):
                        for norm in (None, True, False):
                            yield [method, ms, base, gran, filters, neg, smooth, pattern, fm, norm]


def given(g, fm):
    return {"flat": lambda: g.reshape(-1).numpy().copy(), "tensor": lambda: g.to(torch.float32), "half": lambda: g.clone(), "array": lambda: g.numpy().copy()}[fm]()


def check_record(rec, cfg, want, case, T):
    """want(name, model) -> {parameter: value}"""
    names = [r[0] for r in rec]
    if sorted(names) != sorted(T):
        raise Violation(f"{case}: the merge has tensors {sorted(set(names) ^ set(T))} too many, too few or twice")
    for name, glob, per, base, src in rec:
        w = want(name)
        if set(src) != set(w["models"]):
            raise Violation(f"{case}: {name} is merged from {sorted(src)}, expected {sorted(w['models'])}")
        if any(v != name for v in src.values()):
            raise Violation(f"{case}: {name} is merged from {src}")
        if base not in w["base"]:
            raise Violation(f"{case}: {name} has base model {base}, expected {w['base']}")
        for m, ps in w["models"].items():
            for p, v in ps.items():
                if not close(per[m].get(p), v):
                    raise Violation(f"{case}: {p} of {m} for {name} is {per[m].get(p)}, expected {v}")
        for p, v in w["glob"].items():
            if not close(glob.get(p), v):
                raise Violation(f"{case}: {p} for {name} is {glob.get(p)}, expected {v}")


def run_params(case):
    method, ms, base, gran, filters, neg, smooth, pattern, fm, norm = case
    root, T = models()
    groups = L // gran if gran else 1
    nf = len(filters or []) + 1
    g = genes(pattern, (groups, len(ms), nf, len(PARAMS[method])))
    gm = genome(definition(root, method, ms, base, gran, filters, neg, smooth, norm))
    cfg = gm.genotype_merge_config(given(g, fm))
    back = MergeConfiguration.from_yaml(cfg.to_yaml()) if hasattr(MergeConfiguration, "from_yaml") else None
    if back is not None and back.to_yaml() != cfg.to_yaml():
        raise Violation(f"{case}: the configuration does not survive being written down")

    if cfg.tokenizer_source is not None:
        raise Violation(f"{case}: tokenizer source {cfg.tokenizer_source}")
    union = genome(definition(root, method, ms, base, gran, filters, neg, smooth, norm, "union")).genotype_merge_config(given(g, fm))
    if union.tokenizer_source != "union" or [x for x in union.to_yaml().splitlines() if x != "tokenizer_source: union"] != cfg.to_yaml().splitlines():
        raise Violation(f"{case}: with a tokenizer source: {union.to_yaml()}")

    def value(name, m, p):
        s = next((i for i, f in enumerate(filters or []) if f in name), nf - 1)
        v = g[:, ms.index(m), s, PARAMS[method].index(p)]
        v = v.abs().clamp(0, 1) if p == "density" else v if neg else v.abs()
        l = layer_of(name)
        if not smooth:
            k = (0 if "embed" in name else groups - 1) if l is None else l // (L // groups)
            return v[k].item()
        x = 0.0 if l is None else l / (L - 1) * (groups - 1)
        lo = min(int(x + 1e-9), groups - 1)
        hi = min(lo + 1, groups - 1)
        return (v[lo] + (x - lo) * (v[hi] - v[lo])).item()

    def want(name):
        return dict(models={m: {p: value(name, m, p) for p in PARAMS[method]} if m in ms else {} for m in list(ms) + ([base] if base else [])},
                    base=[base], glob={"normalize": norm if norm is not None else method != "task_arithmetic", **({"int8_mask": True} if method != "linear" else {})})

    check_record(plan(cfg), cfg, want, case, T["a"])
    if cfg.dtype != "bfloat16":
        raise Violation(f"{case}: dtype {cfg.dtype}")
    return Obs(case, states=len(T["a"]))


def gen_slerp(tier):
    vals = (-1.0, 0.0, 0.5, 2.0) if tier == "quick" else (-2.0, -1.0, 0.0, 0.5, 1.0, 2.0)
    for ms in ("ab", "ba", "abc"):
        for base in (None, "a", "d"):
            for neg in (False, True):
                for v in itertools.product(vals, repeat=len(ms)):
                    for gran in (0, 2):
                        yield [ms, base, neg, list(v), gran, None]
                yield [ms, base, neg, [0.5, 2.0, -1.0][:len(ms)], 1, "union"]


def run_slerp(case):
    ms, base, neg, v, gran, tok = case
    root, T = models()
    groups = L // gran if gran else 1
    # every group has the genes in another rotation
    rows = [v[k % len(v):] + v[:k % len(v)] for k in range(groups)]
    gm = genome(definition(root, "slerp", ms, base, gran, None, neg, False, None, tok))
    cfg = gm.genotype_merge_config(np.array(rows).reshape(-1))

    def choices(k):
        r = [x if neg else abs(x) for x in rows[k]]
        best = sorted(r, reverse=True)[:2]
        t = math.exp(best[1]) / (math.exp(best[0]) + math.exp(best[1]))
        ok = [(ms[i], ms[j]) for i, j in itertools.permutations(range(len(ms)), 2) if r[i] == best[0] and r[j] == best[1]]
        return t, ok

    if tok is None:
        rec = plan(cfg)
    else:  # tokenizers would be needed to plan the merge
        if cfg.tokenizer_source != tok:
            raise Violation(f"{case}: tokenizer source {cfg.tokenizer_source}")
        for k, s in enumerate(cfg.slices):
            t, ok = choices(k)
            got = {os.path.basename(x.model.model.path): (x.parameters or {}).get("weight") for x in s.sources}
            if not any(set(got) == set(o) and close(got[o[0]], 1 - t) and close(got[o[1]], t) for o in ok):
                raise Violation(f"{case}: weights {got} for embeddings, expected one of {ok} with {1 - t}, {t}")
        return Obs(case)
    seen = {}
    names = []
    for name, glob, per, b, src in rec:
        names.append(name)
        l = layer_of(name)
        k = (0 if "embed" in name else groups - 1) if l is None else l // (L // groups)
        t, ok = choices(k)
        if any(x != name for x in src.values()):
            raise Violation(f"{case}: {name} is merged from {src}")
        pair = next(((x, y) for x, y in ok if set(src) == {x, y} and b == x), None)
        if pair is None or seen.setdefault(k, pair) != pair:
            raise Violation(f"{case}: {name} is merged from {sorted(src)} starting at {b}, expected one of {ok} (first is the start)")
        if not close(glob.get("t"), t):
            raise Violation(f"{case}: t of {name} is {glob.get('t')}, expected {t}")
    if sorted(names) != sorted(T["a"]):
        raise Violation(f"{case}: the merge has tensors {sorted(set(names) ^ set(T['a']))} too many, too few or twice")
    return Obs((case, sorted(seen.items())), states=len(rec))


def gen_merge(tier):
    for method in PARAMS:
        for ms, base in (("ab", None), ("ab", "d"), ("abc", "a")):
            if base is None and method not in ("linear", "slerp"):
                continue
            for gran in (0, 2):
                for smooth in (False, True) if method != "slerp" else (False,):
                    yield [method, ms, base, gran, smooth]


def run_merge_case(case):
    """The generated configuration merges to what a configuration written by hand merges to."""
    method, ms, base, gran, smooth = case
    root, T = models()
    groups = L // gran if gran else 1
    g = genes("up", (groups, len(ms), 1, len(PARAMS[method])))
    if method != "slerp":
        g[..., 1:] = 1.0  # nothing left to chance
    gm = genome(definition(root, method, ms, base, gran, None, False, smooth, None))
    cfg = gm.genotype_merge_config(g)
    out = scratch("o")
    try:
        run_merge(cfg, out, MergeOptions(quiet=True, copy_tokenizer=False, write_model_card=False))
        got = e2e.read(out)[0]
    finally:
        drop(out)
    want = {}
    for k in range(groups):
        lo, hi = k * (L // groups), (k + 1) * (L // groups)
        src = {}
        if method == "slerp":
            x, y = [ms[i] for i in sorted(range(len(ms)), key=lambda i: -g[k, i, 0, 0])[:2]]
            r = sorted(g[k, :, 0, 0].tolist())[-2:]
            c = dict(merge_method="slerp", base_model=f"{root}/{x}", models=[{"model": f"{root}/{m}"} for m in (x, y)],
                     parameters={"t": math.exp(r[0]) / (math.exp(r[0]) + math.exp(r[1]))})
        else:
            w = g[:, :, 0, 0].tolist()
            c = dict(merge_method=method, models=[{"model": f"{root}/{m}", "parameters": {
                "weight": [w[j][i] for j in range(groups)] if smooth else w[k][i], "density": 1.0}} for i, m in enumerate(ms)],
                parameters={"normalize": method != "task_arithmetic"})
            if base:
                c["base_model"] = f"{root}/{base}"
        one = e2e.merge(dict(c, dtype="bfloat16"))[0]
        for n, t in one.items():
            l = layer_of(n)
            if (lo <= l < hi) if l is not None else (k == (0 if "embed" in n or smooth else groups - 1)):
                want[n] = t
    if method == "slerp":  # the interpolation parameter passes through float32
        for n in want:
            if not torch.allclose(got[n].float(), want[n].float(), rtol=1e-2, atol=1e-2):
                raise Violation(f"{case}: {n} is {got[n]}, expected {want[n]}")
    else:
        compare(got, want, str(case))
    return Obs(case, states=len(got))


def gen_initial(tier):
    for method in PARAMS:
        for ms in ("a", "ab", "abc"):
            for gran in (0, 1, 2, 4):
                for filters in (FILTERS if method != "slerp" else [None]):
                    for rnd in (False, True):
                        yield [method, ms, gran, filters, rnd]


def run_initial(case):
    method, ms, gran, filters, rnd = case
    if method == "slerp" and len(ms) < 2:
        return Obs((case, "n/a"))
    root, _T = models()
    gm = genome(definition(root, method, ms, "d", gran, filters, False, False, None))
    x = gm.initial_genotype(random=rnd)
    if tuple(x.shape) != (L // gran if gran else 1, len(ms), len(filters or []) + 1, len(PARAMS[method])):
        raise Violation(f"{case}: initial genotype of shape {tuple(x.shape)}")
    if not rnd:
        if not all(close(v, 1 / len(ms)) for v in x[..., 0].reshape(-1).tolist()) or not (x[..., 1:] == 1).all():
            raise Violation(f"{case}: initial genotype {x}")
    elif not ((x >= 0) & (x < 1)).all():
        raise Violation(f"{case}: initial genotype {x}")
    if gm.genotype_merge_config(x).to_yaml() != gm.genotype_merge_config(x.reshape(-1).numpy()).to_yaml():
        raise Violation(f"{case}: the genotype stands for another merge once flattened")
    arrays = gm.genotype_to_param_arrays(x.reshape(-1).numpy())
    n = 0
    for i, m in enumerate(ms):
        for s, f in enumerate((filters or []) + [None]):
            for j, p in enumerate(PARAMS[method]):
                k = f"{m}_{p}" + (f"_{f}" if f else "")
                n += 1
                if k not in arrays or not torch.equal(torch.as_tensor(arrays[k]), x[:, i, s, j]):
                    raise Violation(f"{case}: {k} is reported as {arrays.get(k)}, the genes are {x[:, i, s, j]}")
    if len(arrays) != n:
        raise Violation(f"{case}: {len(arrays)} genes reported, there are {n}")
    return Obs((case, tuple(x.shape)), states=n)


def gen_bad(tier):
    base = dict(method="ties", ms="ab", base="d", gran=2, filters=None, smooth=False, shape="ok")
    opts = dict(method=list(PARAMS) + ["karcher", "nonsense"], ms=["a", "ab", ""], base=[None, "d"], gran=[0, 1, 2, 3, 5, 8], filters=[None, ["mlp"]], smooth=[False, True],
                shape=["ok", "groups", "models", "params", "flat", "3d"])
    for v in itertools.product(*opts.values()):
        c = dict(zip(opts, v))
        if tier == "quick" and sum(c[k] != base[k] for k in c) > 3:
            continue
        yield [c]


def run_bad(case):
    """Definitions and genotypes that describe no merge are refused, the others accepted."""
    c = case[0]
    root, _T = models()
    m = c["method"]
    bad = (m not in PARAMS or not c["ms"] or (m in ("ties", "dare_ties", "task_arithmetic") and not c["base"]) or (m == "slerp" and (c["smooth"] or c["filters"] or len(c["ms"]) < 2))
           or (c["gran"] > 0 and L % c["gran"]))
    shape = [L // c["gran"] if c["gran"] and L % c["gran"] == 0 else 1, max(1, len(c["ms"])), len(c["filters"] or []) + 1, len(PARAMS.get(m, "x"))]
    k = {"groups": 0, "models": 1, "params": 3}.get(c["shape"])
    if k is not None:
        shape[k] += 1
    g = torch.full(shape, 0.5)
    if c["shape"] == "flat":
        g = torch.full((math.prod(shape) + 1,), 0.5)
    if c["shape"] == "3d":
        g = g[0]
    if c["shape"] == "groups" and c["gran"] == 0:
        return Obs((case, "n/a"))  # any number of groups is a gradient or so
    bad = bad or c["shape"] != "ok"
    try:
        cfg = genome(definition(root, m, c["ms"], c["base"], c["gran"], c["filters"], False, c["smooth"], None)).genotype_merge_config(g)
        plan(cfg)
    except Violation:
        raise
    except Exception as e:
        if not bad:
            raise
        return Obs((case, type(e).__name__))
    if bad:
        raise Violation(f"{case}: accepted")
    return Obs((case, "ok"))


def gen_task(tier):
    from mergekit.evo.config import NAUGHTY_PREFIXES
    for names in itertools.chain(itertools.product(NAUGHTY_PREFIXES + ["my_task", "spartan"], ["", "_x", "_train"]), [("xmmlu", ""), ("a_gsm8k", ""), ("my", "_train")]):
        for others in ([], ["own_task"]):
            for first in (True, False):
                yield [list(names), others, first]


def run_task(case):
    """Common benchmarks are only optimised against on request."""
    from mergekit.evo.config import NAUGHTY_PREFIXES
    (stem, suffix), others, first = case
    root, _T = models()
    ts = [stem + suffix] + others
    if not first:
        ts = [dict(name=t, weight=2.0) for t in ts[::-1]]
    cfg = EvolMergeConfiguration.model_validate(dict(genome=definition(root, "linear", "ab", None, 0, None, False, False, None), tasks=ts))
    naughty = stem in NAUGHTY_PREFIXES and suffix != "_train"
    for allow in (False, True):
        try:
            check_for_naughty_config(cfg, allow=allow)
            got = False
        except ValueError:
            got = True
        if got != (naughty and not allow):
            raise Violation(f"{case}: refused: {got} (allowed by the user: {allow})")
    return Obs((case, naughty))


FAMILIES = [
    Family("params", gen_params, run_params, rule="4 methods x 7 sets of models and base x 4 granularities x 4 filter lists x signs x smooth x gene patterns (x 4 forms x 3 normalise): parameters of every tensor"),
    Family("slerp", gen_slerp, run_slerp, rule="2-3 models x base x signs x every tuple of 4 (6) gene values x granularity: the two highest, in order, and t"),
    Family("merge", gen_merge, run_merge_case, rule="methods x models x granularity x smooth: merged, against a configuration written by hand"),
    Family("initial", gen_initial, run_initial, rule="initial genotypes, flattening and reported genes"),
    Family("bad", gen_bad, run_bad, rule="definitions and genotype shapes up to 3 (all) deviations from a valid one: accepted or refused"),
    Family("tasks", gen_task, run_task, rule="benchmark names x position x permission"),
]
