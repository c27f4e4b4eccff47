"""A01: tensor lists of architectures, aliases and checkpoint-layout conversion, against real models and independent expansion."""
from __future__ import annotations

import itertools
import re

import torch
import transformers

from mc import archdefs, core, e2e, hfmodels, tiny
from mc.core import Family, Obs, Violation, drop, scratch
from mergekit.architecture import arch_info_for_config
from mergekit.architecture.conversion import can_convert_checkpoint_keys, convert_checkpoint_tensors
from mergekit.architecture.json_definitions import NAME_TO_ARCH
from mergekit.common import ModelReference
from mergekit.io.tasks import LoadTensor

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tensor sets are judged against the models the installed transformers builds and loads; definitions whose model code is not part of it (baichuan, chatglm, exaone, internlm2, jais, mixformer/phi-1, phi-msft, phi3small, qwen, solar, stablelm_epoch) are checked for consistency only",
    "configuration switches explored are those that change the set of tensors; sizes are minimal",
    "vision heads and projector variants the released models of an architecture do not have are not explored",
    "a group of experts that lacks its last members cannot be told from a smaller model by names alone; what happens then is not checked",
]


# -- prescribed lists -----------------------------------------------------------------------------

class AnyConfig:
    """A configuration with every layer count set to its own number."""

    def __init__(self, counts):
        for k, v in counts.items():
            t = self
            *path, last = k.split(".")
            for p in path:
                if not hasattr(t, p):
                    setattr(t, p, AnyConfig({}))
                t = getattr(t, p)
            setattr(t, last, v)


def norm(w):
    return (w["name"], bool(w.get("is_embed")), bool(w.get("optional")), tuple(w["aliases"]), tuple(w["tied_names"]), w.get("force_dtype"))


def norm_real(w):
    return (w.name, w.is_embed, w.optional, tuple(w.aliases or ()), tuple(w.tied_names or ()), w.force_dtype)


def run_lists(case):
    name, counts = case
    d = archdefs.load(name)
    mods = archdefs.modules(d)
    keys = [m[2].get("num_layers_config_key") for m in mods]
    cfg = AnyConfig({k: c for k, c in zip(keys, counts) if k})
    want = []
    per = {}
    for (m, prefix, a), c in zip(mods, counts):
        n = a.get("override_num_layers")
        n = c if n is None else n
        pre, layers, post = archdefs.expand(prefix, a, n)
        want += pre + [w for l in layers for w in l] + post
        per[m] = (pre, layers, post)
    cands = [a for n in d["architectures"] for a in NAME_TO_ARCH[n] if a.expected_model_type == d["model_type"]]
    if not cands:
        raise Violation(f"{name}: definition not registered for {d['architectures']}")
    for ai in cands:
        got = ai.all_weights(cfg)
        names = [w.name for w in got]
        dup = sorted({n for n in names if names.count(n) > 1})
        if dup:
            raise Violation(f"{name} {counts}: tensors listed twice {dup[:5]}")
        if [norm_real(w) for w in got] != [norm(w) for w in want]:
            bad = [(a, b) for a, b in itertools.zip_longest([norm_real(w) for w in got], [norm(w) for w in want]) if a != b][:2]
            raise Violation(f"{name} {counts}: prescribed list differs from the definition: {bad}")
        others = {}
        for w in got:
            for x in (w.name,) + tuple(w.aliases or ()):
                if x in others and others[x] != w.name:
                    raise Violation(f"{name} {counts}: {x} stands for {others[x]} and for {w.name}")
                others[x] = w.name
        from mergekit.architecture import ConfiguredModelArchitecture
        ca = ConfiguredModelArchitecture.model_construct(info=ai, config=cfg)
        for m, (pre, layers, post) in per.items():
            mod = ai.modules[m]
            cm_names = [[w.name for w in mod.architecture.layer_weights(i, cfg)] for i in range(len(layers))]
            for i, l in enumerate(cm_names):
                pat = [x.replace("${layer_index}", str(i)) for x in (w["name"] for w in (mods[[k[0] for k in mods].index(m)][2]["layer_templates"]["weights"]))]
                if l != [re.sub(r"\$\{layer_index\+1\}", str(i + 1), re.sub(r"\$\{layer_index-1\}", str(i - 1), x)) for x in pat]:
                    raise Violation(f"{name} {counts}: layer {i} of {m} lists {l[:3]}, expected {pat[:3]}")
        if [w.name for w in ca.all_weights()] != names:
            raise Violation(f"{name} {counts}: configured architecture lists other tensors")
    return Obs((name, counts), states=len(want), transitions=len(want) * len(cands))


def gen_lists(tier):
    import os
    for f in sorted(os.listdir(archdefs.DIR)):
        if not f.endswith(".json"):
            continue
        d = archdefs.load(f[:-5])
        k = len(archdefs.modules(d))
        for counts in itertools.product((0, 1, 2, 3, 12) if k == 1 else (0, 1, 2), repeat=k):
            yield [f[:-5], list(counts)]


# -- real models ----------------------------------------------------------------------------------
def run_present(case):
    table, key, idx, setting = case
    arch, cls, base, axes = (hfmodels.MODELS if table == "defs" else hfmodels.INFERRED)[key][idx]
    what = f"{arch} {setting}"
    tag = f"{arch}:" + ",".join(f"{k}={v}" for k, v in setting.items() if v not in (False, None))
    ds = [scratch("m") for _ in range(2)]
    out = scratch("o")
    try:
        for i, d in enumerate(ds):
            hfmodels.build(arch, hfmodels.config(cls, base, setting), i + 1).save_pretrained(d)
        if table == "defs":
            cfg = transformers.AutoConfig.from_pretrained(ds[0])
            ai = arch_info_for_config(cfg)
            if ai is None:
                raise Violation(f"{what}: no definition found")
            listed = [w.name for w in ai.all_weights(cfg)]
            if len(set(listed)) != len(listed):
                raise Violation(f"{what}: tensors listed twice")
        try:
            ts, _cfg = e2e.merge({"merge_method": "linear", "dtype": "float32", "models": [
                {"model": ds[0], "parameters": {"weight": 0.25}}, {"model": ds[1], "parameters": {"weight": 0.75}}]}, out, keep=True)[:2]
        except (RuntimeError, KeyError, ValueError, TypeError, AttributeError) as e:
            raise Violation(f"{what}: not mergeable: {type(e).__name__}: {str(e)[:200]}")
        a, pa = hfmodels.load(arch, ds[0])
        b, _ = hfmodels.load(arch, ds[1])
        o, po = hfmodels.load(arch, out)
        bad = {k: v for k, v in po.items() if v != pa.get(k)}
        key = finding(arch, setting, bad)
        lost = set(bad.get("missing_keys", ())) if key else set()
        if bad and key is None:
            raise Violation(f"{what}: merged model does not load cleanly: { {k: v[:4] for k, v in bad.items()} }")
        for k in set(a) - lost:
            want = (0.25 * a[k].double() + 0.75 * b[k].double()) if a[k].is_floating_point() else a[k].double()
            if k not in o or o[k].shape != want.shape or not torch.allclose(o[k].double(), want, atol=1e-5):
                raise Violation(f"{what}: {k} is not the merge of the tensors of that name")
    finally:
        for d in ds + [out]:
            drop(d)
    return Obs((tag, len(ts)), states=len(a), transitions=2 * len(a), known=(key,) if key else ())


def finding(arch, setting, bad):
    lost = set(bad.get("missing_keys", ()))
    if set(bad) != {"missing_keys"}:
        return None
    if arch == "StableLmForCausalLM" and all(re.fullmatch(r"model\.layers\.\d+\.self_attn\.[qk]_layernorm\.norms\.\d+\.weight", k) for k in lost):
        return "stablelm2-per-head-norms"
    if arch == "WhisperForConditionalGeneration" and lost == {"proj_out.weight"}:
        return "whisper-untied-output"
    return None


def gen_present(table):
    def gen(tier):
        for key, entries in (hfmodels.MODELS if table == "defs" else hfmodels.INFERRED).items():
            for i, (arch, cls, base, axes) in enumerate(entries):
                for s in hfmodels.settings(axes):
                    yield [table, key, i, s]
    return gen


# -- names a tensor may be stored under -----------------------------------------------------------

def stored_cases():
    import os
    for f in sorted(os.listdir(archdefs.DIR)):
        if not f.endswith(".json"):
            continue
        d = archdefs.load(f[:-5])
        for m, prefix, a in archdefs.modules(d):
            for where, ws in (("pre", a["pre_weights"]), ("layer", a["layer_templates"]["weights"]), ("post", a["post_weights"])):
                for j, w in enumerate(ws):
                    if w.get("aliases") or w.get("tied_names"):
                        yield f[:-5], m, where, j, 1 + len(w.get("aliases") or []) + len(w.get("tied_names") or [])


def gen_stored(tier):
    for name, m, where, j, n in stored_cases():
        for mask in range(2 ** n):
            yield [name, m, where, j, mask]


def run_stored(case):
    """Every subset of the names a tensor may have in a checkpoint: canonical, then aliases, then tied ones, in order."""
    name, m, where, j, mask = case
    d = archdefs.load(name)
    mod = next(x for x in archdefs.modules(d) if x[0] == m)
    pre, layers, post = archdefs.expand(mod[1], mod[2], 2)
    w = {"pre": pre, "layer": layers[1] if where == "layer" else None, "post": post}[where][j]
    names = list(dict.fromkeys([w["name"]] + w["aliases"] + w["tied_names"]))
    if mask >> len(names):
        return Obs((name, w["name"], "no such subset"))
    present = [x for i, x in enumerate(names) if mask >> i & 1]

    def mk(path):
        tiny.write_model(path, {"architectures": d["architectures"], "model_type": "llama", "hidden_size": 2, "num_attention_heads": 1},
                         {**{x: torch.full((2,), float(names.index(x))) for x in present}, "unrelated": torch.full((2,), 99.0)})
    path = scratch("s")
    try:
        mk(path)
        ai = next(a for n in d["architectures"] for a in NAME_TO_ARCH[n] if a.expected_model_type == d["model_type"])
        keys = [x[2].get("num_layers_config_key") for x in archdefs.modules(d)]
        cfg = AnyConfig({k: 2 for k in keys if k})
        info = next(x for x in ai.all_weights(cfg) if x.name == w["name"])
        task = LoadTensor(model=ModelReference.parse(path), tensor=info.name, optional=info.optional, aliases=info.aliases, tied_names=info.tied_names)
        try:
            got = task.execute()
            got = None if got is None else float(got[0])
        except RuntimeError:
            got = "error"
        want = float(names.index(present[0])) if present else (None if w.get("optional") else "error")
        if got != want:
            raise Violation(f"{name}: {w['name']} with {present} stored: read {got}, expected {want} of {names}")
    finally:
        drop(path)
    return Obs((name, w["name"], mask), transitions=1)


# -- checkpoint layouts ---------------------------------------------------------------------------

def moe_sources(kind, e):
    """(target, [[source per expert] per fused part], fused how)"""
    if kind == "mixtral":
        p = "model.layers.1.block_sparse_moe.experts.{}.{}.weight"
        t = "model.layers.1.mlp.experts."
        return [(t + "gate_up_proj", [[p.format(i, "w1") for i in range(e)], [p.format(i, "w3") for i in range(e)]]),
                (t + "down_proj", [[p.format(i, "w2") for i in range(e)]])]
    p = "model.layers.1.mlp.experts.{}.{}.weight"
    t = "model.layers.1.mlp.experts."
    return [(t + "gate_up_proj", [[p.format(i, "gate_proj") for i in range(e)], [p.format(i, "up_proj") for i in range(e)]]),
            (t + "down_proj", [[p.format(i, "down_proj") for i in range(e)]])]


MT = ["mixtral", "qwen3_moe", "glm4_moe", "qwen2_moe"]


def expected(sources, have, values):
    """None: absent; 'any': cannot be decided from the names; else the fused tensor."""
    idx = [{i for i, x in enumerate(part) if x in have} for part in sources]
    if any(i != idx[0] for i in idx) or idx[0] != set(range(len(idx[0]))) or not idx[0]:
        return None
    if len(idx[0]) < len(sources[0]):
        return "any"
    return torch.stack([torch.cat([values[part[i]] for part in sources], dim=0) for i in range(len(sources[0]))])


def run_convert(case):
    mt, e, masks, lazy, rev = case
    tg = moe_sources(mt, e)
    names = [x for _t, s in tg for part in s for x in part]
    values = {x: torch.tensor([[100.0 * i, 1.0], [2.0, 3.0 + i]]) for i, x in enumerate(names)}
    values["model.layers.0." + names[0].split(".", 3)[3]] = torch.full((2, 2), -7.0)
    values["model.layers.11." + names[0].split(".", 3)[3]] = torch.full((2, 2), -8.0)
    n = 0
    for mask in range(masks[0], masks[1]):
        have = [x for i, x in enumerate(names) if mask >> i & 1]
        order = have[::-1] if rev else have
        src = {x: ((lambda x=x: values[x]) if lazy else values[x]) for x in order}
        for x in values:
            if x not in names:
                src[x] = values[x]
        for t, parts in tg:
            n += 1
            want = expected(parts, set(have), values)
            got = convert_checkpoint_tensors(mt, src, t)
            can = can_convert_checkpoint_keys(mt, set(src), t)
            if isinstance(want, str):
                continue
            if want is None:
                if got is not None:
                    raise Violation(f"{mt}: {t} made up from incomplete sources {have}")
                if can:
                    raise Violation(f"{mt}: {t} reported available from incomplete sources {have}")
            else:
                if got is None or got.shape != want.shape or not torch.equal(got, want):
                    raise Violation(f"{mt}: {t} from {have} is {None if got is None else got.tolist()}, expected {want.tolist()}")
                if not can and e > 1:
                    raise Violation(f"{mt}: {t} reported unavailable although all of {have} are stored")
    return Obs((mt, e, tuple(masks), lazy, rev), states=masks[1] - masks[0], transitions=n)


def gen_convert(tier):
    for mt in MT:
        for e in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            total = 2 ** (3 * e)
            step = 64
            for lo in range(0, total, step):
                for lazy in (False, True):
                    for rev in (False, True):
                        yield [mt, e, [lo, min(lo + step, total)], lazy, rev]
        for e in (11, 12, 23):
            total = 2 ** (3 * e)
            for lazy, rev in itertools.product((False, True), repeat=2):
                yield [mt, e, [total - 1, total], lazy, rev]
        for drop_i in range(33):
            yield [mt, 11, [2 ** 33 - 1 - 2 ** drop_i, 2 ** 33 - 2 ** drop_i], True, False]


# -- layout conversion inside a merge: the two models store the same tensors in different layouts --

def run_layout(case):
    mt, e, layouts, layers = case
    arch, cls, base = {"mixtral": ("MixtralForCausalLM", "MixtralConfig", dict(hfmodels.S, num_experts_per_tok=1, num_local_experts=e)),
                       "qwen3_moe": ("Qwen3MoeForCausalLM", "Qwen3MoeConfig", dict(hfmodels.MOE, num_experts=e))}[mt]
    ds = [scratch("m") for _ in range(2)]
    out = scratch("o")
    try:
        states = []
        for i, d in enumerate(ds):
            m = hfmodels.build(arch, hfmodels.config(cls, base, {"num_hidden_layers": layers}), i + 1)
            m.save_pretrained(d)
            states.append({k: v.clone() for k, v in m.state_dict().items()})
            if layouts[i]:
                import json
                import os
                with open(os.path.join(d, "config.json")) as f:
                    cfg = json.load(f)
                tiny.write_model(d, cfg, states[-1])
        e2e.merge({"merge_method": "linear", "dtype": "float32", "models": [
            {"model": ds[0], "parameters": {"weight": 0.25}}, {"model": ds[1], "parameters": {"weight": 0.75}}]}, out, keep=True)
        o, problems = hfmodels.load(arch, out)
        if problems:
            raise Violation(f"{case}: merged model does not load cleanly: {problems}")
        for k in states[0]:
            want = 0.25 * states[0][k].double() + 0.75 * states[1][k].double()
            if not torch.allclose(o[k].double(), want, atol=1e-5):
                raise Violation(f"{case}: {k} is not the merge of the tensors of that name")
    finally:
        for d in ds + [out]:
            drop(d)
    return Obs(tuple(map(str, case)), states=len(o), transitions=2 * len(o))


def gen_layout(tier):
    for mt in ("mixtral", "qwen3_moe"):
        for e in (2, 3, 11) if tier == "quick" else (2, 3, 4, 10, 11, 12):
            for layouts in itertools.product((False, True), repeat=2):
                for layers in (1, 2):
                    yield [mt, e, list(layouts), layers]


# -- architectures that have to be worked out -----------------------------------------------------

def run_infer(case):
    """A llama-layout model of an unknown architecture; the second model lacks some tensors."""
    layers, dropped, tied, base_i = case
    ds = [scratch("m") for _ in range(2)]
    out = scratch("o")
    try:
        ts = []
        for i, d in enumerate(ds):
            ts.append(tiny.make_llama(d, f"a01-{i}", layers, lm_head=not tied, drop=dropped if i else (), value=tiny.value,
                                      cfg={"architectures": ["UnheardOfForCausalLM"]}))
        cfg = {"merge_method": "linear", "dtype": "float32", "parameters": {"normalize": True},
               "models": [{"model": d, "parameters": {"weight": w}} for d, w in zip(ds, (0.25, 0.75))]}
        if base_i is not None:
            cfg["base_model"] = ds[base_i]
        got, _ = e2e.merge(cfg, out, keep=True)[:2]
        names = set(ts[0]) | set(ts[1])
        if set(got) - names:
            raise Violation(f"{case}: tensors {sorted(set(got) - names)} no model has")
        for k in sorted(names):
            have = [(t[k].double(), w) for t, w in zip(ts, (0.25, 0.75)) if k in t]
            want = sum(t * w for t, w in have) / sum(w for _t, w in have)
            if k not in got:
                raise Violation(f"{case}: {k} is missing from the output")
            if not torch.allclose(got[k].double(), want, atol=1e-5):
                raise Violation(f"{case}: {k} is not the merge of the tensors of that name")
    finally:
        for d in ds + [out]:
            drop(d)
    return Obs(tuple(map(str, case)), states=len(names), transitions=len(names))


def gen_infer(tier):
    one = [k for k in tiny.llama_shapes(1)]
    for tied in (False, True):
        for base_i in (None, 0, 1):
            for layers in (1, 2, 3):
                yield [layers, [], tied, base_i]
            for k in one:
                if not (tied and k == "lm_head.weight"):
                    yield [1, [k], tied, base_i]
            two = [k for k in tiny.llama_shapes(2) if "layers" in k]
            for k in two:
                yield [2, [k], tied, base_i]
            if tier == "thorough":
                for a, b in itertools.combinations(two, 2):
                    yield [2, [a, b], tied, base_i]


FAMILIES = [
    Family("lists", gen_lists, run_lists, "all shipped definitions x layer counts 0-3 and 12 (0-2 for each module of modular ones)"),
    Family("models", gen_present("defs"), run_present, "all definitions with model code installed x all combinations of configuration switches that change the tensor set", chunk=1),
    Family("inferred", gen_present("inferred"), run_present, "11 model families without a definition x configuration switches", chunk=1),
    Family("unknown", gen_infer, run_infer, "unknown architecture, two models, every choice of one (two) tensors missing from the second x tied x base", chunk=2),
    Family("stored", gen_stored, run_stored, "every tensor with alternative names x every subset of its names present in the checkpoint"),
    Family("convert", gen_convert, run_convert, "expert layouts of four model types: every subset of the source tensors for 1-3 (4) experts, and 11-23 experts complete or lacking any one"),
    Family("layouts", gen_layout, run_layout, "merges of models that store their experts in the same or in different layouts", chunk=1),
]
