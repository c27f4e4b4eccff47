"""S05: extracted adapters, loaded back by the standard loader, against the fine-tuned model."""
from __future__ import annotations

import contextlib
import hashlib
import itertools
import json
import os
import re

import peft
import safetensors.torch
import torch
import transformers
from click.testing import CliRunner
from torch import nn

from mc import ckpt, e2e, hfmodels
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mc.props.s03 import hush
from mergekit.scripts import extract_lora

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tiny models (width 8, 1-2 layers) of causal language model architectures; differences with well separated singular values",
    "the adapter is read back by peft; effective weights are those peft computes with",
    "biases of adapted modules are only reproduced if every adapted module has one (peft cannot express it otherwise)",
    "not covered: mixture-of-experts architectures whose experts are one fused tensor, encoder-decoder and masked models",
]
TOL = {torch.float32: 2e-4, torch.bfloat16: 8e-2}


# ---------------------------------------------------------------- models
def difference(name, shape, rank, scale=1.0):
    """Difference of exactly that rank, with singular values 8, 4, 2, ..."""
    g = torch.Generator().manual_seed(int(hashlib.sha1(name.encode()).hexdigest()[:8], 16))
    rank = min(rank, *shape)
    u = torch.linalg.qr(torch.randn(shape[0], shape[0], generator=g, dtype=torch.float64))[0][:, :rank]
    v = torch.linalg.qr(torch.randn(shape[1], shape[1], generator=g, dtype=torch.float64))[0][:, :rank]
    s = torch.tensor([8.0 * scale / 2**i for i in range(rank)], dtype=torch.float64)
    return u @ torch.diag(s) @ v.T


def fine_tune(model, ranks, bias, norms, scale=1.0):
    """Change the weights in place; ranks: cycled over the two-dimensional weights."""
    sd = model.state_dict()
    done = {}
    with torch.no_grad():
        i = 0
        for n, p in sd.items():
            if p.data_ptr() in done:  # tied
                continue
            done[p.data_ptr()] = n
            if p.dim() == 2:
                p.add_(difference(n, p.shape, ranks[i % len(ranks)], scale).to(p.dtype))
                i += 1
            elif n.endswith("bias"):
                if bias:
                    p.add_(0.5)
            elif p.is_floating_point() and norms:
                p.add_(torch.arange(p.numel(), dtype=p.dtype).reshape(p.shape) / 4 + 1)


def make(root, arch, setting, ranks, bias=False, norms=True, dtype=torch.float32, vocab=None, scale=1.0):
    """-> (base model, fine-tuned model), saved in root/base and root/ft"""
    cls, cc, base, _ = {**hfmodels.MODELS, **hfmodels.INFERRED}[arch][0]
    b, f = (hfmodels.build(cls, hfmodels.config(cc, dict(base, **({"vocab_size": vocab[0]} if vocab else {})), setting), 5).to(dtype) for _ in range(2))
    b.save_pretrained(f"{root}/base")
    if vocab:
        f.resize_token_embeddings(vocab[1])
    f.load_state_dict({k: v for k, v in b.state_dict().items() if v.shape == f.state_dict()[k].shape}, strict=False)
    fine_tune(f, ranks, bias, norms, scale)
    f.save_pretrained(f"{root}/ft")
    return b, f


def weights(model):
    return {n: m for n, m in model.named_modules() if isinstance(getattr(m, "weight", None), torch.Tensor)}


# ---------------------------------------------------------------- oracle
def classify(ft, base, o):
    """-> {module name: "lora" | "full" | "untouched"}"""
    mods = weights(ft)
    emb = (ft.get_input_embeddings(), ft.get_output_embeddings())
    same_vocab = emb[0].weight.shape[0] == base.get_input_embeddings().weight.shape[0]
    embed_lora = o.get("embed_lora", False) and same_vocab
    res = {}
    for n, m in mods.items():
        leaf = n.split(".")[-1]
        if n in o.get("save", ()) or leaf in o.get("save", ()):
            res[n] = "full"
        elif any(re.search(r, n) for r in o.get("exclude", ())):
            res[n] = "untouched"
        elif (isinstance(m, nn.Embedding) or m in emb) and not embed_lora:
            res[n] = "full"
        elif o.get("include") and not any(re.search(r, n) for r in o["include"]):
            res[n] = "untouched"
        elif isinstance(m, (nn.Linear, nn.Embedding)) and m.weight.dim() == 2:
            res[n] = "lora"
        else:
            res[n] = "untouched" if o.get("skip") else "full"
    return res


def truncated(delta, max_rank, eps):
    """-> (best approximation of the rank, rank)"""
    u, s, v = torch.linalg.svd(delta.double(), full_matrices=False)
    r = min(max_rank, s.numel())
    if eps > 0:
        r = max(1, min(r, int((s > eps).sum())))
    return u[:, :r] @ torch.diag(s[:r]) @ v[:r], r


def flags(o):
    res = ["--max-rank", str(o.get("max_rank", 2)), "--no-write-model-card"]
    if "distribute" in o:
        res.append("--distribute-scale" if o["distribute"] else "--no-distribute-scale")
    if o.get("embed_lora"):
        res.append("--embed-lora")
    for k, f in (("save", "--save-module"), ("exclude", "-e"), ("include", "-i")):
        for v in o.get(k, ()):
            res += [f, v]
    if o.get("eps"):
        res += ["--sv-epsilon", str(o["eps"])]
    if o.get("skip"):
        res.append("--skip-undecomposable")
    return res + o.get("extra", [])


def extract(root, o, out="ad"):
    with hush():
        r = CliRunner().invoke(extract_lora.main, ["--model", f"{root}/ft", "--base-model", f"{root}/base", "--out-path", f"{root}/{out}", *flags(o)])
    if r.exit_code:
        import traceback
        tb = "".join(traceback.format_exception(r.exception)[-4:]) if r.exception else r.output[-300:]
        return tb
    return None


def effective(root, ft, out="ad"):
    """What peft computes with -> ({module: (weight, bias)}, peft model, names in the adapter file)"""
    with hush():
        m = type(ft).from_pretrained(f"{root}/base")
        nv = ft.get_input_embeddings().weight.shape[0]
        if nv != m.get_input_embeddings().weight.shape[0]:
            m.resize_token_embeddings(nv)
        p = peft.PeftModel.from_pretrained(m, f"{root}/{out}")
    res = {}
    inner = p.base_model.model
    for n in weights(ft):
        try:
            mod = inner.get_submodule(n)
        except AttributeError:
            raise HarnessError(f"no module {n} in the loaded model")
        if isinstance(mod, peft.tuners.lora.LoraLayer):
            b = mod.get_base_layer()
            w = b.weight.detach().double() + mod.get_delta_weight("default").detach().double()
            bias = getattr(b, "bias", None)
            if bias is not None:
                bias = bias.detach().double()
                lb = mod.lora_B["default"].bias if "default" in mod.lora_B else None
                if lb is not None:
                    bias = bias + lb.detach().double() * mod.scaling["default"]
        else:
            if hasattr(mod, "modules_to_save"):
                mod = mod.modules_to_save["default"]
            w, bias = mod.weight.detach().double(), getattr(mod, "bias", None)
            bias = bias.detach().double() if bias is not None else None
        res[n] = (w, bias)
    return res, p


def judge(root, base, ft, o, what, out="ad"):
    err = extract(root, o, out)
    kinds = classify(ft, base, o)
    if not any(k == "lora" for k in kinds.values()):
        return "nothing to adapt"  # no adapter without an adapted module
    if err:
        raise Violation(f"{what}: extraction fails: {err}")
    got, p = effective(root, ft, out)
    bm, fm = weights(base), weights(ft)
    dt = next(ft.parameters()).dtype
    every_bias = all(getattr(fm[n], "bias", None) is not None for n, k in kinds.items() if k == "lora")
    ranks = {}
    for n, k in kinds.items():
        w, bias = got[n]
        fb = getattr(fm[n], "bias", None)
        wantb = None
        if k == "lora":
            d = fm[n].weight.detach().double() - bm[n].weight.detach().double()
            appr, ranks[n] = truncated(d, o.get("max_rank", 2), o.get("eps", 0))
            want = bm[n].weight.detach().double() + appr
            if fb is not None and every_bias:
                wantb = fb
        elif k == "full":
            want, wantb = fm[n].weight.detach().double(), fb
        else:
            want, wantb = bm[n].weight.detach().double(), getattr(bm[n], "bias", None)
        tol = 0 if k != "lora" else TOL[dt]
        if w.shape != want.shape or not (w - want).abs().max() <= tol * max(1.0, float(want.abs().max())):
            raise Violation(f"{what}: with the adapter {n} ({k}) is {ckpt.desc(w)}, expected {ckpt.desc(want)} (base {ckpt.desc(bm[n].weight)}, fine-tuned {ckpt.desc(fm[n].weight)})")
        if wantb is not None and (bias is None or not (bias - wantb.detach().double()).abs().max() <= max(tol, 1e-6)):
            raise Violation(f"{what}: with the adapter the bias of {n} ({k}) is {bias}, expected {wantb}")
    # the files: exactly the adapted and saved modules
    fn = f"{root}/{out}/adapter_model.safetensors"
    names = set(safetensors.torch.load_file(fn)) if os.path.exists(fn) else set(torch.load(fn.replace(".safetensors", ".bin")))
    mods = {re.sub(r"\.(lora_(A|B)\.(weight|bias)|lora_embedding_(A|B)|weight|bias)$", "", x).removeprefix("base_model.model.") for x in names}
    want = {n for n, k in kinds.items() if k != "untouched"}
    if mods != want:
        raise Violation(f"{what}: modules in the adapter: {sorted(mods - want)} unexpected, {sorted(want - mods)} missing")
    cfg = json.load(open(f"{root}/{out}/adapter_config.json"))
    if cfg["base_model_name_or_path"] != f"{root}/base":
        raise Violation(f"{what}: base model in the configuration: {cfg['base_model_name_or_path']}")
    for n, r in ranks.items():
        a = p.base_model.model.get_submodule(n)
        have = a.r["default"]
        if have != r:
            raise Violation(f"{what}: {n} has rank {have}, expected {r}")
    return tuple(sorted(set(kinds.values())))


@contextlib.contextmanager
def pair(*a, **kw):
    d = scratch("x")
    try:
        with hush():
            b, f = make(d, *a, **kw)
        yield d, b, f
    finally:
        drop(d)


# ---------------------------------------------------------------- families
CAUSAL = ["apertus", "arcee", "cohere", "cohere2", "falcon", "gemma", "gemma2", "gemma3", "glm4", "gpt-neox", "gpt2", "gptbigcode", "granite", "lfm2", "llama", "mamba", "mistral",
          "olmo2", "phi2", "phi3", "qwen2", "qwen3", "stablelm2", "starcoder2", "opt", "gptj", "bloom", "olmo", "smollm3", "gpt_neo"]


def gen_archs(tier):
    for a in CAUSAL:
        axes = {**hfmodels.MODELS, **hfmodels.INFERRED}[a][0][3]
        for s in hfmodels.settings(axes):
            if tier == "quick" and any(k in ("n_layer", "num_hidden_layers") and v != 1 for k, v in s.items()):
                continue
            for o in ({}, {"embed_lora": True}):
                if a == "mamba":  # peft itself refuses an adapter on the output projection of a Mamba layer
                    o = dict(o, exclude=["out_proj"])
                for bias in (False, True):
                    if s.get("tie_word_embeddings") and o:
                        o = dict(o, exclude=o.get("exclude", []) + ["lm_head", "embed_out"])
                    yield dict(arch=a, setting=s, o=o, bias=bias)


def run_archs(case):
    with pair(case["arch"], case["setting"], [1, 2, 3, 0], bias=case["bias"]) as (d, b, f):
        return Obs((case["arch"], judge(d, b, f, case["o"], str(case))), transitions=len(weights(f)))


LL = dict(tie_word_embeddings=False, num_hidden_layers=2)


def gen_ranks(tier):
    top = 3 if tier == "quick" else 5
    pats = [list(p) for p in itertools.product(range(top + 1), repeat=2)] + [[8], [1, 8], [0, 8, 2]]
    for ranks in pats:
        for mr in (1, 2, 3, 5, 8, 64):
            for dist in (True, False):
                for eps in (0, 0.7, 3.0, 100.0):
                    for dt in ("f32",) if tier == "quick" else ("f32", "bf16"):
                        yield dict(ranks=ranks, o=dict(max_rank=mr, distribute=dist, eps=eps), dt=dt)


def run_ranks(case):
    with pair("llama", dict(LL, num_hidden_layers=1), case["ranks"], dtype=ckpt.DT[case["dt"]], scale=1.0) as (d, b, f):
        o = dict(case["o"], exclude=["embed_tokens"])
        if case["dt"] == "bf16":
            o["embed_lora"] = False
        return Obs((case["ranks"], judge(d, b, f, o, str(case))), transitions=len(weights(f)))


SAVE = [(), ("q_proj",), ("model.layers.0.self_attn.q_proj",), ("lm_head",), ("norm",), ("model.layers.1.mlp",), ("embed_tokens", "down_proj")]
EXCL = [(), ("layers\\.1\\.",), ("layers\\.0\\.",), ("mlp",), ("norm",), ("embed_tokens",), ("lm_head", "embed_tokens"), ("proj",), ("self_attn", "layernorm")]
INCL = [(), ("q_proj",), ("layers\\.1\\.",), ("self_attn", "norm"), ("lm_head",), ("^model\\.layers\\.0\\.mlp",)]


def gen_select(tier):
    for s, e, i in itertools.product(SAVE, EXCL, INCL):
        for emb in (False, True):
            for skip in (False, True):
                if tier == "quick" and sum(bool(x) for x in (s, e, i)) == 3 and (emb or not skip):
                    continue
                yield dict(save=list(s), exclude=list(e), include=list(i), embed_lora=emb, skip=skip)


def run_select(case):
    with pair("llama", LL, [1, 2]) as (d, b, f):
        return Obs(judge(d, b, f, case, str(case)), transitions=len(weights(f)))


def gen_vocab(tier):
    for a in ("llama", "qwen2", "gpt-neox"):
        for v in ([16, 16], [16, 18], [18, 16]):
            for tied in (False, True):
                for emb in (False, True):
                    for ex in ([], ["lm_head"]):
                        if tied and emb and v[0] == v[1]:
                            ex = ["lm_head", "embed_out"]
                        if ex and v[0] != v[1]:
                            continue
                        yield dict(arch=a, vocab=v, tied=tied, o=dict(embed_lora=emb, exclude=ex))


def run_vocab(case):
    with pair(case["arch"], dict(tie_word_embeddings=case["tied"]), [2], vocab=case["vocab"]) as (d, b, f):
        tag = judge(d, b, f, case["o"], str(case))
        return Obs((case["vocab"], tag), transitions=len(weights(f)))


def gen_options(tier):
    opts = [["--async-write"], ["--no-safe-serialization"], ["--lazy-unpickle"], ["--write-threads", "3"], ["--clone-tensors"], ["--out-shard-size", "10"], ["--low-cpu-memory"], ["--quiet"]]
    for n in (0, 1, 2):
        for c in itertools.combinations(opts, n):
            for arch, dt in (("llama", "f32"), ("qwen2", "bf16"), ("gpt-neox", "f32")):
                yield dict(arch=arch, dt=dt, extra=sum(c, []))


def run_options(case):
    with pair(case["arch"], {}, [1, 2, 3], dtype=ckpt.DT[case["dt"]], scale=1.0) as (d, b, f):
        tag = judge(d, b, f, dict(extra=case["extra"]), str(case))
        return Obs((case["arch"], tag), transitions=len(weights(f)))


def gen_again(tier):
    for how in ("same", "changed"):
        for lazy in ([], ["--lazy-unpickle"]):
            yield dict(how=how, extra=lazy)


def run_again(case):
    """Twice in one process, the models rewritten in between or not."""
    with pair("llama", {}, [1, 2]) as (d, b, f):
        judge(d, b, f, dict(extra=case["extra"]), f"{case}, first")
        if case["how"] == "changed":
            with hush():
                drop(f"{d}/base"), drop(f"{d}/ft")
                b, f = make(d, "llama", {}, [2, 1, 3])
        judge(d, b, f, dict(extra=case["extra"]), f"{case}, second", "ad2")
        return Obs(case)


def run_revision(case):
    cfg = extract_lora.make_config_dict
    from mergekit.common import ModelReference
    c = cfg(base_ref=ModelReference.parse("org/m" + (f"@{case}" if case else "")), max_rank=2, modules_to_save=[], target_modules=["q"], module_ranks={"q": 2})
    d = scratch("r")
    try:
        json.dump(c, open(f"{d}/adapter_config.json", "w"))
        p = peft.PeftConfig.from_pretrained(d)
        if p.base_model_name_or_path != "org/m" or p.revision != case:
            raise Violation(f"adapter of org/m@{case} names base {p.base_model_name_or_path}@{p.revision}")
        return Obs(case)
    finally:
        drop(d)


FAMILIES = [
    Family("ranks", gen_ranks, run_ranks, rule="difference ranks per module x requested rank x scale distribution x singular value threshold"),
    Family("select", gen_select, run_select, rule="modules saved in full x excluded x included x embeddings x undecomposable modules"),
    Family("archs", gen_archs, run_archs, rule="30 causal architectures x configuration axes x embedding adapters x changed biases"),
    Family("vocab", gen_vocab, run_vocab, rule="vocabulary sizes x tied x embedding adapters"),
    Family("options", gen_options, run_options, rule="every setting of up to 2 of 8 reading and writing options x 3 architectures"),
    Family("revision", lambda tier: iter([None, "main", "r2"]), run_revision, rule="revision of the base model in the adapter configuration"),
    Family("again", gen_again, run_again, rule="repeated in one process, models rewritten in between"),
]
