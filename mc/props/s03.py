"""S03: assembly of mixtures of experts."""
from __future__ import annotations

import itertools
import json
import os
import sys

import torch
import transformers

from mc import ckpt, e2e, tiny, toks
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.moe.config import MoEMergeConfig
from mergekit.options import MergeOptions
from mergekit.scripts import moe

LEVEL = "model_checking"
ASSUMPTIONS = [
    "up to 3 layers and 4 experts, tiny widths; every tensor of every model distinct",
    "DeepSeek output needs code that is not part of transformers: its tensors and configuration are checked, loading is not",
    "sliding windows are switched off in Mixtral and Qwen MoE output on purpose; models with a sliding window are not compared by their logits",
    "expert models have the dimensions of the base model (the documentation asks for models of the same size)",
    "noise is checked with the random draw replaced by ones",
]

TOKENS = ["<s>", "</s>", "a", "b", "c", "d", "e", "f"]
H, I, V = 4, 6, len(TOKENS)
FFN = ["gate_proj", "up_proj", "down_proj"]
QK = [("self_attn.q_norm.weight", (H,)), ("self_attn.k_norm.weight", (H,))]


def tokenizer(d):
    toks.write_tokenizer(d, TOKENS, cfg={"bos_token": "<s>", "eos_token": "</s>"})


def fixture(kind, tag, layers, dtype=torch.float32, tied=False):
    def make(d):
        extra = {}
        cfg = {"model_type": kind, "architectures": [{"llama": "Llama", "mistral": "Mistral", "qwen2": "Qwen2", "qwen3": "Qwen3"}[kind] + "ForCausalLM"]}
        ts = tiny.llama_tensors(f"{kind}{tag}", layers, dtype, vocab=V, h=H, i=I, lm_head=not tied, value=tiny.value)
        for l in range(layers):
            if kind == "qwen2":
                for p in "qkv":
                    extra[f"model.layers.{l}.self_attn.{p}_proj.bias"] = (H,)
            if kind == "qwen3":
                extra.update({f"model.layers.{l}.{n}": s for n, s in QK})
        ts.update({n: tiny.value(f"{kind}{tag}", n, s, dtype) for n, s in extra.items()})
        if kind == "qwen3":
            cfg["head_dim"] = H
        c = tiny.llama_config(layers, V, H, I, tied=tied, dtype=str(dtype)[6:])
        c.update(cfg)
        tiny.write_model(d, c, ts)
        tokenizer(d)
        return ts
    return e2e.per_process(f"s03-{kind}-{tag}-{layers}-{str(dtype)[6:]}-{int(tied)}", make)


class hush:
    def __enter__(self):
        self.saved, self.null = sys.stderr, open(os.devnull, "w")
        sys.stderr = self.null

    def __exit__(self, *a):
        sys.stderr = self.saved
        self.null.close()


def build(d, out, allow_all_same=True, **opts):
    with hush():
        moe.build(MoEMergeConfig.model_validate(d), out, MergeOptions(**{"copy_tokenizer": True, **opts}), device="cpu", allow_all_same=allow_all_same)


_voc = {}


def vocab(d, keep=False):
    """As transformers sees it (it may add tokens of its own to a model type's tokenizer)."""
    if d not in _voc:
        v = transformers.AutoTokenizer.from_pretrained(d).get_vocab()
        if not keep:
            return v
        _voc[d] = v
    return _voc[d]


def gates(layers, n):
    """Gate parameters as they should come out, for a replaced source of random numbers."""
    return torch.arange(layers * n * H, dtype=torch.float32).reshape(layers, n, H) / 8 - 3


class fixed_random:
    """torch.randn, torch.rand give known numbers; randn_like gives ones."""

    def __enter__(self):
        self.saved = torch.randn, torch.rand, torch.randn_like

        def fill(shape, *a, **k):
            return torch.arange(int(torch.Size(shape).numel()), dtype=torch.float32).reshape(tuple(shape)) / 8 - 3
        torch.randn = torch.rand = fill
        torch.randn_like = lambda t, *a, **k: torch.ones_like(t)

    def __exit__(self, *a):
        torch.randn, torch.rand, torch.randn_like = self.saved


def expected(arch, kind, base, experts, shared, layers, dtype, tied, gate):
    """experts: [(tensors, residual scale, noise scale)] -> every tensor of the output."""
    res = {k: v for k, v in base.items() if ".mlp." not in k}
    if arch == "qwen moe" and kind != "qwen2":
        for l in range(layers):
            for p in "qkv":
                res[f"model.layers.{l}.self_attn.{p}_proj.bias"] = torch.zeros(H)
    for l in range(layers):
        def ffn(e, p):
            ts, scale, noise = e
            t = ts[f"model.layers.{l}.mlp.{p}.weight"]
            if noise:
                t = t + noise
            return t * scale if scale is not None and p == "down_proj" else t
        pre = f"model.layers.{l}.mlp"
        if arch in ("mixtral", "qwen3"):
            res[f"{pre}.experts.gate_up_proj"] = torch.stack([torch.cat([ffn(e, "gate_proj"), ffn(e, "up_proj")]) for e in experts])
            res[f"{pre}.experts.down_proj"] = torch.stack([ffn(e, "down_proj") for e in experts])
        else:
            for i, e in enumerate(experts):
                for p in FFN:
                    res[f"{pre}.experts.{i}.{p}.weight"] = ffn(e, p)
            if shared:
                for p in FFN:
                    res[f"{pre}.shared_expert{'s' if arch == 'deepseek' else ''}.{p}.weight"] = ffn(shared, p)
        res[f"{pre}.gate.weight"] = gate[l, : len(experts)]
        if arch == "qwen moe":
            res[f"{pre}.shared_expert_gate.weight"] = gate[l, len(experts):]
    return {k: v.to(dtype) for k, v in res.items()}


KINDS = {"mixtral": ["mistral", "llama"], "deepseek": ["llama", "mistral"], "qwen moe": ["qwen2", "llama", "mistral"], "qwen3": ["qwen3"]}
TYPES = {"mixtral": "mixtral", "deepseek": "deepseek", "qwen moe": "qwen2_moe", "qwen3": "qwen3_moe"}
VARIANTS = [{}, {"safe_serialization": False}, {"out_shard_size": 200}, {"clone_tensors": True}, {"async_write": True, "out_shard_size": 200}, {"lazy_unpickle": True}]


def gen_place(tier):
    n_max = 3 if tier == "quick" else 4
    for arch, kinds in KINDS.items():
        for kind in kinds:
            for layers in (1, 2) if tier == "quick" else (1, 2, 3):
                for n in range(2, n_max + 1):
                    for experts in itertools.product("ABC", repeat=n):
                        for shared in {"mixtral": [None], "qwen3": [None], "deepseek": [None, "A", "D"], "qwen moe": ["A", "D"]}[arch]:
                            if tier == "quick" and n == 3 and (layers == 2) == (experts[0] == "A"):
                                continue
                            yield [arch, kind, layers, "".join(experts), shared, "float32", False, 0, 0]
    # data types, tied embeddings, scaling, noise, ways of writing
    for arch, kinds in KINDS.items():
        for kind in kinds:
            shared = "D" if arch == "qwen moe" else None
            for dtype, tied, scaled, var in itertools.product([None, "bfloat16", "float16"], [False, True], range(4), range(len(VARIANTS))):
                for s in [shared, "D"] if arch == "deepseek" else [shared]:
                    yield [arch, kind, 2, "BA", s, dtype, tied, scaled, var]


SCALES = [[(None, None)] * 3, [(0.5, None), (None, None), (None, None)], [(None, None), (0.25, 0.5), (0.5, None)], [(0.0, 1.0), (-2.0, None), (None, 0.25)]]


def run_place(case):
    """Every tensor of the output, and its configuration."""
    arch, kind, layers, experts, shared, dtype, tied, scaled, var = case
    src = torch.float16 if dtype is None else torch.float32
    fx = {t: fixture(kind, t, layers, src, tied) for t in "ABCD"}
    base_d, base = fx["A"]
    sc = (SCALES[scaled] * 2)

    def entry(tag, i):
        e = {"source_model": fx[tag][0]}
        if sc[i][0] is not None:
            e["residual_scale"] = sc[i][0]
        if sc[i][1] is not None:
            e["noise_scale"] = sc[i][1]
        return e
    d = dict(base_model=base_d, gate_mode="random", architecture=arch, experts=[entry(t, i) for i, t in enumerate(experts)])
    if dtype:
        d["dtype"] = dtype
    if shared:
        d["shared_experts"] = [entry(shared, 2)]
    out = os.path.join(scratch("moe"), "out")
    try:
        with fixed_random():
            build(d, out, **VARIANTS[var])
        safe = VARIANTS[var].get("safe_serialization", True)
        got, cfg = e2e.read(out, "model" if safe else "pytorch_model", "safetensors" if safe else "bin")
        n = len(experts) + (1 if shared else 0)
        odt = getattr(torch, dtype) if dtype else src
        want = expected(arch, kind, base, [(fx[t][1],) + sc[i] for i, t in enumerate(experts)],
                        (fx[shared][1],) + sc[2] if shared else None, layers, odt, tied, gates(layers, n))
        ckpt.compare(got, want, str(case))
        num = {"mixtral": "num_local_experts", "deepseek": "n_routed_experts"}.get(arch, "num_experts")
        need = {"model_type": TYPES[arch], num: len(experts), "num_experts_per_tok": 2, "num_hidden_layers": layers, "hidden_size": H, "vocab_size": V,
                "tie_word_embeddings": tied, "num_attention_heads": 1, "num_key_value_heads": 1}
        need.update({"moe_intermediate_size": I} if arch != "mixtral" else {"intermediate_size": I})
        if arch == "qwen moe":
            need["shared_expert_intermediate_size"] = I
        if arch == "deepseek":
            need["n_shared_experts"] = 1 if shared else None
            need["first_k_dense_replace"] = 0
        if arch != "deepseek":  # under the names transformers gives them
            loaded = transformers.AutoConfig.from_pretrained(out)
            cfg = dict(cfg, **{k: getattr(loaded, k) for k in need if hasattr(loaded, k)})
        for k, v in need.items():
            if cfg.get(k, "missing") != v:
                raise Violation(f"{case}: {k} in the configuration is {cfg.get(k, 'missing')}, expected {v}")
        if (cfg.get("dtype") or cfg.get("torch_dtype")) != str(odt)[6:]:
            raise Violation(f"{case}: data type in the configuration is {cfg.get('dtype') or cfg.get('torch_dtype')}, expected {odt}")
        if (toks.read_vocab(out) if arch == "deepseek" else vocab(out)) != vocab(base_d, True):
            raise Violation(f"{case}: the tokenizer in the output is not that of the base model")
        return Obs(case, transitions=len(want))
    finally:
        drop(os.path.dirname(out))


# ---- loading: identical experts compute what the dense model computes

COMMON = {"tie_word_embeddings": [False, True], "num_key_value_heads": [1, 2], "rope_theta": [1e4, 5e5], "rms_norm_eps": [1e-6, 1e-2],
          "head_dim": [None, 6], "num_hidden_layers": [2, 1], "hidden_act": ["silu", "gelu"], "attention_bias": [False, True], "mlp_bias": [False, True],
          "rope_scaling": [None, "linear", "yarn"]}
AXES = {"llama": COMMON, "mistral": {k: v for k, v in COMMON.items() if k not in ("attention_bias", "mlp_bias")},
        "qwen2": {k: v for k, v in COMMON.items() if k not in ("attention_bias", "mlp_bias", "head_dim")},
        "qwen3": {k: v for k, v in COMMON.items() if k != "mlp_bias"}}
CLS = {"llama": "LlamaConfig", "mistral": "MistralConfig", "qwen2": "Qwen2Config", "qwen3": "Qwen3Config"}


def gen_load(tier):
    for arch, kinds in KINDS.items():
        if arch == "deepseek":
            continue
        for kind in kinds:
            ax = AXES[kind]
            for k in range(4 if tier == "quick" else 5):
                for names in itertools.combinations(ax, k):
                    for vals in itertools.product(*[ax[n][1:] for n in names]):
                        for seed in (0,) if tier == "quick" else (0, 1):
                            yield [arch, kind, dict(zip(names, vals)), seed]


IDS = torch.tensor([[0, 3, 4, 5, 2, 6, 7, 3, 2], [0, 7, 7, 1, 4, 2, 5, 6, 3]])


def run_load(case):
    arch, kind, setting, seed = case
    kw = dict(vocab_size=V, hidden_size=8, intermediate_size=12, num_hidden_layers=2, num_attention_heads=2, num_key_value_heads=1,
              max_position_embeddings=32, bos_token_id=0, eos_token_id=1, pad_token_id=None, torch_dtype="float32")
    kw.update(setting)
    if "rope_scaling" in setting:
        kw["rope_scaling"] = {"rope_type": setting["rope_scaling"], "factor": 2.0, **({"original_max_position_embeddings": 16} if setting["rope_scaling"] == "yarn" else {})}
        if "rope_theta" in setting:
            kw["rope_scaling"]["rope_theta"] = setting["rope_theta"]
    if kw.get("head_dim", 0) is None:
        del kw["head_dim"]
    cfg = getattr(transformers, CLS[kind])(**kw)
    d = scratch("ld")
    try:
        torch.manual_seed(seed)
        m = transformers.AutoModelForCausalLM.from_config(cfg).float().eval()
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn_like(p) * 0.3 + (1 if p.dim() == 1 else 0))
        src, out = f"{d}/src", f"{d}/out"
        m.save_pretrained(src)
        tokenizer(src)
        c = dict(base_model=src, gate_mode="random", dtype="float32", architecture=arch, experts=[{"source_model": src}] * 3)
        if arch == "qwen moe":
            c["shared_experts"] = [{"source_model": src, "residual_scale": 0.0}]
        cannot = (arch in ("mixtral", "qwen moe") and kind == "llama" and (setting.get("attention_bias") or setting.get("mlp_bias")))
        try:
            build(c, out)
        except SystemExit:
            if not cannot:
                raise Violation(f"{case}: refused")
            if os.path.exists(out):
                raise Violation(f"{case}: refused after writing {os.listdir(out)}")
            return Obs(("refused", case))
        got_m, info = transformers.AutoModelForCausalLM.from_pretrained(out, output_loading_info=True)
        bad = {k: sorted(map(str, v)) for k, v in info.items() if v}
        if bad:
            raise Violation(f"{case}: loading reports {bad}")
        with torch.no_grad():
            want, got = m(IDS).logits, got_m.float().eval()(IDS).logits
        err = (got - want).abs().max().item()
        if not err < 1e-4:
            raise Violation(f"{case}: three copies of one model as experts compute something else than the model: logits differ by {err}")
        return Obs(case, transitions=len(got_m.state_dict()))
    finally:
        drop(d)


# ---- gates

PROMPTS = {"A": ["a b"], "B": ["c", "d e f a"], "C": ["bb", "e"], "D": ["f f f f", "a", "c d"]}
NEG = {"B": ["a"], "D": ["b c", "e e e e"]}
MODES = ["cheap_embed", "hidden", "hidden_avg", "hidden_last"]


def gate_fixture():
    def make(d):
        cfg = transformers.LlamaConfig(vocab_size=V, hidden_size=H, intermediate_size=I, num_hidden_layers=2, num_attention_heads=2, num_key_value_heads=1,
                                       max_position_embeddings=32, bos_token_id=0, eos_token_id=1, torch_dtype="float32")
        torch.manual_seed(5)
        m = transformers.LlamaForCausalLM(cfg)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn_like(p) * 0.5 + (1 if p.dim() == 1 else 0))
        m.save_pretrained(d)
        tokenizer(d)
        return m.eval()
    return e2e.per_process("s03-gates", make)


def ids_of(prompt):
    return [0] + [TOKENS.index(c) for c in prompt if c in TOKENS]


def hidden(m, prompts, mode):
    """Each prompt alone, without padding."""
    res = []
    for p in prompts:
        with torch.no_grad():
            hs = m(torch.tensor([ids_of(p)]), output_hidden_states=True).hidden_states[:-1]
        hs = torch.stack([h[0].float() for h in hs])  # layer, position, h
        res.append(hs.mean(1) if mode == "hidden_avg" else hs[:, -1])
    return torch.stack(res).mean(0)


def gate_want(m, tag, mode, neg):
    if mode == "cheap_embed":
        emb = m.get_input_embeddings().weight.detach()

        def f(ps):
            v = sum(emb[i] for p in ps for i in ids_of(p))
            return (v / v.norm()).repeat(2, 1)
    else:
        def f(ps):
            return hidden(m, ps, mode)
    h = f(PROMPTS[tag])
    if neg and tag in NEG:
        h = h - f(NEG[tag])
    return h / h.norm(dim=-1, keepdim=True)


def gen_gates(tier):
    for mode in MODES:
        for neg in (False, True):
            for n in (2, 3, 4):
                for tags in itertools.permutations("ABCD", n):
                    for arch in ("mixtral", "qwen moe"):
                        if tier == "quick" and n == 3:
                            continue
                        yield [arch, mode, neg, "".join(tags)]


_bf = {}


def run_gates(case):
    """Gate row i belongs to the prompts of expert i, in every layer, and padding of the batch plays no role."""
    arch, mode, neg, tags = case
    d, m = gate_fixture()

    def entry(t):
        e = {"source_model": d, "positive_prompts": PROMPTS[t]}
        if neg and t in NEG:
            e["negative_prompts"] = NEG[t]
        return e
    tags_e = tags[:-1] if arch == "qwen moe" else tags
    if len(tags_e) < 2:
        return Obs(("short", case))
    c = dict(base_model=d, gate_mode=mode, dtype="float32", architecture=arch, experts=[entry(t) for t in tags_e])
    if arch == "qwen moe":
        c["shared_experts"] = [entry(tags[-1])]
    out = os.path.join(scratch("moe"), "out")
    try:
        build(c, out)
        got, _cfg = e2e.read(out)
        ref = m if mode == "cheap_embed" else _bf.setdefault(d, transformers.AutoModelForCausalLM.from_pretrained(d, torch_dtype=torch.bfloat16).eval())
        for l in range(2):
            rows = list(got[f"model.layers.{l}.mlp.gate.weight"])
            if len(rows) != len(tags_e):
                raise Violation(f"{case}: {len(rows)} gate rows for {len(tags_e)} experts")
            if arch == "qwen moe":
                rows += list(got[f"model.layers.{l}.mlp.shared_expert_gate.weight"])
            for t, row in zip(tags, rows):
                want = gate_want(ref, t, mode, neg)[l]
                if not (row - want).abs().max() < (1e-5 if mode == "cheap_embed" else 0.03):
                    raise Violation(f"{case}: gate of {t} in layer {l} is {row.tolist()}, expected {want.tolist()}")
        return Obs(case, transitions=len(tags) * 2)
    finally:
        drop(os.path.dirname(out))


# ---- refusals

def gen_reject(tier):
    def cfg(arch, kinds, n, per_tok, mode, shared, prompts):
        return [arch, kinds, n, per_tok, mode, shared, prompts]
    for arch in ["mixtral", "deepseek", "qwen moe", "qwen3", None, "nonsense", "q"]:
        for kinds in ["LL", "LM", "MM", "2L", "22", "33", "3L", "L3"]:
            for n, per_tok in [(2, 2), (2, 3), (2, 0), (0, 1), (3, 1)]:
                for mode in ["random", "cheap_embed", "uniform_random"]:
                    for shared in [None, "bare", "prompted", "two", "mixed"]:
                        for prompts in ["distinct", "same", "none", "partial"]:
                            if tier == "quick" and sum([n != 2 or per_tok != 2, mode != "random", shared is not None, prompts != "distinct"]) > 2:
                                continue
                            yield cfg(arch, kinds, n, per_tok, mode, shared, prompts)


NAME = {"L": "llama", "M": "mistral", "2": "qwen2", "3": "qwen3"}


def acceptable(arch, kinds, n, per_tok, mode, shared, prompts):
    """Name of the output architecture the documentation promises, or None."""
    if per_tok < 1 or n < per_tok:
        return None
    if mode != "random":
        if prompts in ("none", "same", "partial"):
            return None
    same = len(set(kinds)) == 1
    ns = {"two": 2, "mixed": 2, None: 0}.get(shared, 1)
    if shared == "mixed":
        return None
    ok = []
    if ns == 0 and same and kinds[0] in "LM":
        ok.append("mixtral")
    if ns <= 1 and shared != "prompted" and same and kinds[0] in "LM":
        ok.append("deepseek")
    if ns == 1 and same and kinds[0] in "LM2" and (mode == "random" or shared == "prompted"):
        ok.append("qwen moe")
    if ns == 0 and kinds == "33":
        ok.append("qwen3")
    if arch == "nonsense":
        return None
    if arch == "q":
        ok = [a for a in ok if a.startswith("q")]
    elif arch:
        ok = [a for a in ok if a == arch]
    return ok[0] if ok else None


def run_reject(case):
    arch, kinds, n, per_tok, mode, shared, prompts = case
    dirs = [fixture(NAME[k], t, 1)[0] for k, t in zip(kinds, "AB")]

    def entry(i):
        e = {"source_model": dirs[i % 2]}
        if prompts == "distinct" or (prompts == "partial" and i == 0):
            e["positive_prompts"] = [TOKENS[2 + i]]
        elif prompts == "same":
            e["positive_prompts"] = ["a"]
        return e
    c = dict(base_model=dirs[0], gate_mode=mode, experts=[entry(i) for i in range(n)], experts_per_token=per_tok)
    if arch:
        c["architecture"] = arch
    if shared:
        s = {"source_model": dirs[0]}
        p = dict(s, positive_prompts=["f"])
        c["shared_experts"] = {"bare": [s], "prompted": [p], "two": [s, s], "mixed": [s, p]}[shared]
    want = acceptable(*case)
    out = os.path.join(scratch("moe"), "out")
    try:
        err = None
        try:
            build(c, out, allow_all_same=False)
        except (SystemExit, AssertionError, ValueError, RuntimeError, TypeError) as e:
            err = e
        if err is not None:
            if want:
                raise Violation(f"{case}: refused ({err!r}), expected {want} output")
            if os.path.exists(out) and os.listdir(out):
                raise Violation(f"{case}: refused ({err!r}) after writing {os.listdir(out)}")
            return Obs(("refused", case))
        mt = json.load(open(f"{out}/config.json"))["model_type"]
        if want is None:
            raise Violation(f"{case}: accepted, wrote {mt}")
        if mt != TYPES[want]:
            raise Violation(f"{case}: wrote {mt}, expected {want}")
        return Obs(case)
    finally:
        drop(os.path.dirname(out))


# ---- adapters

def gen_lora(tier):
    for arch in ("mixtral", "deepseek", "qwen moe"):
        for which in range(1, 8):
            if arch != "qwen moe" and which & 4:
                continue
            yield [arch, which]


def lora_fixture():
    import peft

    def make(d):
        base_d, ts = fixture("llama", "A", 2)
        m = transformers.AutoModelForCausalLM.from_pretrained(base_d)
        p = peft.get_peft_model(m, peft.LoraConfig(r=1, lora_alpha=2, target_modules=["q_proj", "down_proj"], task_type="CAUSAL_LM"))
        res = dict(ts)
        with torch.no_grad():
            for n, q in p.named_parameters():
                if "lora_" in n:
                    q.copy_(torch.randint(-4, 5, q.shape).float())
            for n, mod in p.named_modules():
                if n.endswith(("q_proj", "down_proj")):
                    name = n.removeprefix("base_model.model.") + ".weight"
                    res[name] = ts[name] + 2 * mod.lora_B["default"].weight.detach() @ mod.lora_A["default"].weight.detach()
        p.save_pretrained(d)
        return res
    torch.manual_seed(3)
    return e2e.per_process("s03-lora", make)


def run_lora(case):
    """base, expert and shared expert given with an adapter (bits of `which`)."""
    arch, which = case
    base_d, plain = fixture("llama", "A", 2)
    lora_d, tuned = lora_fixture()
    d = scratch("moe")
    out = f"{d}/out"
    try:
        ref = [base_d + ("+" + lora_d if which >> i & 1 else "") for i in range(3)]
        ts = [tuned if which >> i & 1 else plain for i in range(3)]
        c = dict(base_model=ref[0], gate_mode="random", dtype="float32", architecture=arch, experts=[{"source_model": ref[1]}, {"source_model": base_d}])
        if arch == "qwen moe":
            c["shared_experts"] = [{"source_model": ref[2]}]
        os.makedirs(f"{d}/cache")
        with fixed_random():
            build(c, out, lora_merge_cache=f"{d}/cache")
        got, _ = e2e.read(out)
        n = 3 if arch == "qwen moe" else 2
        want = expected(arch, "llama", ts[0], [(ts[1], None, None), (plain, None, None)], (ts[2], None, None) if n == 3 else None, 2, torch.float32, False, gates(2, n))
        ckpt.compare(got, want, str(case))
        return Obs(case, transitions=len(want))
    finally:
        drop(d)


# ---- command line

def gen_cli(tier):
    for arch in KINDS:
        for card in (False, True):
            for tok in (False, True):
                for same in (False, True):
                    yield [arch, card, tok, same]


def run_cli(case):
    import yaml
    from click.testing import CliRunner
    arch, card, tok, same = case
    kind = KINDS[arch][0]
    a, b = fixture(kind, "A", 1), fixture(kind, "B", 1)
    c = dict(base_model=a[0], gate_mode="uniform_random", dtype="float32", architecture=arch,
             experts=[{"source_model": a[0], "positive_prompts": ["a"]}, {"source_model": (a if same else b)[0], "positive_prompts": ["b"]}])
    if arch == "qwen moe":
        c["shared_experts"] = [{"source_model": b[0], "positive_prompts": ["c"]}]
    d = scratch("moe")
    try:
        src = yaml.safe_dump(c) + "# text\n"
        open(f"{d}/c.yml", "w").write(src)
        args = [f"{d}/c.yml", f"{d}/out", "--random-seed", "3", "--write-model-card" if card else "--no-write-model-card", "--copy-tokenizer" if tok else "--no-copy-tokenizer"]
        with hush():
            r = CliRunner().invoke(moe.main, args)
        if same:
            if r.exit_code == 0 or os.path.exists(f"{d}/out"):
                raise Violation(f"{case}: experts that are all the same model accepted without the flag")
            args.append("--i-understand-this-is-not-useful-without-training")
        with hush():
            r = CliRunner().invoke(moe.main, args)
            if r.exit_code:
                raise Violation(f"mergekit-moe {args} fails: {r.exception!r}")
            CliRunner().invoke(moe.main, [args[0], f"{d}/again"] + args[2:])
        fs = os.listdir(f"{d}/out")
        if ("mergekit_moe_config.yml" in fs) != card or (card and open(f"{d}/out/mergekit_moe_config.yml").read() != src):
            raise Violation(f"{case}: record of the configuration: {fs}")
        if ("tokenizer.json" in fs) != tok:
            raise Violation(f"{case}: tokenizer: {fs}")
        x, y = e2e.read(f"{d}/out")[0], e2e.read(f"{d}/again")[0]
        ckpt.compare(y, x, f"{case}: repeated with the same seed")
        gate = x["model.layers.0.mlp.gate.weight"]
        if not (gate.abs() <= 0.5).all() or gate.shape != (2, H):  # 1/sqrt(H) = 0.5
            raise Violation(f"{case}: uniform gates outside the default range of a linear layer: {gate}")
        return Obs(case, transitions=len(x))
    finally:
        drop(d)


FAMILIES = [
    Family("place", gen_place, run_place, rule="4 output architectures x input kinds x 1-2 (3) layers x every list of 2-3 (4) of 3 experts x shared experts; data types, tied embeddings, scales, noise, 6 ways of writing"),
    Family("load", gen_load, run_load, rule="output of three equal experts loaded by transformers computes what the dense model does, for every setting of up to 3 (4) of up to 10 configuration axes"),
    Family("gates", gen_gates, run_gates, rule="4 gate modes x every order of 2 or 4 (2-4) of 4 prompt sets x negative prompts x two architectures, against each prompt alone"),
    Family("reject", gen_reject, run_reject, rule="7 requested architectures x 8 model kinds x expert counts x modes x shared experts x prompts (all; up to 2 deviations in quick): accepted or refused as documented, nothing written on refusal"),
    Family("lora", gen_lora, run_lora, rule="base, expert, shared expert with or without adapter"),
    Family("cli", gen_cli, run_cli, rule="mergekit-moe flags"),
]
