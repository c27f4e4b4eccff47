"""T02: configuration, tokenizer, weights, card and recorded configuration of the output directory agree."""
from __future__ import annotations

import itertools
import json
import os
import re

import torch
import transformers
import yaml

from mc import archdefs, core, e2e, hfmodels, tiny, toks
from mc.core import Family, Obs, Violation, drop, scratch
from mergekit.card import generate_card
from mergekit.config import MergeConfiguration

LEVEL = "model_checking"
ASSUMPTIONS = [
    "loadability is judged by the installed transformers, for the definitions it has model code for",
    "the output directory is new or empty",
    "layer selections that change a per-layer property the configuration keeps in another form than a list of layer types (dense layers of mixture models, interleaving steps) are not explored",
    "which of several equally frequent chat templates 'auto' selects is not prescribed",
]

TEMPLATES = os.path.join(core.REPO, "mergekit", "_data", "chat_templates")
VOCAB_A = [f"t{i}" for i in range(22)] + ["<|endoftext|>"]
VOCAB_B = ["<|endoftext|>"] + [f"t{i}" for i in range(4, 22)][::-1] + [f"u{i}" for i in range(2)]  # 21 tokens, 25 in the union


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key=key)


def get(cfg, key, default=None):
    for p in key.split("."):
        if not isinstance(cfg, dict) or p not in cfg:
            return default
        cfg = cfg[p]
    return cfg


# -- every architecture with models of different vocabularies --------------------------------------

def vocab_key(cls, base):
    return "text_config.vocab_size" if "text_config" in base else "vocab_size"


def is_vocab(k, t, n):
    return t.dim() > 0 and t.shape[0] == n


BIAS = re.compile(r"(cls\.predictions(\.decoder)?\.bias|vocab_projector\.bias|lm_head(\.decoder)?\.bias|final_logits_bias)$")


def run_arch(case):
    table, key, idx, setting, source, pad, base_i = case
    arch, cls, base, axes = (hfmodels.MODELS if table == "defs" else hfmodels.INFERRED)[key][idx]
    what = f"{arch} {setting} {source} pad={pad} base={base_i}"
    vocabs = [VOCAB_A, VOCAB_B]
    ds = [e2e.per_process(f"{arch}-{json.dumps(setting)}-{i}", lambda d, i=i: mk_arch(d, i, arch, cls, base, setting))[0] for i in range(2)]
    out = scratch("o")
    known = []
    try:
        cfg = {"merge_method": "linear", "dtype": "float32", "models": [
            {"model": ds[0], "parameters": {"weight": 0.25}}, {"model": ds[1], "parameters": {"weight": 0.75}}]}
        if base_i is not None:
            cfg["base_model"] = ds[base_i]
        if source:
            cfg["tokenizer"] = {"source": ds[source - 1] if isinstance(source, int) else source}
            if pad:
                cfg["tokenizer"]["pad_to_multiple_of"] = pad
        a, b = [hfmodels.load(arch, d)[0] for d in ds]
        # tensors of vocabulary size other than matrices of embeddings have no place in tokenizer merging
        biases = [k for k in a if BIAS.search(k) and len(VOCAB_A) in a[k].shape]
        try:
            _ts, c, _ = e2e.merge(cfg, out, keep=True)
        except (RuntimeError, KeyError, ValueError, TypeError, AttributeError, AssertionError, IndexError) as e:
            raise Violation(f"{what}: not mergeable: {type(e).__name__}: {str(e)[:200]}", key="vocabulary-sized-biases" if biases else None)
        order = [ds[base_i]] + [d for d in ds if d != ds[base_i]] if base_i is not None else ds
        if source is None:
            n = min(map(len, vocabs))
        else:
            want = {"union": set(VOCAB_A) | set(VOCAB_B), "base": set(vocabs[ds.index(order[0])])}.get(source)
            if want is None:
                want = set(vocabs[source - 1])
            v = toks.read_vocab(out)
            expect(v is not None and set(v) == want, f"{what}: tokens of the saved tokenizer are {v and sorted(v)}")
            expect(sorted(v.values()) == list(range(len(v))), f"{what}: token ids {sorted(v.values())}")
            n = len(v)
            if pad and n % pad:
                n += pad - n % pad
        vk = vocab_key(cls, base)
        expect(get(c, vk) == n, f"{what}: {vk} is {get(c, vk)}, expected {n}")
        try:
            o, po = hfmodels.load(arch, out)
        except (RuntimeError, ValueError) as e:
            raise Violation(f"{what}: merged model does not load: {str(e)[-200:]}", key="vocabulary-sized-biases" if biases else None)
        expect(not po, f"{what}: merged model does not load cleanly: {po}")
        m = 0
        for k in a:
            va, vb = is_vocab(k, a[k], len(VOCAB_A)), is_vocab(k, b[k], len(VOCAB_B))
            if not a[k].is_floating_point():
                continue
            if not (va and vb):
                want = 0.25 * a[k].double() + 0.75 * b[k].double()
                expect(k in o and o[k].shape == want.shape and torch.allclose(o[k].double(), want, atol=1e-5), f"{what}: {k} is not the merge of the tensors of that name")
                continue
            m += 1
            expect(o[k].shape[0] == n, f"{what}: {k} has {o[k].shape[0]} rows, expected {n}")
            if source is None:
                want = 0.25 * a[k][:n].double() + 0.75 * b[k][:n].double()
                expect(torch.allclose(o[k].double(), want, atol=1e-5), f"{what}: {k} is not the merge of the tensors of that name")
                continue
            for t, i in v.items():
                rows = [s[k][voc.index(t)].double() if t in voc else None for s, voc in ((a, VOCAB_A), (b, VOCAB_B))]
                ra, rb = [r if r is not None else rows[1 - j] for j, r in enumerate(rows)]
                expect(torch.allclose(o[k][i].double(), 0.25 * ra + 0.75 * rb, atol=1e-5), f"{what}: row of token {t} in {k}")
        expect(m, f"{what}: no embeddings found")
    finally:
        drop(out)
    return Obs((arch, str(setting), str(source), pad, base_i), states=len(a), transitions=2 * len(a), known=known)


def mk_arch(d, i, arch, cls, base, setting):
    voc = [VOCAB_A, VOCAB_B][i]
    hfmodels.build(arch, hfmodels.config(cls, base, {**setting, vocab_key(cls, base): len(voc)}), i + 1).save_pretrained(d)
    toks.write_tokenizer(d, voc)
    return None


# settings that matter to embeddings, and those needed by a family
def gen_arch(tier):
    for table, models in (("defs", hfmodels.MODELS), ("inferred", hfmodels.INFERRED)):
        for key, entries in models.items():
            if key == "vit":
                continue
            for i, (arch, cls, base, axes) in enumerate(entries):
                ties = [{k: v} for k in axes if k == "tie_word_embeddings" for v in axes[k]] or [{}]
                for s in ties:
                    if arch == "WhisperForConditionalGeneration" and not s["tie_word_embeddings"]:
                        continue  # finding of A01
                    for source, pad, b in [("union", None, None), ("union", 8, 0), ("base", None, 1), (2, 16, 0), (None, None, 0)] if tier == "quick" else \
                            itertools.product(("union", "base", 1, 2, None), (None, 1, 8, 13), (None, 0, 1)):
                        if source == "base" and b is None or source is None and pad:
                            continue
                        yield [table, key, i, s, source, pad, b]


# -- layer selections -----------------------------------------------------------------------------

LAYERED = {  # definition -> module -> (configuration key, prefix of its layers)
    "llama": {"default": ("num_hidden_layers", "model.layers.")},
    "gemma3": {"default": ("num_hidden_layers", "model.layers.")},
    "qwen2": {"default": ("num_hidden_layers", "model.layers.")},
    "cohere2": {"default": ("num_hidden_layers", "model.layers.")},
    "gpt2": {"default": ("n_layer", "transformer.h.")},
    "gpt-neox": {"default": ("num_hidden_layers", "gpt_neox.layers.")},
    "mixtral": {"default": ("num_hidden_layers", "model.layers.")},
    "qwen3_moe": {"default": ("num_hidden_layers", "model.layers.")},
    "falcon": {"default": ("num_hidden_layers", "transformer.h.")},
    "mamba": {"default": ("num_hidden_layers", "backbone.layers.")},
    "bert-masked-lm": {"default": ("num_hidden_layers", "bert.encoder.layer.")},
    "distilbert": {"default": ("n_layers", "transformer.layer.")},
    "granite4moehybrid": {"default": ("num_hidden_layers", "model.layers.")},
    "lfm2": {"default": ("num_hidden_layers", "model.layers.")},
    "t5": {"encoder": ("num_layers", "encoder.block."), "decoder": ("num_decoder_layers", "decoder.block.")},
    "whisper": {"encoder": ("encoder_layers", "model.encoder.layers."), "decoder": ("decoder_layers", "model.decoder.layers.")},
    "gemma3vl": {"text_decoder": ("text_config.num_hidden_layers", "model.language_model.layers."), "vision_tower": ("vision_config.num_hidden_layers", "model.vision_tower.encoder.layers.")},
    "qwen2_vl": {"text_decoder": ("text_config.num_hidden_layers", "model.language_model.layers."), "vision_tower": ("vision_config.depth", "model.visual.blocks.")},
}
TYPED = {"gemma3": ("layer_types", ["sliding_attention", "full_attention"]), "cohere2": ("layer_types", ["sliding_attention", "full_attention"]),
         "granite4moehybrid": ("layer_types", ["mamba", "attention"]), "lfm2": ("layer_types", ["conv", "full_attention"]),
         "qwen2": ("layer_types", ["full_attention", "full_attention"])}
SEL = [(0, 1), (1, 2), (0, 2)]


def layer_slices(limit):
    one = [[(m, *r)] for m in (0, 1) for r in SEL]
    two = [a + b for a in one for b in one]
    three = [a + b for a in two for b in one] if limit > 2 else []
    return one + two + three


def mk_layered(d, i, arch, cls, base, setting):
    hfmodels.build(arch, hfmodels.config(cls, base, setting), i + 1).save_pretrained(d)


def run_layers(case):
    name, sel, types, tie = case
    arch, cls, base, _axes = hfmodels.MODELS[name][0]
    mods = LAYERED[name]
    settings = []
    for i in range(2):
        s = {} if tie is None else {"tie_word_embeddings": bool(tie[i])}
        if types:
            s[TYPED[name][0]] = types[i]
        settings.append(s)
    ds = [e2e.per_process(f"{arch}-{json.dumps(settings[i])}-{i}", lambda d, i=i: mk_layered(d, i, arch, cls, base, settings[i]))[0] for i in range(2)]
    src = [hfmodels.load(arch, d)[0] for d in ds]
    out = scratch("o")

    def sl(x):
        return [{"sources": [{"model": ds[m], "layer_range": [lo, hi]}]} for m, lo, hi in x]
    try:
        cfg = {"merge_method": "passthrough", "dtype": "float32"}
        if len(mods) == 1:
            cfg["slices"] = sl(sel["default"])
        else:
            cfg["modules"] = {m: {"slices": sl(sel[m])} for m in mods}
            for m, _p, _a in archdefs.modules(archdefs.load(name)):
                if m not in mods:
                    cfg["modules"][m] = {"models": [{"model": ds[0]}]}
        what = f"{name} {sel} types={types} tied={tie}"
        try:
            _ts, c, _ = e2e.merge(cfg, out, keep=True)
        except (RuntimeError, KeyError, ValueError, TypeError, AttributeError, AssertionError, IndexError) as e:
            raise Violation(f"{what}: not mergeable: {type(e).__name__}: {str(e)[:200]}")
        try:
            o, po = hfmodels.load(arch, out)
        except (RuntimeError, ValueError) as e:
            raise Violation(f"{what}: merged model does not load: {str(e)[-200:]}")
        expect(not po, f"{what}: merged model does not load cleanly: {po}")
        n = 0
        for m, (ckey, prefix) in mods.items():
            flat = [(mod, l) for mod, lo, hi in sel[m] for l in range(lo, hi)]
            conf = transformers.AutoConfig.from_pretrained(out)
            got = conf
            for p in ckey.split("."):
                got = getattr(got, p)
            expect(got == len(flat), f"{what}: {ckey} is {got}, expected {len(flat)}")
            if types:
                want = [types[mod][l] for mod, l in flat]
                expect(list(getattr(conf, TYPED[name][0])) == want, f"{what}: layer types {getattr(conf, TYPED[name][0])}, expected {want}")
            for i, (mod, l) in enumerate(flat):
                mine = {k[len(f"{prefix}{i}."):]: t for k, t in o.items() if k.startswith(f"{prefix}{i}.")}
                its = {k[len(f"{prefix}{l}."):]: t for k, t in src[mod].items() if k.startswith(f"{prefix}{l}.")}
                if name == "t5":  # only the first layer has the relative position embeddings
                    mine, its = ({k: t for k, t in x.items() if "relative_attention_bias" not in k} for x in (mine, its))
                expect(its and set(mine) == set(its) and all(torch.equal(mine[k], its[k]) for k in its), f"{what}: layer {i} of {m} is not layer {l} of model {mod}")
                n += len(its)
            expect(not any(k.startswith(f"{prefix}{len(flat)}.") for k in o), f"{what}: extra layers")
        if tie is not None and len(mods) == 1:
            first, last = sel["default"][0][0], sel["default"][-1][0]
            e, h = src[first], src[last]
            ek = "transformer.wte.weight" if name == "gpt2" else "model.embed_tokens.weight"
            expect(torch.equal(o[ek], e[ek]), f"{what}: embeddings are not those of the first slice")
            if not (tie[0] and tie[1]):
                expect(torch.equal(o["lm_head.weight"], h["lm_head.weight"]), f"{what}: output head is not that of the last slice")
    finally:
        drop(out)
    return Obs((name, json.dumps(sel), str(types), str(tie)), states=n, transitions=n)


def gen_layers(tier):
    for name, mods in LAYERED.items():
        ty = [None]
        if name in TYPED:
            ts = [list(x) for x in itertools.product(dict.fromkeys(TYPED[name][1]), repeat=2)]
            ty = list(itertools.product(ts, repeat=2)) if tier == "thorough" else [(ts[i], ts[j]) for i, j in ((1, 1), (1, 2), (0, 3))] if len(ts) > 1 else [(ts[0], ts[0])]
        ties = [None]
        if name in ("llama", "gpt2"):
            ties = [list(x) for x in itertools.product((0, 1), repeat=2)]
        allsel = layer_slices(3 if tier == "thorough" else 2)
        for t, tie in itertools.product(ty, ties):
            if len(mods) == 1:
                for s in allsel:
                    yield [name, {"default": s}, t, tie]
            else:
                few = layer_slices(2) if tier == "thorough" else [[(0, 0, 2)], [(1, 1, 2)], [(0, 0, 1), (1, 0, 2)], [(1, 1, 2), (0, 1, 2)]]
                for s in itertools.product(few, repeat=len(mods)):
                    if tier == "thorough" and len(s[0]) + len(s[1]) > 3:
                        continue
                    if name == "t5" and any((lo == 0) != (j == 0) for x in s for j, (_m, lo, _hi) in enumerate(x)):
                        continue  # the first layer of the output has to be a first layer
                    yield [name, dict(zip(mods, s)), t, tie]


# -- combinations of models that differ in vocabulary, embedding rows, tying -------------------------

KINDS = {  # vocabulary, rows, tied
    "a": (VOCAB_A[:6], 6, False), "t": (VOCAB_A[:6], 6, True), "p": (VOCAB_A[:6], 8, False), "s": (VOCAB_A[:4], 4, False), "w": (VOCAB_A[2:9], 7, True),
}


def mk_kind(d, kind, i):
    voc, rows, tied = KINDS[kind]
    ts = tiny.make_llama(d, f"t02-{kind}-{i}", 2, vocab=rows, lm_head=not tied, value=tiny.wide)
    toks.write_tokenizer(d, voc)
    return ts


METHODS = ["linear", "passthrough", "slerp", "task_arithmetic", "model_stock", "nuslerp", "karcher", "multislerp"]


def run_mixed(case):
    kinds, method, base_i, source, pad, out_dtype = case
    what = str(case)
    fx = [e2e.per_process(f"k-{k}-{i}", lambda d, k=k, i=i: mk_kind(d, k, i)) for i, k in enumerate(kinds)]
    ds = [f[0] for f in fx]
    out = scratch("o")
    try:
        cfg = {"merge_method": method, "dtype": "float32"}
        if out_dtype:
            cfg["out_dtype"] = out_dtype
        if method == "passthrough":
            cfg["slices"] = [{"sources": [{"model": d, "layer_range": [i, i + 1]}]} for i, d in enumerate(ds)]
        else:
            cfg["models"] = [{"model": d} for i, d in enumerate(ds) if not (method in ("task_arithmetic", "nuslerp") and i == base_i)]
            if method == "slerp":
                cfg["parameters"] = {"t": 0.5}
            elif method != "karcher" and method != "model_stock":
                cfg["parameters"] = {"weight": 0.5}
        if base_i is not None:
            cfg["base_model"] = ds[base_i]
        if source is not None:
            cfg["tokenizer"] = {"source": ds[source] if isinstance(source, int) else source}
            if pad:
                cfg["tokenizer"]["pad_to_multiple_of"] = pad
        try:
            ts, c, _ = e2e.merge(cfg, out, keep=True)
        except (RuntimeError, ValueError, KeyError, IndexError, TypeError, AssertionError) as e:
            # refused: acceptable only where the method cannot take the inputs
            ok = source is None and len({KINDS[k][1] for k in kinds}) > 1 and method in ("multislerp", "task_arithmetic")
            expect(ok, f"{what}: merge fails: {type(e).__name__}: {str(e)[:200]}")
            return Obs(("refused", what))
        rows = {ts[k].shape[0] for k in ("model.embed_tokens.weight", "lm_head.weight") if k in ts}
        key = "passthrough-vocabularies" if method == "passthrough" and source is None and len({KINDS[k][1] for k in kinds}) > 1 else None
        expect(rows == {c["vocab_size"]}, f"{what}: vocab_size {c['vocab_size']} and embeddings of {sorted(rows)} rows", key=key)
        conf = transformers.AutoConfig.from_pretrained(out)
        want_dtype = out_dtype or "float32"
        expect({str(t.dtype)[6:] for t in ts.values()} == {want_dtype}, f"{what}: stored types {set(t.dtype for t in ts.values())}")
        expect(str(conf.dtype)[-len(want_dtype):] == want_dtype, f"{what}: configured type {conf.dtype}, stored {want_dtype}")
        tied = [KINDS[k][2] for k in kinds]
        if source is not None:
            v = toks.read_vocab(out)
            have = [set(KINDS[k][0]) for k in kinds]
            want = set.union(*have) if source == "union" else have[base_i if source == "base" else source]
            expect(v and set(v) == want, f"{what}: tokens {v}, expected {sorted(want)}")
            n = len(want) + (-len(want) % pad if pad else 0)
            expect(rows == {n}, f"{what}: embeddings of {rows} rows, expected {n}")
            expect(max(v.values()) < n, f"{what}: token ids {v} beyond {n}")
        try:
            o, po = hfmodels.load("LlamaForCausalLM", out)
        except (RuntimeError, ValueError) as e:
            raise Violation(f"{what}: merged model does not load: {str(e)[-200:]}")
        expect(not po, f"{what}: merged model does not load cleanly: {po}")
        if not all(tied):
            expect("lm_head.weight" in ts and torch.equal(o["lm_head.weight"], ts["lm_head.weight"]), f"{what}: output head lost")
            expect(not conf.tie_word_embeddings, f"{what}: configured as tied, with an output head of its own")
        else:
            expect(conf.tie_word_embeddings, f"{what}: configured as not tied")
    finally:
        drop(out)
    return Obs(what, states=len(ts), transitions=len(ts))


def gen_mixed(tier):
    for kinds in itertools.product(KINDS, repeat=2):
        for method in METHODS:
            for base_i in (None, 0, 1):
                if (base_i is None) != (method in ("linear", "passthrough", "karcher", "multislerp")) and not (method in ("linear", "passthrough", "nuslerp", "multislerp") and base_i is not None and tier == "thorough"):
                    if not (method == "linear" and base_i is not None):
                        continue
                if method == "model_stock":
                    continue
                if method in ("nuslerp",) and base_i is not None:
                    continue
                for source, pad in ((None, None), ("union", None), ("union", 4), ("base", 5), (0, None), (1, 64)) if tier == "quick" else \
                        itertools.product((None, "union", "base", 0, 1), (None, 1, 2, 3, 4, 5, 7, 8, 64)):
                    if source is None and pad or source == "base" and base_i is None:
                        continue
                    for od in (None, "float16", "bfloat16") if tier == "thorough" or (method == "linear" and source is None) else (None,):
                        yield [list(kinds), method, base_i, source, pad, od]


# -- tokenizer files and chat templates -------------------------------------------------------------

X = "{% for m in messages %}X{{ m['content'] }}{% endfor %}"
Y = "{% for m in messages %}Y{{ m['content'] }}{% endfor %}"
COPIED = ["tokenizer_config.json", "special_tokens_map.json", "tokenizer.json", "tokenizer.model", "added_tokens.json", "merges.txt",
          "chat_template.jinja", "generation_config.json", "chat_template.json", "video_preprocessor_config.json"]
TOKFILES = set(COPIED) | {"vocab.json"}


def mk_donor(d, i, files, template):
    tiny.make_llama(d, f"t02-d{i}", 1, vocab=4)
    if files == "none":
        return
    cfg = {"model_max_length": 100 + i}
    if template == "dict":
        cfg["chat_template"] = [{"name": "default", "template": X}, {"name": "tool", "template": Y}]
    elif template == "onlytool":
        cfg["chat_template"] = [{"name": "tool", "template": Y}, {"name": "rag", "template": X}]
    elif template == "X ":
        cfg["chat_template"] = X + "\n "
    elif template:
        cfg["chat_template"] = {"X": X, "Y": Y, "Z": X.replace("X", "Z")}[template]
    toks.write_tokenizer(d, ["a", "b", "ab", "<|x|>"], merges=[("a", "b")], cfg=cfg)
    if files == "noconfig":
        os.unlink(os.path.join(d, "tokenizer_config.json"))
    if files == "full":
        for f, c in (("special_tokens_map.json", "{}"), ("added_tokens.json", "{}"), ("merges.txt", f"a b\n"), ("generation_config.json", json.dumps({"max_length": 10 + i})),
                     ("video_preprocessor_config.json", json.dumps({"donor": i})), ("unrelated.txt", "no")):
            with open(os.path.join(d, f), "w") as fp:
                fp.write(c)


def donor(i, files, template):
    return e2e.per_process(f"d-{i}-{files}-{template}", lambda d: mk_donor(d, i, files, template))[0]


def raw(path, f):
    p = os.path.join(path, f)
    if not os.path.exists(p):
        return None
    with open(p, "rb") as fp:
        return fp.read()


def saved_template(path):
    t = transformers.AutoTokenizer.from_pretrained(path).chat_template
    return t


def default_of(template):
    return {None: None, "X": X, "X ": X, "Y": Y, "Z": X.replace("X", "Z"), "dict": X, "onlytool": None}[template]


def run_files(case):
    donors, base_i, copy, source, chat = case
    what = str(case)
    ds = [donor(i, f, t) for i, (f, t) in enumerate(donors)]
    out = scratch("o")
    try:
        cfg = {"merge_method": "linear", "dtype": "float32", "models": [{"model": d, "parameters": {"weight": 1.0}} for d in ds]}
        if base_i is not None:
            cfg["base_model"] = ds[base_i]
        if source is not None:
            cfg["tokenizer_source"] = ds[source] if isinstance(source, int) else source
        if chat is not None:
            cfg["chat_template"] = chat
        try:
            e2e.merge(cfg, out, keep=True, copy_tokenizer=copy)
        except RuntimeError as e:
            if "nvalid chat template" in str(e) and chat == "nonsense":
                return Obs(("refused", what))
            raise Violation(f"{what}: {e}")
        expect(not (chat == "nonsense" and source is not None), f"{what}: a chat template that is none was accepted")
        files = set(os.listdir(out))
        first = base_i or 0
        df, dt = donors[first]
        # the template that should be there: list of acceptable ones
        own = {"full": dt, "json": dt}.get(df)
        if source is not None:
            src = {"union": first, "base": first}.get(source, source)
            own = None if donors[src][0] in ("none", "noconfig") else donors[src][1]
        if chat is None or chat == "auto":
            accept = None
            if chat == "auto":
                seen = [default_of(t) for f, t in donors if f in ("full", "json") and default_of(t)]
                if seen:
                    top = max(seen.count(x) for x in seen)
                    accept = [x for x in seen if seen.count(x) == top]
        elif chat in ("alpaca", "chatml", "exaone", "llama3", "mistral"):
            with open(os.path.join(TEMPLATES, chat + ".jinja")) as f:
                accept = [f.read()]
        else:
            accept = [chat]
        if source is None and not copy:
            expect(not files & TOKFILES, f"{what}: tokenizer files {sorted(files & TOKFILES)} although copying is off")
        elif source is None and df == "none":
            expect(not files & {"tokenizer.json", "tokenizer_config.json"}, f"{what}: a tokenizer appeared from somewhere")
        elif source is None and chat == "nonsense":
            expect(True, "")
        elif source is None and chat is None and df != "noconfig":
            for f in TOKFILES:
                expect(raw(out, f) == (raw(ds[first], f) if f in COPIED else None), f"{what}: {f} is not the file of the model it is taken from")
        else:
            v = toks.read_vocab(out)
            expect(v == {"a": 0, "b": 1, "ab": 2, "<|x|>": 3}, f"{what}: saved vocabulary {v}")
            t = transformers.AutoTokenizer.from_pretrained(out)
            got = t.chat_template
            if accept:
                expect(got in accept, f"{what}: saved chat template {got!r}, expected one of {accept}")
            else:
                if source != "union":
                    want = {"dict": {"default": X, "tool": Y}, "onlytool": {"tool": Y, "rag": X}, "X ": X + "\n "}.get(own, default_of(own))
                    expect(got == want, f"{what}: saved chat template {got!r}, expected that of the tokenizer's model, {want!r}")
            if source is None and df != "noconfig":
                expect(t.model_max_length == 100 + first, f"{what}: tokenizer was not taken from the base or first model")
        expect("unrelated.txt" not in files, f"{what}: unrelated file copied")
    finally:
        drop(out)
    return Obs(what, transitions=len(files))


def gen_files(tier):
    kinds = ("full", "json", "noconfig", "none")
    chats = [None, "auto", "alpaca", "chatml", "exaone", "llama3", "mistral", Y + " {{ bos_token }}", "nonsense"]
    for f0, f1 in itertools.product(kinds, repeat=2):
        for base_i in (None, 0, 1):
            for copy in (False, True):
                for source in (None, "union", "base", 0, 1):
                    if source == "base" and base_i is None:
                        continue
                    if source is not None and ("none" in (f0, f1) or "noconfig" in (f0, f1)):
                        continue
                    for chat in chats if tier == "thorough" or (f0, f1) in (("full", "json"), ("noconfig", "full")) else (None, "auto", "chatml"):
                        yield [[[f0, "X"], [f1, "Y"]], base_i, copy, source, chat]
    # which template wins
    ts = [None, "X", "X ", "Y", "dict", "onlytool"]
    for t in itertools.product(ts, repeat=2):
        for base_i in (None, 1):
            for source in (None, "union", 0):
                yield [[["json", x] for x in t], base_i, True, source, "auto"]
    three = ["X", "Y", None, "X "] if tier == "quick" else ts + ["Z"]
    for t in itertools.product(three, repeat=3):
        for source in (None, "union"):
            for base_i in (None,) if tier == "quick" else (None, 0, 2):
                yield [[["json", x] for x in t], base_i, True, source, "auto"]
    for t in itertools.product(["X", "Y"], repeat=2):
        yield [[["none", None]] + [["json", x] for x in t], None, True, None, "auto"]


# -- files that come along with an architecture ------------------------------------------------------

def gen_tagalong(tier):
    for name in sorted(os.listdir(archdefs.DIR)):
        if not name.endswith(".json"):
            continue
        d = archdefs.load(name[:-5])
        files = d.get("tagalong_files")
        if files and name[:-5] in hfmodels.MODELS:
            for mask in range(2 ** len(files)):
                for base_i in (None, 0, 1):
                    for copy in (False, True):
                        yield [name[:-5], files, mask, base_i, copy]


def run_tagalong(case):
    name, files, mask, base_i, copy = case
    arch, cls, base, _axes = hfmodels.MODELS[name][0]
    ds = [e2e.per_process(f"{arch}-{{}}-{i}-{mask}", lambda d, i=i: mk_tagalong(d, i, arch, cls, base, files, mask))[0] for i in range(2)]
    out = scratch("o")
    try:
        cfg = {"merge_method": "linear", "dtype": "float32", "models": [{"model": d, "parameters": {"weight": 1.0}} for d in ds]}
        if base_i is not None:
            cfg["base_model"] = ds[base_i]
        e2e.merge(cfg, out, keep=True, copy_tokenizer=copy)
        for f in files:
            expect(raw(out, f) == raw(ds[base_i or 0], f), f"{case}: {f} is {raw(out, f)}, expected that of the base or first model")
    finally:
        drop(out)
    return Obs(str(case), transitions=len(files))


def mk_tagalong(d, i, arch, cls, base, files, mask):
    mk_layered(d, i, arch, cls, base, {})
    for j, f in enumerate(files):
        if mask >> j & 1:
            with open(os.path.join(d, f), "w") as fp:
                json.dump({"file": f, "of": i}, fp)


# -- model card and recorded configuration -----------------------------------------------------------

NAMES = {"local": "/nonexistent/dir/{}", "deep": "some/local/dir/{}", "hub": "org/model-{}", "rev": "org/model-{}@main", "lora": "org/model-{}+org/adapter-{}",
         "mixlora": "/nonexistent/dir/{}+org/adapter-{}"}


def split_card(card):
    m = re.match(r"---\n(.*?)\n---\n(.*)\Z", card, re.S)
    expect(m, "card has no metadata")
    return yaml.safe_load(m.group(1)), m.group(2)


def check_card(what, card, source, models, base, method, name=None):
    """models: list of names as written in the configuration; base: one of them or None."""
    meta, body = split_card(card)
    hub = []
    for x in ([base] if base else []) + models:
        for part in x.split("+"):
            p = part.split("@")[0]
            if not p.startswith("/") and p.count("/") <= 1 and p not in hub and not os.path.isdir(p):
                hub.append(p)
    got = meta.get("base_model")
    expect(sorted(dict.fromkeys(got)) == sorted(hub), f"{what}: metadata lists {got}, expected {hub}")
    expect(meta.get("library_name") == "transformers" and {"mergekit", "merge"} <= set(meta.get("tags", [])), f"{what}: metadata {meta}")
    head, rest = body.split("The following YAML configuration was used to produce this model:", 1)
    block = rest.split("```yaml\n", 1)[1].rsplit("\n```", 1)[0]
    if source is not None:
        expect(block == source, f"{what}: card shows another configuration")
    section = head.split("### Models Merged", 1)[1]
    bullets = [l[2:] for l in section.splitlines() if l.startswith("* ")]

    def says(text, x):
        return all(part.split("@")[0] in text for part in x.split("+"))
    want = [m for m in dict.fromkeys(models) if m != base or method == "slerp"]
    for m in want:
        expect(sum(says(b, m) for b in bullets) == 1, f"{what}: {m} is listed {sum(says(b, m) for b in bullets)} times among {bullets}")
    expect(len(bullets) == len(want) + (1 if method == "slerp" and base and base not in models else 0), f"{what}: models listed: {bullets}, expected {want}")
    mm = head.split("### Merge Method", 1)[1].split("### Models Merged")[0]
    if base and method != "slerp":
        expect(says(mm, base) and "as a base" in mm, f"{what}: base model not mentioned: {mm}")
    else:
        expect("as a base" not in mm, f"{what}: a base model is mentioned: {mm}")
    if name:
        expect(f"# {name}\n" in body, f"{what}: title")
    return block


def run_card(case):
    kinds, base_i, listed, method = case
    names = [NAMES[k].format(*[f"{i}{j}" for j in range(2)]) for i, k in enumerate(kinds)]
    base = names[base_i] if base_i is not None else None
    models = [n for n in names if listed or n != base]
    cfg = {"merge_method": method, "models": [{"model": n, "parameters": {"weight": 0.5}} for n in models]}
    if base:
        cfg["base_model"] = base
    mc = MergeConfiguration.model_validate(cfg)
    for src in ("merge_method: x # as written by the user\nmodels: []", mc.to_yaml()):
        card = generate_card(mc, src, name="the-name")
        block = check_card(str(case), card, src, models, base, method, "the-name")
    expect(MergeConfiguration.model_validate(yaml.safe_load(block)) == mc, f"{case}: recorded configuration differs")
    return Obs(str(case), transitions=2)


def gen_card(tier):
    for n in (1, 2, 3):
        for kinds in itertools.product(NAMES, repeat=n):
            if tier == "quick" and n == 3 and len(set(kinds)) == 3:
                continue
            for base_i in [None] + list(range(n)):
                for listed in (False, True):
                    if base_i is None and listed or n == 1 and not listed and base_i is not None:
                        continue
                    for method in ("linear", "slerp", "ties"):
                        yield [list(kinds), base_i, listed, method]


CONFIGS = {
    "linear": {"merge_method": "linear", "dtype": "float32", "models": [{"model": "A", "parameters": {"weight": [0.25, 0.75]}}, {"model": "B", "parameters": {"weight": 0.75}}]},
    "filtered": {"merge_method": "linear", "dtype": "float32", "parameters": {"weight": [{"filter": "mlp", "value": [0.25, 1]}, {"value": 0.5}]}, "models": [{"model": "A"}, {"model": "B"}]},
    "slices": {"merge_method": "passthrough", "dtype": "float32", "slices": [{"sources": [{"model": "A", "layer_range": [0, 1]}]}, {"sources": [{"model": "B", "layer_range": [0, 2]}]}]},
    "slerp": {"merge_method": "slerp", "base_model": "A", "dtype": "float32", "parameters": {"t": 0.25}, "models": [{"model": "A"}, {"model": "B"}]},
    "task": {"merge_method": "task_arithmetic", "base_model": "A", "dtype": "float32", "out_dtype": "bfloat16", "parameters": {"normalize": False, "lambda": 0.5},
             "models": [{"model": "B", "parameters": {"weight": 0.5}}]},
    "modules": {"merge_method": "linear", "dtype": "float32", "modules": {"default": {"slices": [{"sources": [{"model": "A", "layer_range": [1, 2], "parameters": {"weight": 1}}, {"model": "B", "layer_range": [0, 1], "parameters": {"weight": 3}}]}]}}},
    "tokens": {"merge_method": "linear", "dtype": "float32", "models": [{"model": "A", "parameters": {"weight": 1}}, {"model": "B", "parameters": {"weight": 1}}],
               "tokenizer": {"source": "union", "pad_to_multiple_of": 8, "tokens": {"a": {"source": "B"}, "b": {"source": {"kind": "model_token", "model": "A", "token_id": 2}, "force": True}, "ab": {"source": {"kind": "zero"}}}},
               "chat_template": "chatml"},
}


def subst(o, m):
    if isinstance(o, dict):
        return {k: subst(v, m) for k, v in o.items()}
    if isinstance(o, list):
        return [subst(x, m) for x in o]
    return m.get(o, o) if isinstance(o, str) else o


def mk_record(d, i):
    tiny.make_llama(d, f"t02-r{i}", 2, vocab=4, value=tiny.wide)
    toks.write_tokenizer(d, ["a", "b", "ab", f"<|{i}|>"], merges=[("a", "b")])


def run_record(case):
    name, source, card, relative, how = case
    what = str(case)
    root = os.path.dirname(scratch("r"))
    ds = [e2e.per_process(f"rec{i}", lambda d, i=i: mk_record(d, i))[0] for i in range(2)]
    rel = [os.path.relpath(d, os.path.dirname(os.path.dirname(d))) if relative else d for d in ds]
    cwd = os.getcwd()
    outs = [scratch("o") for _ in range(2)]
    extra = scratch("c")
    try:
        os.chdir(os.path.dirname(os.path.dirname(ds[0])))
        cfg = subst(CONFIGS[name], {"A": rel[0], "B": rel[1]})
        text = "# my notes: äß→\n" + yaml.safe_dump(cfg, allow_unicode=True)
        if how == "cli":
            os.makedirs(extra, exist_ok=True)
            p = os.path.join(extra, "c.yml")
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
            from click.testing import CliRunner
            from mergekit.scripts.run_yaml import main
            args = [p, outs[0], "--quiet"] + ([] if card else ["--no-write-model-card"])
            r = CliRunner().invoke(main, args)
            expect(r.exit_code == 0, f"{what}: mergekit-yaml fails: {r.exception!r}")
        else:
            from mergekit.merge import run_merge
            from mergekit.options import MergeOptions
            try:
                run_merge(MergeConfiguration.model_validate(cfg), outs[0], MergeOptions(quiet=True, write_model_card=card), config_source=text if source else None)
            except (OSError, RuntimeError, ValueError) as e:
                raise Violation(f"{what}: merge fails: {type(e).__name__}: {str(e)[:200]}")
        rec = raw(outs[0], "mergekit_config.yml")
        if not card:
            expect(rec is None and raw(outs[0], "README.md") is None, f"{what}: a card was written although it was declined")
            return Obs(what)
        expect(rec is not None, f"{what}: no configuration recorded")
        rec = rec.decode("utf-8")
        if source or how == "cli":
            expect(rec == text, f"{what}: recorded configuration is not the one given")
        models = list(dict.fromkeys(re.findall("|".join(map(re.escape, rel)), yaml.safe_dump({k: v for k, v in cfg.items() if k in ("models", "slices", "modules")}))))
        check_card(what, raw(outs[0], "README.md").decode("utf-8"), rec, models, cfg.get("base_model"), cfg["merge_method"], os.path.basename(outs[0]))
        a, ca = e2e.read(outs[0])
        b, cb = e2e.merge(yaml.safe_load(rec), outs[1], keep=True, copy_tokenizer=True)[:2]
        expect(set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a) and ca == cb, f"{what}: merging the recorded configuration gives another model")
        expect(raw(outs[0], "tokenizer.json") == raw(outs[1], "tokenizer.json"), f"{what}: merging the recorded configuration gives another tokenizer")
    finally:
        os.chdir(cwd)
        for o in outs + [extra]:
            drop(o)
    return Obs(what, transitions=len(a))


def gen_record(tier):
    for name in CONFIGS:
        for source in (False, True):
            for card in (False, True):
                for relative in (False, True):
                    for how in ("call", "cli"):
                        if how == "cli" and not source:
                            continue
                        yield [name, source, card, relative, how]


FAMILIES = [
    Family("archs", gen_arch, run_arch, "every definition with model code and 11 inferred families, tied and untied, models with different vocabularies x tokenizer source x padding x base", chunk=1),
    Family("layers", gen_layers, run_layers, "18 architectures x all selections of layers by up to two (three) slices from two models, per module, x layer types x tying", chunk=4),
    Family("mixed", gen_mixed, run_mixed, "pairs of models that differ in vocabulary, embedding rows and tying x methods x base x tokenizer source x padding x output type", chunk=4),
    Family("files", gen_files, run_files, "which tokenizer files and which chat template are saved: donors' files x base x copying x source x template", chunk=4),
    Family("tagalong", gen_tagalong, run_tagalong, "extra files of vision-language architectures: subsets present x base x copying"),
    Family("card", gen_card, run_card, "model cards for up to three models of six kinds of name x base x listed x method"),
    Family("record", gen_record, run_record, "recorded configuration and card of whole merges, re-run from the record; relative paths without network; command line", chunk=2),
]
