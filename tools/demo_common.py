"""Helpers for the demonstrations: tiny checkpoints in a scratch directory."""
import json
import os
import shutil
import sys
import tempfile

os.environ.setdefault("HF_HUB_OFFLINE", "1")
sys.path.insert(0, os.getcwd())
import torch  # noqa: E402
import safetensors.torch  # noqa: E402

TMP = tempfile.mkdtemp(prefix="demo")
import atexit  # noqa: E402

atexit.register(shutil.rmtree, TMP, True)


def tmp(name):
    p = os.path.join(TMP, name)
    os.makedirs(p, exist_ok=True)
    return p


def llama(name, layers=2, vocab=6, h=4, i=6, seed=0, dtype=torch.float32, tied=False, **extra):
    g = torch.Generator().manual_seed(seed)
    t = {}

    def add(n, *s):
        t[n] = torch.randn(*s, generator=g).to(dtype)

    add("model.embed_tokens.weight", vocab, h)
    for l in range(layers):
        p = f"model.layers.{l}."
        for n in ("q", "k", "v", "o"):
            add(p + f"self_attn.{n}_proj.weight", h, h)
        add(p + "mlp.up_proj.weight", i, h)
        add(p + "mlp.gate_proj.weight", i, h)
        add(p + "mlp.down_proj.weight", h, i)
        add(p + "input_layernorm.weight", h)
        add(p + "post_attention_layernorm.weight", h)
    add("model.norm.weight", h)
    if not tied:
        add("lm_head.weight", vocab, h)
    path = tmp(name)
    cfg = dict(architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=h, intermediate_size=i,
               num_hidden_layers=layers, num_attention_heads=1, num_key_value_heads=1, vocab_size=vocab,
               tie_word_embeddings=tied, torch_dtype=str(dtype)[6:], bos_token_id=0, eos_token_id=1)
    cfg.update(extra)
    json.dump(cfg, open(path + "/config.json", "w"))
    safetensors.torch.save_file(t, path + "/model.safetensors", metadata={"format": "pt"})
    return path, t


def merge(cfg, out="out", **opts):
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    o = dict(quiet=True, copy_tokenizer=False, write_model_card=False)
    o.update(opts)
    path = tmp(out)
    run_merge(MergeConfiguration.model_validate(cfg), path, MergeOptions(**o))
    return path, read(path)


def read(path):
    res = {}
    for f in sorted(os.listdir(path)):
        if f.endswith(".safetensors"):
            res.update(safetensors.torch.load_file(os.path.join(path, f)))
    return res


def config(path):
    return json.load(open(path + "/config.json"))
