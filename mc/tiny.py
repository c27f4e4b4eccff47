"""Tiny llama-layout models on disk: every tensor distinct, nothing instantiated."""
from __future__ import annotations

import json
import os
import zlib

import safetensors.torch
import torch

LAYER = [
    ("input_layernorm.weight", ("h",)), ("self_attn.q_proj.weight", ("h", "h")), ("self_attn.k_proj.weight", ("h", "h")),
    ("self_attn.v_proj.weight", ("h", "h")), ("self_attn.o_proj.weight", ("h", "h")), ("post_attention_layernorm.weight", ("h",)),
    ("mlp.up_proj.weight", ("i", "h")), ("mlp.gate_proj.weight", ("i", "h")), ("mlp.down_proj.weight", ("h", "i")),
]


def llama_config(layers, vocab=4, h=2, i=3, tied=False, dtype="float32", **extra):
    return dict(architectures=["LlamaForCausalLM"], model_type="llama", hidden_size=h, intermediate_size=i, num_hidden_layers=layers,
                num_attention_heads=1, num_key_value_heads=1, vocab_size=vocab, tie_word_embeddings=tied, torch_dtype=dtype,
                max_position_embeddings=16, bos_token_id=0, eos_token_id=1, **extra)


def llama_shapes(layers, vocab=4, h=2, i=3, lm_head=True):
    d = {"h": h, "i": i}
    res = {"model.embed_tokens.weight": (vocab, h)}
    for l in range(layers):
        for n, s in LAYER:
            res[f"model.layers.{l}.{n}"] = tuple(d[x] for x in s)
    res["model.norm.weight"] = (h,)
    if lm_head:
        res["lm_head.weight"] = (vocab, h)
    return res


def value(tag, name, shape, dtype=torch.float32):
    """Distinct per (tag, name): small integers plus quarters, exact in every float type used here."""
    n = 1
    for s in shape:
        n *= s
    base = zlib.crc32(f"{tag}/{name}".encode()) % 97
    t = ((torch.arange(n, dtype=torch.float64) * 7 + base) % 101 - 50) / 4
    return t.reshape(shape).to(dtype)


def wide(tag, name, shape, dtype=torch.float32):
    """Distinct per (tag, name) with practical certainty: integers below 2**18, exact in float32."""
    n = 1
    for s in shape:
        n *= s
    h = zlib.crc32(f"{tag}/{name}".encode())
    return torch.tensor([(h * (2 * i + 1) + 7919 * i) % 262139 - 131000 for i in range(n)], dtype=torch.float64).reshape(shape).to(dtype)


def llama_tensors(tag, layers, dtype=torch.float32, value=value, **kw):
    return {n: value(tag, n, s, dtype) for n, s in llama_shapes(layers, **kw).items()}


def write_model(path, config, tensors, fmt="safetensors"):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(config, f)
    if fmt == "safetensors":
        safetensors.torch.save_file({k: v.contiguous() for k, v in tensors.items()}, os.path.join(path, "model.safetensors"), metadata={"format": "pt"})
    else:
        torch.save(tensors, os.path.join(path, "pytorch_model.bin"))


def make_llama(path, tag, layers, dtype=torch.float32, vocab=4, h=2, i=3, lm_head=True, fmt="safetensors", cfg=None, drop=(), value=value, **extra):
    ts = llama_tensors(tag, layers, dtype, vocab=vocab, h=h, i=i, lm_head=lm_head, value=value)
    for k in drop:
        del ts[k]
    c = llama_config(layers, vocab, h, i, tied=not lm_head, dtype=str(dtype)[6:], **extra)
    c.update(cfg or {})
    write_model(path, c, ts, fmt)
    return ts
