"""Small tokenizers on disk, written without the library, and read back without mergekit."""
from __future__ import annotations

import json
import os


def write_tokenizer(path, regular, added=(), special=(), merges=(), cfg=None):
    """regular: BPE vocabulary in index order; added: [(token, id)]."""
    at = [{"id": i, "content": t, "single_word": False, "lstrip": False, "rstrip": False, "normalized": False, "special": t in special} for t, i in added]
    d = {"version": "1.0", "truncation": None, "padding": None, "added_tokens": at, "normalizer": None, "pre_tokenizer": None,
         "post_processor": None, "decoder": None,
         "model": {"type": "BPE", "vocab": {t: i for i, t in enumerate(regular)}, "merges": [list(m) for m in merges]}}
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "tokenizer.json"), "w") as f:
        json.dump(d, f)
    with open(os.path.join(path, "tokenizer_config.json"), "w") as f:
        json.dump({"tokenizer_class": "PreTrainedTokenizerFast", "model_max_length": 64, **(cfg or {})}, f)


def read_vocab(path):
    """token -> id of a saved tokenizer, from its tokenizer.json alone."""
    p = os.path.join(path, "tokenizer.json")
    if not os.path.exists(p):
        return None
    with open(p) as f:
        d = json.load(f)
    v = dict(d["model"]["vocab"])
    for a in d["added_tokens"]:
        v[a["content"]] = a["id"]
    return v


def read_special(path):
    """token -> special flag of the added tokens of a saved tokenizer."""
    with open(os.path.join(path, "tokenizer.json")) as f:
        return {a["content"]: a["special"] for a in json.load(f)["added_tokens"]}
