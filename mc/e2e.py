"""Whole merges on tiny models, read back independently."""
from __future__ import annotations

import json
import os

import transformers  # noqa: F401

from mc import ckpt
from mc.core import Violation, drop, scratch
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions


def merge(cfg, out=None, keep=False, **opts):
    """Run a merge given as a plain dict -> (tensors, config dict[, path])."""
    out = out or scratch("o")
    o = dict(quiet=True, copy_tokenizer=False, write_model_card=False)
    o.update(opts)
    try:
        run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(**o))
        res = read(out, "pytorch_model" if o.get("safe_serialization") is False else "model",
                   "bin" if o.get("safe_serialization") is False else "safetensors")
        return res + (out,) if keep else res
    finally:
        if not keep:
            drop(out)


def read(out, stem="model", ext="safetensors"):
    ts, _info = ckpt.read_dir(out, stem, ext)
    if ts is None:
        raise Violation(f"no checkpoint in the output directory: {sorted(os.listdir(out))}")
    with open(os.path.join(out, "config.json")) as f:
        return ts, json.load(f)


_cache = {}


def per_process(key, make):
    """A fixture directory built once per worker process."""
    k = (os.getpid(), key)
    if k not in _cache:
        d = scratch(key)
        _cache[k] = (d, make(d))
    return _cache[k]
