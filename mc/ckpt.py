"""Tiny tensors and independent checkpoint readers (not using the code under test)."""
from __future__ import annotations

import json
import os
import re

import safetensors
import safetensors.torch
import torch

from mc.core import Violation

DT = {"f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16, "i64": torch.int64, "f64": torch.float64,
      "i32": torch.int32, "i16": torch.int16, "i8": torch.int8, "u8": torch.uint8, "bool": torch.bool}


def seq(n, dtype=torch.float32, start=1):
    if dtype == torch.bool:
        return torch.tensor([(i + start) % 2 == 0 for i in range(n)], dtype=dtype)
    return (torch.arange(n, dtype=torch.float64) + start).to(dtype)


def same(a, b):
    """Equal shape, dtype and bits."""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.numel() == 0:
        return True
    a, b = (torch.empty(x.numel(), dtype=x.dtype).copy_(x.detach().reshape(-1)) for x in (a, b))  # unit stride also for one element
    return torch.equal(a.view(torch.uint8), b.view(torch.uint8))


def desc(t):
    if t is None:
        return "None"
    return f"{tuple(t.shape)}/{str(t.dtype)[6:]}:{t.flatten().tolist()[:8]}"


def read_file(path):
    if path.endswith(".safetensors"):
        return safetensors.torch.load_file(path)
    return torch.load(path, weights_only=True)


def read_dir(path, stem, ext):
    """Independent reading of a finished checkpoint directory -> (tensors, info). None if it is no checkpoint."""
    index = os.path.join(path, f"{stem}.{ext}.index.json")
    single = os.path.join(path, f"{stem}.{ext}")
    if os.path.exists(index):
        idx = json.load(open(index))
        res = {}
        files = {}
        for name, fn in idx["weight_map"].items():
            if fn not in files:
                files[fn] = read_file(os.path.join(path, fn))
            if name not in files[fn]:
                raise Violation(f"index says {name} is in {fn}, which holds {sorted(files[fn])}")
            res[name] = files[fn][name]
        return res, dict(index=idx, files=files)
    if os.path.exists(single):
        t = read_file(single)
        return t, dict(index=None, files={f"{stem}.{ext}": t})
    return None, None


def compare(got, want, what):
    if set(got) != set(want):
        raise Violation(f"{what}: tensors {sorted(got)}, expected {sorted(want)}")
    for k in want:
        if not same(got[k], want[k]):
            raise Violation(f"{what}: {k} is {desc(got[k])}, expected {desc(want[k])}")


def nbytes(t):
    return t.numel() * t.element_size()
