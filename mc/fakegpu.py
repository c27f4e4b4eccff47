"""N fake accelerators, substituted at PyTorch's own seams (there is none in this sandbox)."""
from __future__ import annotations

import contextlib

import torch


class _Stream:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def synchronize(self):
        pass

    def wait_stream(self, *_a):
        pass


@contextlib.contextmanager
def fake_gpus(n):
    saved = []

    def put(obj, name, val):
        saved.append((obj, name, getattr(obj, name, None), hasattr(obj, name)))
        setattr(obj, name, val)

    if hasattr(torch, "accelerator"):
        put(torch.accelerator, "current_accelerator", lambda *a, **k: torch.device("cpu"))
        put(torch.accelerator, "device_count", lambda *a, **k: n)
    put(torch.cpu, "device_count", lambda *a, **k: n)
    put(torch.cpu, "synchronize", lambda *a, **k: None)
    put(torch.cuda, "Stream", _Stream)
    put(torch.cuda, "stream", lambda s: _Stream())
    put(torch, "Stream", _Stream)
    try:
        yield
    finally:
        for obj, name, val, had in reversed(saved):
            if had:
                setattr(obj, name, val)
            else:
                delattr(obj, name)
