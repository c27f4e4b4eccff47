"""Apply one merge method to literal tensors through the planner's interface (make_task + Executor)."""
from __future__ import annotations

import torch

from mc.core import Violation
from mergekit.architecture import WeightInfo
from mergekit.common import ImmutableMap, ModelReference
from mergekit.graph import Executor, Task
from mergekit import merge_methods
from mergekit.merge_methods.base import TensorDictWrapper

_TABLE = {}
_REFS = {}


class Const(Task[torch.Tensor]):
    key: int

    def arguments(self):
        return {}

    def execute(self, **_kw):
        return _TABLE[self.key]


def ref(name):
    if name not in _REFS:
        _REFS[name] = ModelReference.parse(f"m/{name}")
    return _REFS[name]


def method(name):
    return merge_methods.get(name)


def make(name, names, base=None, params=None, per=None, weight="w", is_embed=False, optional=False):
    """-> task merging the tensors registered for `names` (in that order)."""
    m = method(name)
    params, per = params or {}, per or {}
    g = {}
    for p in m.parameters():
        if p.name not in params and p.required:
            raise ValueError(f"missing {p.name}")
        g[p.name] = params.get(p.name, p.default_value)
    tp = {}
    for n in names:
        tp[ref(n)] = ImmutableMap(data={p.name: per.get(n, {}).get(p.name, params.get(p.name, p.default_value)) for p in m.tensor_parameters()})
    src = TensorDictWrapper(tensors=ImmutableMap(data={ref(n): Const(key=i) for i, n in enumerate(names)}))
    return m.make_task(
        output_weight=WeightInfo(name=weight, is_embed=is_embed, optional=optional), tensors=src,
        parameters=ImmutableMap(data=g), tensor_parameters=ImmutableMap(data=tp),
        base_model=ref(base) if base else None,
    )


def apply(name, tensors, base=None, params=None, per=None, check_inputs=True, **kw):
    """tensors: {name: tensor} in listing order. The inputs must be left untouched."""
    task = make(name, list(tensors), base, params, per, **kw)
    _TABLE.clear()
    saved = {}
    for i, (n, t) in enumerate(tensors.items()):
        _TABLE[i] = t
        saved[n] = t.clone()
    res = [v for t, v in Executor([task]).run(quiet=True)]
    if check_inputs:
        for n, t in tensors.items():
            if t.shape != saved[n].shape or not torch.equal(t.nan_to_num(7.0), saved[n].nan_to_num(7.0)):
                raise Violation(f"{name} modified its input {n}: {saved[n].tolist()} -> {t.tolist()}")
    return res[0]


def close(got, want, tol, what):
    """Elementwise comparison against a float64 reference; tol is relative to the largest magnitude."""
    if not isinstance(got, torch.Tensor):
        raise Violation(f"{what}: result is {got!r}")
    if got.shape != want.shape:
        raise Violation(f"{what}: result shape {tuple(got.shape)}, expected {tuple(want.shape)}")
    g, w = got.to(torch.float64), want.to(torch.float64)
    if not torch.isfinite(g).all():
        raise Violation(f"{what}: result {g.tolist()} is not finite, expected {w.tolist()}")
    scale = max(1.0, float(w.abs().max()) if w.numel() else 1.0)
    err = float((g - w).abs().max()) if w.numel() else 0.0
    if err > tol * scale:
        raise Violation(f"{what}: result {g.tolist()}, expected {w.tolist()} (error {err:.3g})")
