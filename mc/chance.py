"""Random choices of the code under test, made by the explorer instead of the generator.

`Chance(masks)` answers the i-th random draw with masks[i] (kept entries), whatever torch function
asks, and records the probabilities asked for where the function states them.
"""
from __future__ import annotations

import torch


class Chance:
    def __init__(self, masks=None, u=None):
        self.masks = masks  # list of flat 0/1 lists
        self.u = u  # value that every uniform draw takes when there are no masks
        self.probs = []  # probabilities, for draws that state them
        self.draws = 0
        self.kinds = set()

    def _mask(self, like):
        m = self.masks[self.draws] if self.masks is not None and self.draws < len(self.masks) else None
        self.draws += 1
        n = like.numel()
        if m is None:
            m = [1] * n
        if len(m) != n:
            m = (list(m) * n)[:n]
        return torch.tensor(m, dtype=torch.float64).reshape(like.shape)

    def bernoulli(self, p, *a, **kw):
        self.kinds.add("bernoulli")
        if a and isinstance(a[0], float):
            p = torch.full_like(p, a[0])
        if torch.isnan(p).any() or (p < 0).any() or (p > 1).any():
            raise RuntimeError(f"Expected p_in >= 0 && p_in <= 1 to be true, got {p.tolist()}")
        self.probs.append(p.detach().to(torch.float64).reshape(-1).tolist())
        if self.masks is None and self.u is not None:
            self.draws += 1
            return (p.to(torch.float64) > self.u).to(p.dtype)
        return self._mask(p).to(p.dtype)

    def uniform(self, like):
        """A uniform draw: below any probability in (0, 1) where kept, above where not."""
        self.kinds.add("uniform")
        self.probs.append(None)
        if self.masks is None and self.u is not None:
            self.draws += 1
            return torch.full(like.shape, self.u, dtype=torch.float64)
        return torch.where(self._mask(like) > 0, 1e-6, 1 - 1e-6)

    def __enter__(self):
        c = self
        self.saved = {n: getattr(torch, n) for n in ("bernoulli", "rand", "rand_like")}
        torch.bernoulli = lambda p, *a, **kw: c.bernoulli(p, *a, **kw)
        torch.Tensor.bernoulli = lambda s, *a, **kw: c.bernoulli(s, *a, **kw)
        torch.Tensor.bernoulli_ = lambda s, p=0.5, **kw: s.copy_(c.bernoulli(p if isinstance(p, torch.Tensor) else torch.full(s.shape, float(p), dtype=torch.float64)))

        def rand(*size, dtype=None, **kw):
            shape = size[0] if size and not isinstance(size[0], int) else size
            return c.uniform(torch.empty(*shape)).to(dtype or torch.get_default_dtype())

        torch.rand = rand
        torch.rand_like = lambda t, dtype=None, **kw: c.uniform(t).to(dtype or t.dtype)
        torch.Tensor.uniform_ = lambda s, a=0, b=1, **kw: s.copy_(a + (b - a) * c.uniform(s))
        return self

    def __exit__(self, *exc):
        for n, f in self.saved.items():
            setattr(torch, n, f)
        for n in ("bernoulli", "bernoulli_", "uniform_"):
            delattr(torch.Tensor, n)
        return False
