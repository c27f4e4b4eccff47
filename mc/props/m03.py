"""M03: sparsification of every small tensor, with every outcome of every random choice."""
from __future__ import annotations

import itertools
import math

import torch

from mc.chance import Chance
from mc.core import Family, HarnessError, Obs, Violation
from mergekit.sparsify import RescaleNorm, SparsificationMethod, sparsify

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tensors of at most 6 elements (10 in one family) over {0, +-1, +-2, 3, ...}; random draws are enumerated, not sampled: every keep/drop pattern of every draw",
    "the number of entries to keep is the integer part of density times size; where that product is within rounding of an integer, both readings are accepted",
    "magnitude pruning refuses (with an error) to empty a tensor; the magnitude-aware random variant refuses probabilities outside (0, 1)",
    "for tensors of more than two dimensions the magnitude-aware variant only has its keep probabilities' range checked (which dimension is a row is not documented)",
]
NORMS = [None, "l1", "l2", "linf"]
DENS = [0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 1.0, 1.5]


def counts(x):
    """Acceptable integer parts."""
    return {int(math.floor(x)), int(math.floor(x + 1e-9)), max(0, int(math.floor(x - 1e-9))) if abs(x - round(x)) < 1e-9 else int(math.floor(x))}


def norm_of(t, n):
    t = t.to(torch.float64)
    return {"l1": t.abs().sum(), "l2": (t * t).sum().sqrt(), "linf": t.abs().max()}[n].item()


def examine(orig, got, norm, what, tol):
    """-> kept index set(s): list of possible sets (zeros of the original may be kept or not)."""
    if got.shape != orig.shape or got.dtype != orig.dtype:
        raise Violation(f"{what}: result {tuple(got.shape)}/{got.dtype} for a tensor {tuple(orig.shape)}/{orig.dtype}")
    o, g = orig.to(torch.float64).reshape(-1), got.to(torch.float64).reshape(-1)
    if not torch.isfinite(g).all():
        raise Violation(f"{what}: result {g.tolist()} is not finite")
    kept = [i for i in range(len(o)) if g[i] != 0]
    if any(o[i] == 0 for i in kept):
        raise Violation(f"{what}: result {g.tolist()} has entries where the tensor {o.tolist()} is zero")
    f = 1.0
    if norm and kept:
        k = torch.zeros_like(o)
        k[kept] = o[kept]
        f = norm_of(o, norm) / norm_of(k, norm)
    for i in kept:
        if abs(g[i] - o[i] * f) > tol * max(1.0, abs(float(o[i] * f))):
            raise Violation(f"{what}: entry {i} is {g[i]}, kept entries are {kept} of {o.tolist()}, the common factor is {f}")
    return kept


def valid_largest(o, kept, ks):
    """kept (non-zero) is what remains of a largest-k choice, k in ks, ties free."""
    mags = [abs(float(x)) for x in o]
    for k in ks:
        order = sorted(range(len(o)), key=lambda i: -mags[i])
        thr = mags[order[k - 1]] if k else None
        if k == 0:
            if not kept:
                return True
            continue
        must = {i for i in range(len(o)) if mags[i] > thr}
        may = {i for i in range(len(o)) if mags[i] == thr}
        kk = set(kept)
        nz = {i for i in must if mags[i] > 0}
        if thr > 0:
            if must <= kk and kk <= must | may and len(kk) == k:
                return True
        elif kk == nz:
            return True
    return False


def valid_band(o, kept, ks, tops):
    """What remains after dropping the n_top largest and then the smallest, ties free."""
    n = len(o)
    mags = [abs(float(x)) for x in o]
    srt = sorted(mags)
    for k in ks:
        for nt in tops:
            nt_ = min(nt, n - k)
            nb = n - k - nt_
            band = srt[nb:nb + k]  # the multiset of kept magnitudes
            if sorted(mags[i] for i in kept) == [m for m in band if m > 0]:
                return True
    return False


def gen_vals(tier):
    vals = [0.0, 1.0, -1.0, 2.0, 3.0]
    for n in range(1, 4):
        yield from (list(v) for v in itertools.product(vals, repeat=n))
    yield from (list(v) for v in itertools.product([0.0, 1.0, -2.0] if tier == "quick" else vals, repeat=4))
    for n in (5, 6) if tier == "quick" else (5, 6, 7):
        base = [0.5 * (i + 1) * (-1) ** i for i in range(n)]
        yield from (list(p) for p in itertools.islice(itertools.permutations(base), None if n < 6 or tier == "thorough" and n < 7 else 400))
    for n in (10, 20, 100):
        yield [((7 * i) % n + 1) * (-1) ** i * 0.25 for i in range(n)]


def shapes(n):
    yield (n,)
    if n == 1:
        yield ()
        yield (1, 1)
    if n == 4:
        yield (2, 2)
        yield (1, 2, 2)
    if n == 6:
        yield (3, 2)


def variants(v, shape):
    t = torch.tensor(v, dtype=torch.float64).reshape(shape)
    yield "float32", t.float(), 1e-5
    yield "float16", t.half(), 2e-3
    yield "bfloat16", t.bfloat16(), 1.6e-2
    if t.dim() == 2:
        yield "float32 transposed memory", t.t().contiguous().t().float(), 1e-5


def run_det(v):
    n, outs = 0, set()
    for shape in shapes(len(v)):
        for form, t, tol in variants(v, shape):
            o = t.reshape(-1)
            for norm in NORMS if form == "float32" else (None, "l1"):
                rn = RescaleNorm(norm) if norm else None
                for d in DENS if len(v) <= 6 else DENS + [0.29, 0.57, 0.01, 0.99]:
                    what = f"magnitude density={d} rescale={norm} of {v} {shape} {form}"
                    ks = counts(d * len(v))
                    try:
                        got = sparsify(t.clone(), density=d, method=SparsificationMethod.magnitude, rescale_norm=rn)
                    except AssertionError:
                        if 0 not in ks or d >= 1:
                            raise Violation(f"{what}: refused")
                        got = None
                    n += 1
                    if d >= 1:
                        if not torch.equal(got, t):
                            raise Violation(f"{what}: density one changed the tensor to {got.tolist()}")
                    elif got is not None:
                        kept = examine(t, got, norm, what, tol)
                        if not valid_largest(o, kept, ks):
                            raise Violation(f"{what}: kept entries {kept}, expected the {sorted(ks)} largest")
                        outs.add((d, len(kept)))
                    for g in (0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9) if form == "float32" else (0.0, 0.25):
                        what = f"magnitude_outliers density={d} gamma={g} rescale={norm} of {v} {shape} {form}"
                        got = sparsify(t.clone(), density=d, method=SparsificationMethod.magnitude_outliers, gamma=g, rescale_norm=rn)
                        n += 1
                        if d >= 1:
                            if not torch.equal(got, t):
                                raise Violation(f"{what}: density one changed the tensor to {got.tolist()}")
                            continue
                        kept = examine(t, got, norm, what, tol)
                        if not valid_band(o, kept, ks, counts(g * len(v))):
                            raise Violation(f"{what}: kept entries {kept}; expected {sorted(ks)} entries after dropping the {sorted(counts(g * len(v)))} largest and then the smallest")
                        outs.add((d, g, len(kept)))
    return Obs((v, sorted(outs, key=str)), states=len(outs), transitions=n, execs=n)


# --- random pruning: every outcome of the draw ---------------------------------
def gen_rand(tier):
    vals = [[1.0], [-2.0], [0.0], [1.0, 2.0], [3.0, -1.0], [0.0, 1.0], [1.0, 1.0], [2.0, -1.0, 3.0], [1.0, 0.0, -1.0], [1.0, 2.0, 3.0, 4.0], [4.0, -3.0, 0.0, 1.0], [2.0, 2.0, 1.0, 1.0],
            [-4.0, 1.0, 3.0, 2.0]]
    if tier == "thorough":
        vals += [[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [6.0, -1.0, 5.0, 2.0, -4.0, 3.0], [1.0, 0.0, 2.0, 0.0, 3.0, 0.0]]
        vals += [list(map(float, p)) for p in itertools.permutations((1, -2, 3, 4))]
    for v in vals:
        for m in ("random", "della_magprune"):
            yield [m, v]


def expected_probs(m, o, shape, d, eps):
    """-> list over entries of sets of acceptable probabilities."""
    n = len(o)
    if m == "random":
        return [{d}] * n
    if len(shape) > 2:
        return None
    w = shape[-1] if shape else 1
    res = []
    for r in range(n // w):
        row = [abs(float(x)) for x in o[r * w:(r + 1) * w]]
        for x in row:
            lo, hi = sum(y < x for y in row), sum(y <= x for y in row) - 1
            if w == 1:  # neither smallest nor largest: anything in range
                res.append(None)
            else:
                res.append({d - eps + 2 * eps * k / (w - 1) for k in range(lo, hi + 1)})
    return res


def run_rand(case):
    m, v = case
    meth = SparsificationMethod(m)
    n, outs = 0, set()
    for shape in shapes(len(v)):
        for form, t, tol in variants(v, shape):
            o = t.reshape(-1)
            if m == "random":
                params = [(d, 0.0) for d in (0.0, 0.3, 0.5, 0.9, 1.0)]
            else:
                params = [(0.5, 0.2), (0.5, 0.0), (0.3, 0.15), (0.85, 0.1), (1.0, 0.3), (0.0, 0.1), (0.5, 0.5), (0.9, 0.15), (0.1, 0.2)]
            for d, eps in params:
                bad = m != "random" and 0 < d < 1 and (d + eps >= 1 or d - eps <= 0)
                for norm in (None, "l1", "l2") if form == "float32" else ("l1",):
                    rn = RescaleNorm(norm) if norm else None
                    what = f"{m} density={d} epsilon={eps} rescale={norm} of {v} {shape} {form}"
                    call = lambda: sparsify(t.clone(), density=d, method=meth, epsilon=eps, rescale_norm=rn)  # noqa: E731
                    n += 1
                    if bad:
                        try:
                            call()
                        except ValueError:
                            continue
                        raise Violation(f"{what}: probabilities outside (0, 1) accepted")
                    if d >= 1 or d <= 0:
                        got = call()
                        if not torch.equal(got, t if d >= 1 else torch.zeros_like(t)):
                            raise Violation(f"{what}: result {got.tolist()}")
                        continue
                    with Chance([[1] * len(v)]) as c:
                        call()
                    if c.draws == 0:
                        raise HarnessError(f"{what}: no random draw seen")
                    if c.draws != 1 or not c.probs:
                        raise HarnessError(f"{what}: {c.draws} draws of kinds {c.kinds}")
                    want = expected_probs(m, o, shape, d, eps)
                    probs = c.probs[0]
                    if probs is None:  # thresholded uniform draws: measure where each entry switches
                        probs = [0.0] * len(v)
                        for i in range(1, 257):
                            with Chance(u=(i - 0.5) / 256):
                                got = call().reshape(-1)
                            probs = [p + (float(g) != 0) / 256 for p, g in zip(probs, got)]
                        probs = [p if float(x) != 0 else None for p, x in zip(probs, o)]
                    ptol = 1e-5 if c.probs[0] is not None else 1 / 128
                    if form == "bfloat16":
                        ptol = 1e-2
                    for i, p in enumerate(probs):
                        if p is None:
                            continue
                        if want is None or want[i] is None:
                            if not d - eps - ptol <= p <= d + eps + ptol:
                                raise Violation(f"{what}: entry {i} is kept with probability {p}, outside {d} +- {eps}")
                        elif min(abs(p - x) for x in want[i]) > ptol:
                            raise Violation(f"{what}: entry {i} is kept with probability {p}, documented: {sorted(want[i])}; all: {probs}")
                    if want and m != "random" and None not in probs:  # ties use up distinct ranks
                        w = shape[-1] if shape else 1
                        if w > 1:
                            for r in range(len(o) // w):
                                s = sorted(probs[r * w:(r + 1) * w])
                                ideal = [d - eps + 2 * eps * k / (w - 1) for k in range(w)]
                                if max(abs(a - b) for a, b in zip(s, ideal)) > ptol:
                                    raise Violation(f"{what}: keep probabilities of row {r} are {s}, documented {ideal}")
                    for mask in itertools.product((0, 1), repeat=len(v)):
                        with Chance([list(mask)]):
                            got = call()
                        kept = examine(t, got, norm, what + f" draw {mask}", tol)
                        exp = [i for i in range(len(v)) if mask[i] and float(o[i]) != 0]
                        if kept != exp:
                            raise Violation(f"{what}: draw {mask} kept {kept}, expected {exp}")
                        n += 1
                        outs.add((d, eps, norm, mask))
    return Obs((case, len(outs)), states=len(outs), transitions=n, execs=n)


FAMILIES = [
    Family("deterministic", gen_vals, run_det, chunk=8, rule="all tensors of 1-4 elements over a value set, permutations of 5-6 distinct ones, some larger; 9+ densities x 7 gammas x 4 norms x types and layouts"),
    Family("random", gen_rand, run_rand, chunk=1, rule="tensors of up to 4 (6) elements x densities x epsilons x norms x every outcome of the draw; keep probabilities per entry"),
]
