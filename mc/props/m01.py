"""M01: averaging and interpolation methods against independent float64 references, on all small grids."""
from __future__ import annotations

import itertools
import math

import torch

from mc.core import Family, Obs, Violation
from mc.methods import apply, close

LEVEL = "model_checking"
ASSUMPTIONS = [
    "element values from small grids (which contain zero, equal, parallel, antiparallel, orthogonal and generic vectors); at most 6 elements and 4 models",
    "float64 inputs compared with tolerance 1e-6 (1e-4 where the method works in float32 internally); float32, bfloat16 in a separate family",
    "undefined points of a formula (weights summing to zero with normalisation, slerp of a zero vector, multislerp of three balancing vectors) only need the documented outcome, finite or an error",
    "'row-wise' nuslerp is taken to normalise along dimension 0, as it always has; the documentation's use of row and column depends on how a weight matrix is read",
]
F64 = torch.float64


def T(vals, shape, dtype=F64):
    return torch.tensor(vals, dtype=F64).reshape(shape).to(dtype)


def grids(tier):
    """(shape, value tuples)."""
    yield (), [(v,) for v in (-2.0, -1.0, 0.0, 1.0, 3.0)]
    yield (1,), [(v,) for v in (-2.0, -1.0, 0.0, 1.0, 3.0)]
    vals2 = (-2.0, -1.0, 0.0, 1.0, 2.5)
    yield (2,), list(itertools.product(vals2, repeat=2))
    yield (1, 2), list(itertools.product((-1.0, 0.0, 2.0), repeat=2))
    yield (2, 1), list(itertools.product((-1.0, 0.0, 2.0), repeat=2))
    yield (3,), list(itertools.product((-1.0, 0.0, 1.0) if tier == "quick" else (-1.0, 0.0, 1.0, 2.0), repeat=3))
    yield (2, 2), list(itertools.product((-1.0, 0.0, 2.0), repeat=4)) if tier == "thorough" else list(itertools.product((-1.0, 2.0), repeat=4)) + [(0, 0, 1, 2), (0, 1, 0, 2), (1, 0, 0, 1), (0, 0, 0, 0), (1, 1, 2, 2)]
    yield (1, 2, 2), [(1, 2, 3, 4), (1, 2, 2, 4), (-1, -2, 3, 1), (0, 0, 1, 1), (2, 4, 6, 8), (0, 0, 0, 0)]
    yield (2, 1, 2), [(1, 2, 3, 4), (1, 2, 2, 4), (-1, -2, 3, 1), (0, 0, 1, 1), (2, 4, 6, 8)]


def gen_pairs(tier):
    for shape, vals in grids(tier):
        for i, a in enumerate(vals):
            yield [list(shape), list(map(float, a))]


def partners(shape, tier):
    for s, vals in grids(tier):
        if list(s) == list(shape):
            return vals
    raise KeyError(shape)


# --- references -------------------------------------------------------------
def r_slerp_vec(t, a, b, thr):
    """Spherical interpolation of flat vectors; None where undefined; list of acceptable results."""
    na, nb = a.norm(), b.norm()
    if na == 0 or nb == 0:
        return None
    c = float((a @ b) / (na * nb))
    lin = (1 - t) * a + t * b
    res = []
    if abs(c) > thr - 1e-5:
        res.append(lin)
    if abs(c) < thr + 1e-5 and abs(c) < 1 - 1e-9:
        th = math.acos(max(-1, min(1, c)))
        res.append((math.sin((1 - t) * th) * a + math.sin(t * th) * b) / math.sin(th))
    return res


def any_close(got, wants, tol, what):
    err = None
    for w in wants:
        try:
            return close(got, w, tol, what)
        except Violation as e:
            err = err or e
    raise err


def finite(got, like, what):
    if not isinstance(got, torch.Tensor) or got.shape != like.shape or not torch.isfinite(got).all():
        raise Violation(f"{what}: {got if not isinstance(got, torch.Tensor) else (tuple(got.shape), got.tolist())} for inputs of shape {tuple(like.shape)}")


TS = [0.0, 0.25, 0.5, 1.0]


def run_slerp(case):
    shape, a = case
    A = T(a, shape)
    n = 0
    for b in partners(shape, TIER):
        B = T(b, shape)
        for t, first in itertools.product(TS, (True, False)):
            ts = {"base": A, "x": B} if first else {"x": B, "base": A}
            got = apply("slerp", ts, base="base", params={"t": t})
            what = f"slerp t={t} base={a} other={list(b)} shape={shape}"
            finite(got, A, what)
            want = r_slerp_vec(t, A.reshape(-1), B.reshape(-1), 0.9995)
            if want:
                any_close(got, [w.reshape(shape) for w in want], 1e-5, what)
            if t in (0.0, 1.0):
                close(got, A if t == 0 else B, 1e-6, what)
            if torch.equal(A, B):
                close(got, A, 1e-6, what)
            n += 1
    return Obs((case, n), transitions=n, execs=n)


WPAIRS = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (3.0, 1.0), (0.25, 0.75), (1.0, -1.0), (0.0, 0.0), (2.0, -0.5)]


def r_nuslerp(t, A, B, flatten, dim0):
    shape = A.shape
    if flatten or A.dim() == 0:
        r = r_slerp_vec(t, A.reshape(-1), B.reshape(-1), 1 - 1e-9)
        return None if r is None else [x.reshape(shape) for x in r]
    if dim0:
        A, B = A.transpose(0, -1), B.transpose(0, -1)
    rows = []
    fa, fb = A.reshape(-1, A.shape[-1]), B.reshape(-1, B.shape[-1])
    for i in range(fa.shape[0]):
        r = r_slerp_vec(t, fa[i], fb[i], 1 - 1e-9)
        rows.append([torch.full_like(fa[i], float("nan"))] if r is None else r)
    out = []
    for combo in itertools.product(*rows):
        o = torch.stack(combo).reshape(A.shape)
        out.append(o.transpose(0, -1) if dim0 else o)
    return out


def run_nuslerp(case):
    shape, a = case
    A = T(a, shape)
    n = 0
    bases = [None, T([0.0] * len(a), shape), T([0.5] * len(a), shape)]
    for b in partners(shape, TIER):
        B = T(b, shape)
        for (w0, w1), (fl, rw), bi in itertools.product(WPAIRS, ((True, False), (True, True), (False, False), (False, True)), range(3)):
            if bi == 1 and (fl, rw) != (False, True):
                continue
            base = bases[bi]
            if len(a) > 3 and (w0, w1) not in WPAIRS[:5]:
                continue
            t = 0.5 if abs(w0 + w1) < 1e-6 else w1 / (w0 + w1)
            ts = {"x": A, "y": B}
            if base is not None:
                ts["base"] = base
            got = apply("nuslerp", ts, base="base" if base is not None else None,
                        params={"nuslerp_flatten": fl, "nuslerp_row_wise": rw}, per={"x": {"weight": w0}, "y": {"weight": w1}})
            what = f"nuslerp weights={w0, w1} flatten={fl} row_wise={rw} base={base is not None and base.tolist()} {a} {list(b)} shape={shape}"
            z = base if base is not None else torch.zeros_like(A)
            finite(got, A, what)
            want = r_nuslerp(t, A - z, B - z, fl, rw)
            if want:
                want = [w + z for w in want]
                err = None
                for w in want:
                    ok = ~torch.isnan(w)
                    try:
                        close(torch.where(ok, got, torch.zeros_like(got)), torch.where(ok, w, torch.zeros_like(w)), 1e-5, what)
                        err = None
                        break
                    except Violation as e:
                        err = err or e
                if err:
                    raise err
            if torch.equal(A, B) and not (A - z).eq(0).all():
                close(got, A, 1e-6, what)
            if t == 0 or t == 1:
                close(got, A if t == 0 else B, 1e-6, what)
            n += 1
    return Obs((case, n), transitions=n, execs=n)


# --- linear, passthrough, nearswap, model_stock, fusion: generic vector sets ---
def vec_sets(tier, k, seed_shapes=((), (1,), (2,), (1, 2), (2, 2))):
    """k tensors of one shape: all choices from a small pool per shape."""
    pools = {
        (): [(-1.0,), (0.0,), (0.5,), (2.0,)],
        (1,): [(-1.0,), (0.0,), (0.5,), (2.0,)],
        (2,): [(0.0, 0.0), (1.0, 0.0), (0.0, 2.0), (-1.0, 0.0), (1.0, 1.0), (0.5, -1.5)],
        (1, 2): [(1.0, 2.0), (-1.0, -2.0), (0.0, 1.0)],
        (2, 2): [(1.0, 0.0, 0.0, 1.0), (0.0, 0.0, 2.0, 1.0), (-1.0, 0.0, 0.0, -1.0), (1.0, 2.0, 3.0, 4.0), (0.0, 0.0, 0.0, 0.0), (0.5, -0.5, 1.0, 0.25)],
        (3, 2): [(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), (0.0, 1.0, 0.0, 2.0, 0.0, -1.0), (-1.0, 0.5, 2.0, 0.0, 0.25, 1.0), (0.1, 0.2, 0.3, 0.1, 0.2, 0.3)],
        (5,): [(0.0, 0.1, 0.2, 3.0, 0.0), (0.0, 0.0, 0.0, 0.0, 0.0), (1.0, -1.0, 0.5, 2.0, 0.25), (0.0, 0.1, 0.1, 0.1, 5.0)],
    }
    for s in seed_shapes:
        for c in itertools.product(pools[s], repeat=k):
            yield [list(s), [list(x) for x in c]]


def gen_linear(tier):
    for k in (1, 2, 3):
        yield from vec_sets(tier, k, ((), (2,), (2, 2)) if k < 3 else ((2,), (2, 2)))


WS = [0.0, 1.0, -1.0, 0.25, 3.0]


def run_linear(case):
    shape, vs = case
    ts = {f"m{i}": T(v, shape) for i, v in enumerate(vs)}
    n = 0
    for ws in itertools.product(WS, repeat=len(vs)):
        for norm in (True, False):
            s = sum(ws)
            if norm and s == 0:
                continue
            want = sum(w * t for w, t in zip(ws, ts.values()))
            if norm:
                want = want / s
            per = {k: {"weight": w} for k, w in zip(ts, ws)}
            got = apply("linear", ts, params={"normalize": norm}, per=per)
            close(got, want, 1e-9, f"linear weights={ws} normalize={norm} of {vs}")
            n += 1
    return Obs((case, n), transitions=n, execs=n)


def gen_simple(tier):
    yield from vec_sets(tier, 2, ((), (1,), (2,), (1, 2), (2, 2), (3, 2), (5,)))


def fusion_ref(base, other):
    d = (other - base).abs()
    p, q = torch.softmax(other, -1) + 1e-8, torch.softmax(base, -1) + 1e-8
    kl = (p * (p / q).log()).sum(-1)
    score = d * kl.unsqueeze(-1) if base.dim() else d * kl
    f = score.reshape(-1).sort().values
    qi = [int(math.floor(x * (f.numel() - 1))) for x in (0.5, 0.25, 0.75)]
    med, q1, q3 = (float(f[i]) for i in qi)
    return score, med + 1.5 * (q3 - q1)


def run_simple(case):
    shape, (a, b) = case
    A, B = T(a, shape), T(b, shape)
    n = 0
    for scale in (None, 0.0, 1.0, -0.5, 2, True):
        got = apply("passthrough", {"x": A}, per={"x": {"scale": scale}} if scale is not None else {})
        close(got, A if scale is None else A * float(scale), 1e-12, f"passthrough scale={scale} of {a}")
        n += 1
    for t, order in itertools.product((0.0, 0.001, 0.3, 1.0, 5.0), (0, 1)):
        ts = {"base": A, "x": B} if order else {"x": B, "base": A}
        w = (t / (A - B).abs().clamp(min=1e-6)).clamp(0, 1)
        close(apply("nearswap", ts, base="base", params={"t": t}), w * B + (1 - w) * A, 1e-9, f"nearswap t={t} base={a} other={b}")
        n += 1
    for order in (0, 1):
        ts = {"base": A, "x": B} if order else {"x": B, "base": A}
        got = apply("arcee_fusion", ts, base="base")
        what = f"arcee_fusion base={a} other={b} shape={shape}"
        score, thr = fusion_ref(A, B)
        finite(got, A, what)
        for g, x, y, s in zip(got.reshape(-1).tolist(), A.reshape(-1).tolist(), B.reshape(-1).tolist(), score.reshape(-1).tolist()):
            near = abs(s - thr) <= 1e-9 * max(1.0, abs(thr))
            want = [x, y] if near and thr > 1e-12 else [y if s >= thr else x]
            if near and thr <= 1e-12:
                want = [x, y]
            if min(abs(g - w) for w in want) > 1e-9:
                raise Violation(f"{what}: element {g}, expected one of {want} (importance {s}, threshold {thr})")
        n += 1
    for m, kw in (("slerp", dict(base="x", params={"t": 0.5})), ("arcee_fusion", dict(base="x")), ("nuslerp", dict(per={"x": {"weight": 1.0}})),
                  ("multislerp", dict(per={"x": {"weight": 0.5}})), ("karcher", {}), ("model_stock", dict(base="x")), ("nearswap", dict(base="x", params={"t": 0.5}))):
        close(apply(m, {"x": A}, **kw), A, 1e-12, f"{m} of the single tensor {a}")
        n += 1
    return Obs((case, n), transitions=n, execs=n)


def gen_stock(tier):
    for k in (3, 4):
        yield from vec_sets(tier, k, ((), (1,), (2,), (2, 2)) if k == 3 else (((1,), (2,)) if tier == "quick" else ((1,), (2,), (2, 2))))


def stock_ref(base, ws):
    """-> (result or None where singular) for flat row vectors."""
    off = [w - base for w in ws]
    cs = []
    for i in range(len(off)):
        for j in range(i + 1, len(off)):
            np_ = float(off[i].norm() * off[j].norm())
            cs.append(max(-1.0, min(1.0, float(off[i] @ off[j]) / max(np_, 1e-6))))
    c = sum(cs) / len(cs)
    n = len(ws)
    den = 1 + (n - 1) * c
    if abs(den) < 1e-4:
        return None
    t = n * c / den
    return t * sum(ws) / n + (1 - t) * base


def run_stock(case):
    shape, vs = case
    ts = {"base": T(vs[0], shape), **{f"m{i}": T(v, shape) for i, v in enumerate(vs[1:])}}
    n, sing = 0, 0
    base, ws = ts["base"], [t for k, t in ts.items() if k != "base"]
    for fw in (False, True):
        for rot in range(len(ts)):
            ks = list(ts)
            ks = ks[rot:] + ks[:rot]
            got = apply("model_stock", {k: ts[k] for k in ks}, base="base", params={"filter_wise": fw})
            what = f"model_stock filter_wise={fw} base={vs[0]} models={vs[1:]} shape={shape}"
            finite(got, base, what)
            if fw and base.dim() >= 2:
                rows = [stock_ref(b, list(r)) for b, *r in zip(base.reshape(-1, base.shape[-1]), *(w.reshape(-1, base.shape[-1]) for w in ws))]
                gr = list(got.reshape(-1, base.shape[-1]))
            else:
                rows = [stock_ref(base.reshape(-1), [w.reshape(-1) for w in ws])]
                gr = [got.reshape(-1)]
            for g, w in zip(gr, rows):
                if w is None:
                    sing += 1
                else:
                    close(g, w, 1e-7, what)
            n += 1
    return Obs((case, sing), transitions=n, execs=n)


# --- multislerp and karcher ----------------------------------------------------
def gen_multi(tier):
    for k in (2, 3):
        yield from vec_sets(tier, k, ((), (1,), (2,), (2, 2)) if k == 2 or tier == "thorough" else ((), (2,)))


def multi_ref(xs, ws, eps=1e-8):
    norms = [x.norm() for x in xs]
    us = [x / (n + eps) for x, n in zip(xs, norms)]
    mean = sum(w * u for w, u in zip(ws, us))
    mn = float(mean.norm())
    if mn < 1e-6:
        return "lin" if len(xs) == 2 else "err"
    mean = mean / mn
    tan = sum(w * (u - (u @ mean) * mean) for w, u in zip(ws, us))
    tn = tan.norm() + eps
    res = mean * torch.cos(tn) + tan * (torch.sin(tn) / tn)
    return res * sum(w * n for w, n in zip(ws, norms))


WSETS = {2: [(1.0, 1.0), (1.0, 0.0), (0.0, 2.0), (3.0, 1.0)], 3: [(1.0, 1.0, 1.0), (0.0, 1.0, 0.0), (2.0, 1.0, 1.0)]}


def run_multi(case):
    shape, vs = case
    xs = [T(v, shape) for v in vs]
    n = 0
    for ws, norm, wb in itertools.product(WSETS[len(xs)], (True, False), (False, True)):
        base = T([0.25] * xs[0].numel(), shape) if wb else None
        ts = {f"m{i}": x for i, x in enumerate(xs)}
        if wb:
            ts = {"base": base, **ts}
        ww = [w / sum(ws) for w in ws] if norm else list(ws)
        fl = [(x - base if wb else x).reshape(-1) for x in xs]
        want = multi_ref(fl, ww)
        what = f"multislerp weights={ws} normalize={norm} base={wb} of {vs} shape={shape}"
        try:
            got = apply("multislerp", ts, base="base" if wb else None, params={"normalize_weights": norm}, per={f"m{i}": {"weight": w} for i, w in enumerate(ws)})
        except ValueError as e:
            if isinstance(want, str) and want == "err":
                n += 1
                continue
            raise Violation(f"{what}: {e}")
        if isinstance(want, str):
            if want == "err":
                raise Violation(f"{what}: vectors balance out, but the result is {got.tolist()}")
            want = sum(w * x for w, x in zip(ww, fl))
        want = want.reshape(shape) + (base if wb else 0)
        close(got, want, 1e-6, what)
        if norm and ww.count(0.0) == len(ww) - 1:
            i = ww.index(1.0)
            if fl[i].norm() > 0:
                close(got, xs[i], 1e-6, what + " (full weight on one model)")
        n += 1
    return Obs((case, n), transitions=n, execs=n)


def karcher_ref(xs, iters, tol):
    norms = [float(x.norm()) for x in xs]
    ok = [i for i, n in enumerate(norms) if n > tol]
    if not ok:
        return torch.zeros_like(xs[0]), True
    us = [xs[i] / norms[i] for i in ok]
    al = 1.0 / len(us)
    u = sum(al * x for x in us)
    stable = True
    if float(u.norm()) < 0.02:
        stable = False
        u = us[0].clone()
    else:
        u = u / u.norm()
    for _ in range(iters):
        t = torch.zeros_like(u)
        for x in us:
            c = max(-1.0, min(1.0, float(u @ x)))
            th = math.acos(c)
            if th < tol:
                continue
            if math.pi - th < 0.02:
                stable = False
            if math.sin(th) < 1e-12:
                stable = False
                continue
            t = t + al * (th / math.sin(th)) * (x - c * u)
        nt = float(t.norm())
        if nt < tol:
            break
        u = math.cos(nt) * u + math.sin(nt) * (t / nt)
        u = u / u.norm()
    return u * (sum(norms) / len(norms)), stable


def run_karcher(case):
    shape, vs = case
    xs = [T(v, shape) for v in vs]
    ts = {f"m{i}": x for i, x in enumerate(xs)}
    n = 0
    for it, tol in ((10, 1e-5), (0, 1e-5), (1, 1e-5), (100, 1e-7)):
        got = apply("karcher", ts, params={"max_iter": it, "tol": tol})
        what = f"karcher max_iter={it} of {vs} shape={shape}"
        finite(got, xs[0], what)
        want, stable = karcher_ref([x.reshape(-1) for x in xs], it, tol)
        if stable:
            close(got, want.reshape(shape), 1e-4, what)
        if all(torch.equal(x, xs[0]) for x in xs):
            close(got, xs[0], 1e-5, what)
        nz = [x.reshape(-1) for x in xs if x.norm() > 0]
        if len(xs) == 2 and len(nz) == 2:  # two points: the midpoint of the great circle, whatever the iteration
            a, b = nz[0] / nz[0].norm(), nz[1] / nz[1].norm()
            if float((a + b).norm()) > 0.05:
                mid = (a + b) / (a + b).norm() * (nz[0].norm() + nz[1].norm()) / 2
                close(got, mid.reshape(shape), 1e-4, what + " (midpoint)")
        n += 1
    return Obs((case, n), transitions=n, execs=n)


# --- working precision, memory layout, embedding sizes ---------------------------------
CALLS = [
    ("linear", None, {}, {"weight": [1.0, 3.0]}), ("slerp", 0, {"t": 0.25}, {}), ("nuslerp", None, {}, {"weight": [1.0, 3.0]}),
    ("nuslerp", None, {"nuslerp_flatten": False}, {"weight": [1.0, 3.0]}), ("nuslerp", None, {"nuslerp_flatten": False, "nuslerp_row_wise": True}, {"weight": [1.0, 3.0]}),
    ("multislerp", None, {}, {"weight": [1.0, 3.0]}), ("karcher", None, {}, {}), ("nearswap", 0, {"t": 0.5}, {}), ("arcee_fusion", 0, {}, {}),
    ("model_stock", 0, {}, {}), ("model_stock", 0, {"filter_wise": True}, {}), ("nuslerp", 2, {}, {"weight": [1.0, 3.0, None]}),
    ("multislerp", 2, {}, {"weight": [1.0, 3.0, None]}), ("linear", None, {"normalize": False}, {"weight": [0.5, -1.0]}),
]
POOL = [(1.0, 2.0, -3.0, 4.0, 0.5, 6.0), (2.0, 0.5, -1.0, 3.0, 1.5, 4.0), (0.5, 0.25, -0.75, 1.0, 0.0, 1.25)]


def gen_form(tier):
    for ci in range(len(CALLS)):
        for perm in itertools.permutations(range(3)):
            for dt in ("float32", "bfloat16", "float16", "float64"):
                yield [ci, list(perm), dt]


def layouts(t):
    """Equal tensors in different memory layouts."""
    yield "plain", t
    yield "transposed", t.t().contiguous().t()
    big = torch.zeros(t.shape[0] * 2, t.shape[1] + 1, dtype=t.dtype)
    big[::2, 1:] = t
    yield "strided", big[::2, 1:]


def run_form(case):
    ci, perm, dt = case
    name, base, params, per = CALLS[ci]
    k = 3 if name == "model_stock" or base == 2 else 2
    dtype = getattr(torch, dt)
    names = [f"m{i}" for i in range(k)]
    vals = [T(POOL[p], (3, 2), dtype) for p in perm[:k]]
    args = dict(base=None if base is None else names[base], params=params, per={n: {q: v[i] for q, v in per.items()} for i, n in enumerate(names)})
    ref = apply(name, {n: v.to(F64) for n, v in zip(names, vals)}, **args)
    tol = {"float64": 1e-5, "float32": 1e-4, "float16": 1e-2, "bfloat16": 8e-2}[dt]
    n = 0
    for lay in ("plain", "transposed", "strided"):
        ts = {m: dict(layouts(v))[lay] for m, v in zip(names, vals)}
        got = apply(name, ts, **args)
        what = f"{name} {params} on {dt} tensors {[POOL[p] for p in perm[:k]]}, {lay} memory"
        if got.dtype != dtype:
            raise Violation(f"{what}: result is {got.dtype}")
        if not (name == "arcee_fusion" and dt in ("float16", "bfloat16")):
            close(got, ref, tol, what)
        n += 1
    # embeddings of different row counts: the common rows are merged
    if name != "multislerp" and name != "nearswap":
        for cut in range(k):
            ts = {m: (v if i != cut else v[:2].contiguous()) for i, (m, v) in enumerate(zip(names, vals))}
            small = {m: v[:2].contiguous() for m, v in zip(names, vals)}
            got = apply(name, ts, weight="embed", is_embed=True, **args)
            close(got, apply(name, small, weight="embed", is_embed=True, **args), tol, f"{name} {params} of embeddings of unequal size (model {cut} is smaller)")
            n += 1
    return Obs((case, n), transitions=n, execs=n)


def gen_ident(tier):
    for ci in range(len(CALLS)):
        for p in range(len(POOL)):
            for shape in ((6,), (3, 2), (1, 6), (6, 1), (2, 3, 1), (1, 2, 3)):
                yield [ci, p, list(shape)]


def run_ident(case):
    """Merging equal models returns the model."""
    ci, p, shape = case
    name, base, params, per = CALLS[ci]
    if params.get("normalize") is False:
        return Obs((case, None))
    k = 3 if name == "model_stock" or base == 2 else 2
    names = [f"m{i}" for i in range(k)]
    x = T(POOL[p], shape, torch.float32)
    got = apply(name, {n: x.clone() for n in names}, base=None if base is None else names[base], params=params,
                per={n: {q: v[i] for q, v in per.items()} for i, n in enumerate(names)})
    close(got, x, 1e-5, f"{name} {params} of equal tensors {x.tolist()}")
    return Obs((case, True))


TIER = "quick"


def with_tier(gen):
    def g(tier):
        for c in gen(tier):
            yield [tier, c]
    return g


def tiered(run):
    def r(case):
        global TIER
        TIER = case[0]
        return run(case[1])
    return r


FAMILIES = [
    Family("slerp", with_tier(gen_pairs), tiered(run_slerp), chunk=8, rule="all ordered pairs of grid tensors in 9 shapes x t x listing order"),
    Family("nuslerp", with_tier(gen_pairs), tiered(run_nuslerp), chunk=2, rule="all ordered pairs of grid tensors x 8 weight pairs x flatten/row-wise x base absent/zero/other"),
    Family("linear", gen_linear, run_linear, chunk=8, rule="1-3 tensors from pools x all weights from 5 values x normalize"),
    Family("simple", gen_simple, run_simple, chunk=8, rule="all pairs from pools in 7 shapes: passthrough scales, nearswap t, arcee_fusion masks, single-model merges"),
    Family("model_stock", gen_stock, run_stock, chunk=16, rule="base + 2-3 models from pools x filter_wise x listing rotation"),
    Family("multislerp", gen_multi, run_multi, chunk=8, rule="2-3 tensors from pools x weights x normalisation x base"),
    Family("karcher", gen_multi, run_karcher, chunk=8, rule="2-3 tensors from pools x iteration limits"),
    Family("forms", gen_form, run_form, chunk=4, rule="14 method settings x input permutations x 4 types x 3 memory layouts; unequal embedding sizes"),
    Family("identity", gen_ident, run_ident, chunk=8, rule="14 method settings x tensors x 6 shapes, all inputs equal"),
]
