"""M02: task-vector methods against entrywise float64 references, with every random draw enumerated."""
from __future__ import annotations

import itertools
import math

import torch

from mc.chance import Chance
from mc.core import Family, HarnessError, Obs, Violation
from mc.methods import apply, close

LEVEL = "model_checking"
ASSUMPTIONS = [
    "differences from small grids with exactly representable weights, at most 4 models; in the dense families one tensor holds every combination of differences, one combination per entry",
    "the share of entries to keep is the integer part of density times size, except that within rounding of an integer either is accepted; among equal magnitudes (or variances) any choice is accepted",
    "random draws are enumerated (every keep/drop pattern), one draw per sparsified model in listing order",
    "an exact tie in the sign election counts as positive; weights that cancel exactly leave the sum undivided",
    "methods are called through their planner interface (make_task) and the real executor; pruning itself is property M03",
]
F64 = torch.float64
GTA = {  # name: (consensus, pruning, normalize default, rescale default)
    "task_arithmetic": (False, None, False, False),
    "ties": (True, "magnitude", True, False),
    "dare_ties": (True, "random", False, True),
    "dare_linear": (False, "random", False, True),
    "breadcrumbs": (False, "outliers", False, False),
    "breadcrumbs_ties": (True, "outliers", False, False),
    "della": (True, "rank", True, True),
    "della_linear": (False, "rank", False, True),
}
EASY = ["sce", "ram", "ramplus_tl"]


def combine(deltas, weights, consensus, normalize, lam):
    """Documented combination at one position."""
    wd = [w * d for w, d in zip(weights, deltas)]
    if consensus:
        sign = 1 if sum(wd) >= 0 else -1
        use = [x * sign > 0 for x in wd]
    else:
        use = [True] * len(wd)
    tot = sum(x for x, u in zip(wd, use) if u)
    if normalize:
        div = sum(w for w, u in zip(weights, use) if u)
        if div:
            tot /= div
    return tot * lam


def gta_ref(base, deltas, weights, consensus, normalize, lam):
    """deltas: per model, per entry (already sparsified)."""
    return [b + combine([d[i] for d in deltas], weights, consensus, normalize, lam) for i, b in enumerate(base)]


def names(n):
    return [f"m{i}" for i in range(n)]


def listing(base, models, pos):
    """{name: tensor} with the base at position pos of the listing."""
    items = list(models.items())
    if pos is not None:
        items.insert(min(pos, len(items)), ("base", base))
    return dict(items)


# --- dense: every combination of differences at once -------------------------
ALPHA = {1: (-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 3.0), 2: (-2.0, -1.0, 0.0, 0.5, 1.0, 2.0), 3: (-2.0, -1.0, 0.0, 1.0, 2.0), 4: (-1.0, 0.0, 1.0, 2.0)}
BASES = (0.0, 1.0, -3.0)
WEIGHTS = {1: (-1.0, 0.0, 0.5, 1.0, 2.0), 2: (-1.0, 0.0, 0.5, 1.0, 2.0), 3: (-1.0, 0.0, 0.5, 1.0), 4: (-0.5, 0.0, 1.0)}


def gen_dense(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for name in GTA:
            for w in itertools.product(WEIGHTS[n], repeat=n):
                if n == 3 and tier == "quick" and name in ("dare_linear", "breadcrumbs", "della_linear") and w[0] != 1.0:
                    continue
                yield [name, list(w)]


def run_dense(case):
    name, w = case
    n = len(w)
    consensus, _, dn, _ = GTA[name]
    combos = list(itertools.product(BASES, *([ALPHA[n]] * n)))
    N = len(combos)
    k = 0
    base = [c[0] for c in combos]
    deltas = [[c[1 + i] for c in combos] for i in range(n)]
    per = {f"m{i}": {"weight": w[i]} for i in range(n)}
    opts = [({}, dn, 1.0)]
    for norm, lam in itertools.product((True, False), (1.0, 0.0, 0.5, -2.0)):
        opts.append(({"normalize": norm, "lambda": lam, "int8_mask": lam == 0.5, "rescale": lam != 1.0}, norm, lam))
    for oi, (params, norm, lam) in enumerate(opts):
        want = torch.tensor(gta_ref(base, deltas, w, consensus, norm, lam), dtype=F64)
        forms = [((N,), F64, 1e-12), ((3, N // 3), torch.float32, 1e-6), ((1, N, 1), torch.bfloat16, 2e-2), ((N, 1), torch.float16, 3e-3)]
        for fi, (shape, dt, tol) in enumerate(forms):
            if fi and oi not in (0, fi, 5 + fi):
                continue
            B = torch.tensor(base, dtype=F64).reshape(shape).to(dt)
            ms = {f"m{i}": (torch.tensor(base, dtype=F64) + torch.tensor(deltas[i], dtype=F64)).reshape(shape).to(dt) for i in range(n)}
            pos = (oi + fi) % (n + 1)
            got = apply(name, listing(B, ms, pos), base="base", params=params, per=per)
            if got.dtype != dt:
                raise Violation(f"{name} of {dt} tensors gives {got.dtype}")
            g = got.to(F64).reshape(-1)
            err = (g - want).abs()
            bad = ~(err <= tol * want.abs().clamp(min=1.0) * (4 if n > 2 else 1))
            if bad.any():
                i = int(bad.nonzero()[0])
                raise Violation(f"{name} {params} weights {w} ({dt}, shape {shape}): base {base[i]}, differences {[d[i] for d in deltas]}: {float(g[i])}, documented {float(want[i])}")
            if got.shape != torch.Size(shape):
                raise Violation(f"{name}: shape {tuple(got.shape)} from inputs of shape {shape}")
            k += 1
    return Obs((case, k), states=N * k, transitions=N * k, execs=k)


# --- pruned --------------------------------------------------------------------
def ints(x):
    r = round(x)
    return {r, r - 1 if x < r else r} if abs(x - r) < 1e-6 else {int(math.floor(x))}


def keeps_largest(d, density, gamma=None):
    """All acceptable kept sets of one difference vector."""
    N = len(d)
    if density >= 1:
        return [tuple(range(N))]
    out = []
    for k in ints(density * N):
        if k < 0:
            continue
        if gamma is None:
            top, cand = 0, k
            order = sorted(range(N), key=lambda i: -abs(d[i]))
            out += _choices(d, order, 0, k)
        else:
            for nt in ints(gamma * N):
                nb = N - k - nt
                t = nt
                if nb < 0:
                    t, nb = nt + nb, 0
                order = sorted(range(N), key=lambda i: -abs(d[i]))
                out += _choices(d, order, t, N - nb)
    return sorted(set(out))


def _choices(d, order, lo, hi):
    """Kept sets order[lo:hi] over all orders among equal magnitudes."""
    groups = [list(g) for _, g in itertools.groupby(order, key=lambda i: abs(d[i]))]
    res = [()]
    at = 0
    for g in groups:
        a, b = max(lo, at), min(hi, at + len(g))
        at += len(g)
        if b <= a:
            continue
        res = [r + c for r in res for c in itertools.combinations(g, b - a)]
    return [tuple(sorted(r)) for r in res]


def sparse(d, keep, rescale):
    s = [x if i in keep else 0.0 for i, x in enumerate(d)]
    if rescale:
        a, b = sum(map(abs, d)), sum(map(abs, s))
        if a and b:
            s = [x * a / b for x in s]
    return s


PERM4 = [p for p in itertools.permutations((1.0, 2.0, 3.0, 4.0))]


def gen_pruned(tier):
    """difference vectors: model 0 has magnitudes 1..4 in order, the others any permutation; all signs."""
    signs = list(itertools.product((1, -1), repeat=4))
    for name in ("ties", "breadcrumbs", "breadcrumbs_ties"):
        for s0 in signs:
            yield [name, [[float(s * m) for s, m in zip(s0, (1, 2, 3, 4))]]]
        for s0 in signs if tier == "thorough" else [s for s in signs if s[0] > 0]:
            for p in PERM4 if tier == "thorough" else PERM4[::3] + PERM4[1:2]:
                for s1 in signs if tier == "thorough" else signs[::3]:
                    yield [name, [[float(s * m) for s, m in zip(s0, (1, 2, 3, 4))], [float(s * m) for s, m in zip(s1, p)]]]
        # zeros and equal magnitudes, three models
        for ds in itertools.product(([1.0, 0.0, 0.0, 2.0], [0.0, 0.0, 0.0, 0.0], [1.0, 1.0, -2.0, 2.0], [-1.0, 3.0, 0.0, -2.0]), repeat=3):
            yield [name, [list(d) for d in ds]]
        # longer vectors, where rounding of the share matters
        for m in (5, 7, 10):
            for r in range(m):
                d = [float((i * 3 + r) % m + 1) * (1 if (i + r) % 3 else -1) for i in range(m)]
                e = [float((i * r) % m + 0.5) * (1 if i % 2 else -1) for i in range(m)]
                yield [name, [d, e]]


def run_pruned(case):
    name, ds = case
    n, N = len(ds), len(ds[0])
    consensus, pruning, dn, dr = GTA[name]
    base = [float(i % 3 - 1) for i in range(N)]
    k = 0
    seen = set()
    sets = [[0.5], [0.3], [0.75]] if n == 1 else [[0.5, 0.5], [0.25, 0.8], [1.0, 0.5], [0.75, 1.0]] if n == 2 else [[0.5, 0.75, 0.25], [1.0, 0.5, 0.5]]
    gammas = [None] if pruning == "magnitude" else [0.0, 0.01, 0.25, 0.5]
    shapes = [(N,), (2, N // 2), (1, 1, N), (N, 1)] if N % 2 == 0 else [(N,), (1, N), (N, 1)]
    ws = [[1.0, 0.5, 2.0][:n], [0.5, 2.0, -1.0][:n]]
    at = 0
    for dens, g in itertools.product(sets, gammas):
        kept = []
        for i, d in enumerate(ds):
            gi = None if g is None else (g if i == 0 else 0.25)
            kept.append(keeps_largest(d, dens[i], gi))
        for w in ws:
            at += 1
            shape = shapes[at % len(shapes)]
            rescale, norm = [(dr, dn), (True, dn), (False, not dn)][at % 3]
            params = {} if at % 3 == 0 else {"rescale": rescale, "normalize": norm}
            lam = 1.0
            if at % 4 == 1:
                params["lambda"] = lam = 0.5
            per = {f"m{i}": {"weight": w[i], "density": dens[i]} for i in range(n)}
            if g is not None:
                for i in range(n):
                    per[f"m{i}"]["gamma"] = g if i == 0 else 0.25
            B = torch.tensor(base, dtype=F64).reshape(shape)
            ms = {f"m{i}": B + torch.tensor(ds[i], dtype=F64).reshape(shape) for i in range(n)}
            if any(all(len(x) == 0 for x in c) for c in kept) and pruning == "magnitude":
                continue
            got = apply(name, listing(B, ms, at % (n + 1)), base="base", params=params, per=per).to(F64).reshape(-1).tolist()
            k += 1
            options = [[sparse(d, c, rescale) for c in cs] for d, cs in zip(ds, kept)]
            wants = set()
            for pick in itertools.islice(itertools.product(*options), 4000):
                wants.add(tuple(gta_ref(base, pick, w, consensus, norm, lam)))
            ok = any(max(abs(a - b) for a, b in zip(got, want)) <= 1e-5 * max(1, max(map(abs, want))) for want in wants)
            if not ok:
                raise Violation(f"{name} {params} {per} shape {shape}: base {base}, differences {ds}: result {got}, documented {[list(x) for x in sorted(wants)][:3]}")
            seen.add(tuple(round(x, 4) for x in got))
    return Obs((name, len(ds[0]), hash(tuple(sorted(seen)))), states=len(seen), transitions=k, execs=k)


# --- random --------------------------------------------------------------------
def gen_random(tier):
    d3 = [[1.0, -2.0, 3.0], [-1.0, 0.5, 2.0], [2.0, 2.0, -1.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]]
    if tier == "thorough":
        d3 += [[-3.0, -2.0, -1.0], [1.0, 1.0, 1.0], [4.0, 0.0, -4.0]]
    for name in ("dare_linear", "dare_ties", "della", "della_linear"):
        for a, b in itertools.product(d3, repeat=2):
            yield [name, [a, b]]
        for c in itertools.product(d3[:3], repeat=3):
            yield [name, [list(x[:2]) for x in c]]
        if tier == "thorough":
            for a, b in itertools.product(([1.0, 2.0, -3.0, 4.0], [2.0, -2.0, 1.0, 0.0], [-1.0, 3.0, -2.0, 5.0]), repeat=2):
                yield [name, [a, b]]


def run_random(case):
    name, ds = case
    n, N = len(ds), len(ds[0])
    consensus, _, dn, dr = GTA[name]
    base = [1.0, -2.0, 0.0, 3.0][:N]
    k = 0
    seen = set()
    settings = [({}, dr, dn, 1.0), ({"rescale": not dr, "normalize": not dn, "lambda": 0.5, "int8_mask": True}, not dr, not dn, 0.5)]
    for (params, rescale, norm, lam), (shape, w) in itertools.product(settings, (((N,), [1.0, 0.5, 2.0]), ((1, N), [0.5, -1.0, 1.0]))):
        w = w[:n]
        per = {f"m{i}": {"weight": w[i], "density": [0.5, 0.6, 0.4][i]} for i in range(n)}
        B = torch.tensor(base, dtype=F64).reshape(shape)
        ms = {f"m{i}": B + torch.tensor(ds[i], dtype=F64).reshape(shape) for i in range(n)}
        for masks in itertools.product(itertools.product((0, 1), repeat=N), repeat=n):
            with Chance([list(m) for m in masks]) as c:
                got = apply(name, listing(B, ms, k % (n + 1)), base="base", params=params, per=per)
            if c.draws != n:
                raise HarnessError(f"{name}: {c.draws} draws for {n} models")
            pick = [sparse(d, [i for i in range(N) if m[i]], rescale) for d, m in zip(ds, masks)]
            want = torch.tensor(gta_ref(base, pick, w, consensus, norm, lam), dtype=F64).reshape(shape)
            close(got, want, 1e-6, f"{name} {params} weights {w} of differences {ds}, draws {masks}")
            seen.add(tuple(got.reshape(-1).tolist()))
            k += 1
    return Obs((case, len(seen)), states=len(seen), transitions=k, execs=k)


# --- sce -----------------------------------------------------------------------
def sce_wants(base, ds, topk):
    n, N = len(ds), len(base)
    var = []
    for i in range(N):
        col = [d[i] for d in ds]
        mu = sum(col) / n
        var.append(sum((x - mu) ** 2 for x in col) / n)
    if topk >= 1:
        keeps = [tuple(range(N))]
    else:
        nz = sum(v > 1e-12 for v in var)
        keeps = []
        for k in ints(nz * topk):
            if k <= 0:
                keeps.append(())
                continue
            r = [round(v, 9) for v in var]
            order = sorted(range(N), key=lambda i: -r[i])
            keeps += _choices(r, order, 0, k)
    out = []
    for kp in keeps:
        s = [[x if i in kp else 0.0 for i, x in enumerate(d)] for d in ds]
        m = [sum(x * x for x in d) / N for d in s]
        w = [x / sum(m) for x in m] if sum(m) else [1 / n] * n
        res = []
        for i in range(N):
            col = [d[i] for d in s]
            sign = 1 if sum(col) >= 0 else -1
            use = [j for j in range(n) if col[j] * sign > 0]
            den = sum(w[j] for j in use)
            res.append(base[i] + (sum(w[j] * col[j] for j in use) / den if den else 0.0))
        out.append(res)
    return out


def gen_easy(tier):
    vals = (-1.0, 0.0, 1.0, 2.0)
    for n in (1, 2):
        for ds in itertools.product(itertools.product(vals, repeat=3 if n == 1 or tier == "thorough" else 2), repeat=n):
            yield [[list(d) for d in ds], 1.0]
    pool = [[1.0, -2.0, 0.5, 0.0, 3.0, -1.0], [0.0] * 6, [1.0, 2.0, 0.5, 0.0, -3.0, 1.0], [0.5, 0.25, -0.5, 4.0, 0.0, 0.0], [-1.0, 2.0, -0.5, 0.0, -3.0, 1.0]]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for ds in itertools.product(pool, repeat=n):
            yield [[list(d) for d in ds], 1.0]
    # realistic magnitudes of fine-tuning differences
    for scale in (2.0 ** -10, 2.0 ** -20):
        for ds in itertools.product(pool, repeat=2):
            yield [[list(d) for d in ds], scale]


def shapes_of(N):
    return {1: [(1,), ()], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1)], 6: [(6,), (2, 3), (3, 2), (1, 2, 3)]}[N]


def run_sce(case):
    ds, scale = case
    n, N = len(ds), len(ds[0])
    ds = [[x * scale for x in d] for d in ds]
    base = [[1.0, -2.0, 0.0, 3.0, 0.5, -1.0][i] for i in range(N)]
    k = 0
    seen = set()
    for topk, int8 in ((1.0, False), (1.0, True), (0.5, False), (0.25, True), (0.75, False), (0.0, False), (0.1, False)):
        for shape in shapes_of(N):
            B = torch.tensor(base, dtype=F64).reshape(shape)
            ms = {f"m{i}": B + torch.tensor(ds[i], dtype=F64).reshape(shape) for i in range(n)}
            params = {"select_topk": topk, "int8_mask": int8}
            got = apply("sce", listing(B, ms, k % (n + 1)), base="base", params=params if topk != 1 or int8 else {})
            k += 1
            what = f"sce {params} of differences {ds} shape {shape}"
            if got.shape != torch.Size(shape):
                raise Violation(f"{what}: result shape {tuple(got.shape)}")
            g = got.reshape(-1).tolist()
            wants = [[b + x * scale for b, x in zip(base, v)] for v in sce_wants([0.0] * N, case[0], topk)]
            if not any(max(abs(a - b) for a, b in zip(g, want)) <= 1e-7 * scale for want in wants):
                raise Violation(f"{what}: result {g}, documented {wants[:3]}")
            seen.add(tuple(g))
    return Obs((case, len(seen)), states=len(seen), transitions=k, execs=k)


def ram_ref(base, ds, eps, r=None, alpha=None):
    n, N = len(ds), len(base)
    act = [[abs(x) > eps for x in d] for d in ds]
    cnt = [sum(a[i] for a in act) for i in range(N)]
    lam = [1.0] * n
    if r is not None:
        for j in range(n):
            sh = sum(act[j][i] and cnt[i] > 1 for i in range(N))
            un = sum(act[j][i] and cnt[i] == 1 for i in range(N))
            rho = sh / un if un else 0.0
            lam[j] = 1 + r * min(max(rho, 0), alpha)
    return [base[i] + sum((ds[j][i] * lam[j] if cnt[i] == 1 else ds[j][i] / cnt[i]) for j in range(n) if act[j][i]) for i in range(N)]


def run_ram(case):
    ds, scale = case
    n, N = len(ds), len(ds[0])
    ds = [[x * scale for x in d] for d in ds]
    base = [[1.0, -2.0, 0.0, 3.0, 0.5, -1.0][i] for i in range(N)]
    k = 0
    seen = set()
    for name, params in (("ram", {}), ("ram", {"epsilon": 1.0 * scale}), ("ramplus_tl", {}), ("ramplus_tl", {"r": 0.5, "alpha": 4.0, "epsilon": 0.5 * scale}), ("ramplus_tl", {"r": 2.0, "alpha": 0.75}), ("ramplus_tl", {"r": 0.0})):
        for shape in shapes_of(N):
            B = torch.tensor(base, dtype=F64).reshape(shape)
            ms = {f"m{i}": B + torch.tensor(ds[i], dtype=F64).reshape(shape) for i in range(n)}
            got = apply(name, listing(B, ms, k % (n + 1)), base="base", params=params)
            k += 1
            kw = {} if name == "ram" else {"r": params.get("r", 0.1), "alpha": params.get("alpha", 0.2)}
            want = torch.tensor(ram_ref(base, ds, params.get("epsilon", 1e-5), **kw), dtype=F64).reshape(shape)
            if (got - want).abs().max() > 1e-7 * scale if got.shape == want.shape else True:
                raise Violation(f"{name} {params} of differences {ds} shape {shape}: {got.tolist()}, documented {want.tolist()}")
            seen.add((name, tuple(got.reshape(-1).tolist())))
    return Obs((case, len(seen)), states=len(seen), transitions=k, execs=k)


# --- identities ------------------------------------------------------------------
POOL = [[1.0, -2.0, 0.5, 0.25, 3.0, -1.0], [0.0, 4.0, -0.5, 1.5, 2.0, -3.0], [-1.0, 0.125, 6.0, -0.25, 2.5, 5.0], [1.0, -2.0, 0.75, 0.5, -3.0, 1.0]]
DT = {"float32": (torch.float32, 1e-5), "bfloat16": (torch.bfloat16, 3e-2), "float16": (torch.float16, 4e-3)}


def gen_ident(tier):
    for name in list(GTA) + EASY:
        for dt in DT:
            for shape in ((6,), (2, 3), (3, 2), (1, 6), (6, 1), (2, 1, 3)):
                yield [name, dt, list(shape)]


def run_ident(case):
    name, dt, shape = case
    dtype, tol = DT[dt]
    T = [torch.tensor(v, dtype=dtype).reshape(shape) for v in POOL]
    gta = name in GTA
    k = 0

    def call(ts, params=None, weights=None, **kw):
        nonlocal k
        k += 1
        torch.manual_seed(0)
        per = {m: {"weight": w, **kw.pop("extra", {})} for m, w in (weights or {m: 1.0 for m in ts if m != "base"}).items()} if gta else {}
        return apply(name, ts, base="base", params=params or {}, per=per, **kw)

    base = T[0]
    # models equal to the base
    for n in (1, 2, 3):
        ts = {"base": base, **{f"m{i}": base.clone() for i in range(n)}}
        got = call(ts)
        if not torch.equal(got, base):
            raise Violation(f"{name}: {n} models equal to the base {base.tolist()} give {got.tolist()}")
    # only the base listed
    got = call({"base": base}, weights={} if gta else None) if not gta else apply(name, {"base": base}, base="base", params={}, per={})
    if not torch.equal(got, base):
        raise Violation(f"{name}: the base alone gives {got.tolist()} for {base.tolist()}")
    # one model with weight one and full density
    for m in T[1:]:
        params = {"r": 0.0} if name == "ramplus_tl" else {}
        got = call({"base": base, "m0": m}, params)
        close(got, m, tol, f"{name}: a single model {m.tolist()} on {base.tolist()}")
        if gta:
            for norm in (True, False):
                got = call({"m0": m, "base": base}, {"normalize": norm})
                close(got, m, tol, f"{name}: a single model {m.tolist()} on {base.tolist()}, normalize={norm}")
    # an extra model equal to the base contributes nothing to the sum
    if gta:
        for norm in (False,):
            a = call({"base": base, "m0": T[1], "m1": T[2]}, {"normalize": norm}, {"m0": 0.5, "m1": 2.0})
            b = call({"base": base, "m0": T[1], "e": base.clone(), "m1": T[2]}, {"normalize": norm}, {"m0": 0.5, "m1": 2.0, "e": 1.0})
            if not torch.equal(a, b):
                raise Violation(f"{name}: a model equal to the base changes {a.tolist()} to {b.tolist()}")
        got = call({"base": base, "m0": T[1], "m1": T[2]}, {"lambda": 0.0}, {"m0": 0.5, "m1": 2.0})
        if not torch.equal(got, base):
            raise Violation(f"{name}: scale zero gives {got.tolist()}, base {base.tolist()}")
        got = call({"base": base, "m0": T[1], "m1": T[2]}, {}, {"m0": 0.0, "m1": 0.0})
        if not torch.equal(got, base):
            raise Violation(f"{name}: weights zero give {got.tolist()}, base {base.tolist()}")
    else:
        a = call({"base": base, "m0": T[1], "m1": T[2]})
        b = call({"base": base, "m0": T[1], "e": base.clone(), "m1": T[2]})
        close(b, a, tol, f"{name}: with an extra model equal to the base")
    # listing order
    first = None
    items = {"base": base, "m0": T[1], "m1": T[2], "m2": T[3]}
    ws = {"m0": 0.5, "m1": 2.0, "m2": 1.0}
    for perm in itertools.permutations(items):
        got = call({m: items[m] for m in perm}, {}, ws if gta else None)
        if first is None:
            first = got
        close(got, first, tol, f"{name}: models listed as {perm}")
    # deterministic pruning does not depend on the listing order either
    if name in ("ties", "breadcrumbs", "breadcrumbs_ties"):
        first = None
        dens = {"m0": 0.5, "m1": 0.34, "m2": 0.84}
        for perm in itertools.permutations(items):
            k += 1
            got = apply(name, {m: items[m] for m in perm}, base="base", params={}, per={m: {"weight": ws[m], "density": dens[m]} for m in ws})
            first = got if first is None else first
            close(got, first, tol, f"{name}: models listed as {perm} with densities {dens}")
    # memory layout
    if len(shape) == 2:
        ref = call({m: items[m] for m in ("base", "m0", "m1")}, {}, {"m0": 0.5, "m1": 2.0} if gta else None)
        nc = {m: items[m].t().contiguous().t() for m in ("base", "m0", "m1")}
        close(call(nc, {}, {"m0": 0.5, "m1": 2.0} if gta else None), ref, tol, f"{name} of transposed storage")
    return Obs((case, k), transitions=k, execs=k)


# --- sizes -----------------------------------------------------------------------
def gen_sizes(tier):
    for name in GTA:
        for rows, cols in itertools.product((2, 3, 4), (2, 3)):
            for is_embed in (True, False):
                yield [name, rows, cols, is_embed]


def run_sizes(case):
    """A larger embedding contributes its leading part; any other weight of another size is left out."""
    name, rows, cols, is_embed = case
    base = torch.tensor([[1.0, -2.0], [0.5, 3.0]])
    big = torch.arange(1.0, rows * cols + 1).reshape(rows, cols) * 0.5
    other = torch.tensor([[2.0, 2.0], [-1.0, 4.0]])
    k = 0
    outs = []
    for pos in range(3):
        ts = listing(base, {"m0": big, "m1": other}, pos)
        per = {"m0": {"weight": 1.0}, "m1": {"weight": 0.5}}
        got = apply(name, ts, base="base", params={}, per=per, is_embed=is_embed, weight="e")
        if (rows, cols) == (2, 2) or is_embed:
            small = {**ts, "m0": big[:2, :2].contiguous()}
        else:
            small = {m: t for m, t in ts.items() if m != "m0"}
            per = {"m1": per["m1"]}
        want = apply(name, small, base="base", params={}, per=per, is_embed=is_embed, weight="e")
        close(got, want, 1e-6, f"{name} with a model of size {(rows, cols)} (embedding: {is_embed})")
        outs.append(got.tolist())
        k += 2
    return Obs((case, outs), transitions=k, execs=k)


FAMILIES = [
    Family("dense", gen_dense, run_dense, chunk=8, rule="8 methods x all weights of 1-3 (4) models x normalize x lambda x int8_mask x types, each on a tensor holding every combination of base value and differences"),
    Family("pruned", gen_pruned, run_pruned, chunk=16, rule="ties and breadcrumbs variants: sign patterns x permutations of magnitudes of 2 models, ties and zeros of 3 models, lengths 5-10; densities, gamma, rescale, normalize per model"),
    Family("random", gen_random, run_random, chunk=2, rule="dare and della variants: pairs and triples of difference vectors x every outcome of every draw x options"),
    Family("sce", gen_easy, run_sce, chunk=16, rule="1-3 (4) models from small grids x selections x int8_mask x shapes x magnitudes of differences"),
    Family("ram", gen_easy, run_ram, chunk=16, rule="1-3 (4) models from small grids x ram and ramplus_tl parameters x shapes x magnitudes of differences"),
    Family("identity", gen_ident, run_ident, chunk=2, rule="11 methods x types x shapes: equal to base, base alone, single model, zero scale, zero weights, all listing orders, memory layouts"),
    Family("sizes", gen_sizes, run_sizes, chunk=4, rule="8 methods x size of one model x embedding or not x base position"),
]
