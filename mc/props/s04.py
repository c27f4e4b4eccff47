"""S04: tokenizer transplantation, row by row against the vocabularies and matrices it started from."""
from __future__ import annotations

import contextlib
import itertools
import json
import re

import numpy as np
import torch
import transformers
from click.testing import CliRunner

from mc import ckpt, hfmodels, tiny, toks
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mc.props.s03 import hush
from mergekit.scripts import tokensurgeon

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tokenizers are byte-pair tokenizers of the generic class, where 'Ġ' marks the start of a word; token ids are contiguous",
    "a token is known to the base model if it has a token of the same text or, for special tokens, of the same role; the same text in different roles is not explored",
    "of randomised methods (randn, john_hewitt, noise) only shape, finiteness and presence are checked",
    "sparse token bases and rotary matching pursuit are checked where their result is determined: identical spaces, multiples of shared tokens",
    "cosine-weighted interpolation is only prescribed where the similarities of the neighbours have a positive sum",
    "refusing (more neighbours asked for than shared tokens, several embeddings in one model) is allowed",
]
BOS = {"base": "<s>", "donor": "<bos>"}
B0 = "model.embed_tokens.weight"
B1 = "lm_head.weight"


def role(tok, side):
    """What a token is compared by, written from the description of the tool."""
    if tok == BOS[side]:
        return ("special", "bos")
    if tok.startswith("Ġ"):
        return ("word", tok[1:])
    return ("text", tok)


def rows(tag, n, h):
    """Distinct rows, exact in every float type."""
    return torch.tensor([[((i * h + j) * 37 + tag * 11) % 127 - 63 for j in range(h)] for i in range(n)], dtype=torch.float32)


def write(path, side, vocab, embed, head, dtype=torch.float32, merges=(), heads=1, **cfg):
    v, h = embed.shape
    ts = {n: tiny.value(side, n, s, dtype) for n, s in tiny.llama_shapes(1, vocab=v, h=h, lm_head=False).items()}
    ts[B0] = embed.to(dtype)
    if head is not None:
        ts[B1] = head.to(dtype)
    c = tiny.llama_config(1, v, h, tied=head is None, dtype=str(dtype)[6:])
    c["num_attention_heads"] = c["num_key_value_heads"] = heads
    c.update(cfg)
    tiny.write_model(path, c, ts)
    special = [BOS[side]] if BOS[side] in vocab else []
    toks.write_tokenizer(path, vocab, merges=merges, cfg={"bos_token": BOS[side]} if special else {},
                         added=[(t, vocab.index(t)) for t in special], special=special)
    return ts


def surgeon(d, args):
    with hush():
        r = CliRunner().invoke(tokensurgeon.main, [f"{d}/base", f"{d}/donor", f"{d}/out", *args])
    if r.exit_code:
        import traceback
        tb = "".join(traceback.format_exception(r.exception)[-3:]) if r.exception else r.output[-300:]
        return r.exception or RuntimeError(r.output), tb
    return None, None


@contextlib.contextmanager
def area():
    d = scratch("x")
    try:
        yield d
    finally:
        drop(d)


def common(d, base_ts, donor_vocab, donor_cfg, what):
    """Everything that does not depend on the method. -> tensors of the output"""
    got = ckpt.read_dir(f"{d}/out", "model", "safetensors")[0] or {}
    want = set(base_ts)
    if set(got) != want:
        raise Violation(f"{what}: tensors {sorted(set(got) ^ want)} missing or unexpected")
    for n, t in base_ts.items():
        if n not in (B0, B1) and not ckpt.same(got[n], t):
            raise Violation(f"{what}: {n} is {ckpt.desc(got[n])}, the base model has {ckpt.desc(t)}")
    size = len(donor_vocab)
    for n in (B0, B1):
        if n in base_ts:
            if got[n].shape != (size, base_ts[n].shape[1]) or got[n].dtype != base_ts[n].dtype:
                raise Violation(f"{what}: {n} has shape {tuple(got[n].shape)} {got[n].dtype}, expected {(size, base_ts[n].shape[1])} {base_ts[n].dtype}")
            if not torch.isfinite(got[n].float()).all():
                raise Violation(f"{what}: {n} is not finite: {got[n].tolist()}")
    cfg = json.load(open(f"{d}/out/config.json"))
    if cfg["vocab_size"] != size:
        raise Violation(f"{what}: vocab_size {cfg['vocab_size']}, the matrices have {size} rows")
    for k in ("bos_token_id", "eos_token_id", "pad_token_id"):
        if cfg.get(k) != donor_cfg.get(k):
            raise Violation(f"{what}: {k} is {cfg.get(k)}, the donor's is {donor_cfg.get(k)}")
    bc = json.load(open(f"{d}/base/config.json"))
    for k in ("hidden_size", "num_hidden_layers", "num_attention_heads", "tie_word_embeddings", "intermediate_size"):
        if cfg.get(k) != bc[k]:
            raise Violation(f"{what}: {k} is {cfg.get(k)}, the base model's is {bc[k]}")
    v = toks.read_vocab(f"{d}/out")
    if v != {t: i for i, t in enumerate(donor_vocab)}:
        raise Violation(f"{what}: the saved tokenizer has {v}, the donor's {donor_vocab}")
    return got


def run_tool(d, args, what, refuse=False):
    e, tb = surgeon(d, args)
    if e is not None:
        if refuse:
            return False
        raise Violation(f"{what}: fails: {tb}")
    if refuse:
        return None
    return True


# ---------------------------------------------------------------- vocabularies
UNIVERSE = ["bos", "a", "b", "ab", "Ġa", "c"]


def vocab(tokens, side):
    return [BOS[side] if t == "bos" else t for t in tokens]


def subsets(u):
    return [list(c) for n in range(1, len(u) + 1) for c in itertools.combinations(u, n)]


def gen_vocab(tier):
    u = UNIVERSE[:5] if tier == "quick" else UNIVERSE
    for b in subsets(u):
        for c in subsets(u):
            for rev in (False, True):
                for tied in (False, True):
                    if tied and rev:
                        continue
                    yield dict(base=b, donor=c[::-1] if rev else c, tied=tied)


def run_vocab(case):
    bv, dv = vocab(case["base"], "base"), vocab(case["donor"], "donor")
    what = f"base {bv} donor {dv} tied={case['tied']}"
    with area() as d:
        e, l = rows(1, len(bv), 3), rows(2, len(bv), 3)
        bt = write(f"{d}/base", "base", bv, e, None if case["tied"] else l, bos_token_id=7, eos_token_id=None)
        dcfg = dict(bos_token_id=dv.index(BOS["donor"]) if BOS["donor"] in dv else None, eos_token_id=0)
        write(f"{d}/donor", "donor", dv, rows(3, len(dv), 2), rows(4, len(dv), 2), **dcfg)
        run_tool(d, ["-a", "mean"], what)
        got = common(d, bt, dv, dcfg, what)
        known = {role(t, "base"): i for i, t in enumerate(bv)}
        n = 0
        for name in (B0, B1):
            if name not in bt:
                continue
            for i, t in enumerate(dv):
                j = known.get(role(t, "donor"))
                if j is not None:
                    if not torch.equal(got[name][i], bt[name][j]):
                        raise Violation(f"{what}: row of {t!r} in {name} is {got[name][i].tolist()}, the base model's is {bt[name][j].tolist()}")
                    n += 1
                elif not torch.allclose(got[name][i], bt[name].mean(dim=0), atol=1e-4):
                    raise Violation(f"{what}: row of new token {t!r} in {name} is {got[name][i].tolist()}, the mean is {bt[name].mean(dim=0).tolist()}")
        return Obs((len(bv), len(dv), n), transitions=n)


def gen_rows(tier):
    """Tokenizers with more or fewer tokens than the matrices have rows."""
    for b, c in itertools.product(subsets(UNIVERSE[1:5]), repeat=2):
        for xb, xd in itertools.product((-1, 0, 2), repeat=2):
            if (xb, xd) == (0, 0) or len(b) + xb < 1 or len(c) + xd < 1:
                continue
            for tied in (False, True):
                yield dict(base=b, donor=c, xb=xb, xd=xd, tied=tied)


def run_rows(case):
    bv, dv = vocab(case["base"], "base"), vocab(case["donor"], "donor")
    what = f"base {bv} donor {dv} rows {case['xb']:+d} {case['xd']:+d} tied={case['tied']}"
    nb, nd = len(bv) + case["xb"], len(dv) + case["xd"]
    with area() as d:
        bt = write(f"{d}/base", "base", bv, rows(1, nb, 3), None if case["tied"] else rows(2, nb, 3))
        write(f"{d}/donor", "donor", dv, rows(3, nd, 2), rows(4, nd, 2))
        run_tool(d, ["-a", "zero"], what)
        got = common(d, bt, dv, dict(bos_token_id=0, eos_token_id=1), what)
        known = {role(t, "base"): i for i, t in enumerate(bv) if i < nb}
        for name in (B0, B1):
            if name not in bt:
                continue
            for i, t in enumerate(dv):
                j = known.get(role(t, "donor"))
                if i >= nd:
                    want = [torch.zeros(3)] + ([bt[name][j]] if j is not None else [])  # no row in the donor: zero by design
                else:
                    want = [bt[name][j] if j is not None else torch.zeros(3)]
                if not any(torch.equal(got[name][i], w) for w in want):
                    raise Violation(f"{what}: row of {t!r} in {name} is {got[name][i].tolist()}, expected {[w.tolist() for w in want]}")
        return Obs((nb, nd), transitions=len(dv))


# ---------------------------------------------------------------- prefix and byte matches
MBASE = ["a", "ab", "Ġa", "<0x41>", "B"]
MDONOR = ["abc", "ab", "Ġabc", "Ġb", "A", "<0x42>", "<0x41>", "<0xZZ>", "b", "Ġ", "B"]
ALLOW = ["no", "yes", "embed", "lm_head"]


def gen_match(tier):
    for b in subsets(MBASE):
        for pm, bm in itertools.product(ALLOW, repeat=2):
            for tied in (False, True):
                yield dict(base=b, pm=pm, bm=bm, tied=tied)


def run_match(case):
    bv = case["base"]
    what = f"base {bv} --prefix-match {case['pm']} --byte-match {case['bm']} tied={case['tied']}"
    with area() as d:
        bt = write(f"{d}/base", "base", bv, rows(1, len(bv), 3), None if case["tied"] else rows(2, len(bv), 3))
        write(f"{d}/donor", "donor", MDONOR, rows(3, len(MDONOR), 2), rows(4, len(MDONOR), 2))
        run_tool(d, ["-a", "zero", "-pm", case["pm"], "-bm", case["bm"]], what)
        got = common(d, bt, MDONOR, dict(bos_token_id=0, eos_token_id=1), what)
        hits = 0
        for name, which in ((B0, "embed"), (B1, "lm_head")):
            if name not in bt:
                continue
            pm, bm = (case[k] in ("yes", which) for k in ("pm", "bm"))
            for i, t in enumerate(MDONOR):
                kind, text = role(t, "donor")
                cands = [t]
                if bm and len(t) == 1 and ord(t) < 128:
                    cands.append(f"<0x{ord(t):02X}>")
                if bm and re.fullmatch("<0x[0-9A-F]{2}>", t):
                    cands.append(chr(int(t[3:5], 16)))
                if pm:
                    cands += [("Ġ" if kind == "word" else "") + text[:k] for k in range(len(text) - 1, 0, -1)]
                hit = next((c for c in cands if c in bv), None)
                want = bt[name][bv.index(hit)] if hit else torch.zeros(3)
                hits += hit is not None
                if not torch.equal(got[name][i], want):
                    raise Violation(f"{what}: row of {t!r} in {name} is {got[name][i].tolist()}, expected {want.tolist()} ({hit or 'no match'})")
        return Obs((case["pm"], case["bm"], hits), transitions=hits)


# ---------------------------------------------------------------- approximation from shared tokens
GRID2 = [tuple(map(float, p)) for p in itertools.product((-1, 0, 1), repeat=2)]
TARGETS2 = GRID2 + [(2.0, 1.0), (1.0, 2.0), (-3.0, 0.5)]


def sh(n):
    return [f"s{i}" for i in range(n)]


def transfer(d, shared, targets, base_shared, args, what, heads=1, dtypes=(torch.float32, torch.float32), extra=None, refuse=False):
    """Shared tokens s0.. with the given donor rows and base rows, new tokens n0.. -> rows of the new tokens, or None if refused."""
    n, m = len(shared), len(targets)
    dv = sh(n) + [f"n{i}" for i in range(m)]
    bv = sh(n)[::-1]
    be = torch.tensor(base_shared, dtype=torch.float64).flip(0)
    if extra is not None:
        be = torch.cat([be, torch.tensor(extra, dtype=torch.float64)])
        bv = bv + [f"x{i}" for i in range(len(extra))]
    bt = write(f"{d}/base", "base", bv, be, None, dtype=dtypes[0], heads=heads)
    write(f"{d}/donor", "donor", dv, torch.tensor(list(shared) + list(targets), dtype=torch.float64), None, dtype=dtypes[1], heads=heads)
    e, tb = surgeon(d, args)
    if e is not None:
        if refuse:
            return None
        raise Violation(f"{what}: fails: {tb}")
    got = common(d, bt, dv, dict(bos_token_id=0, eos_token_id=1), what)[B0]
    for i in range(n):
        if not torch.equal(got[i], bt[B0][bv.index(dv[i])]):
            raise Violation(f"{what}: row of shared token {i} is {got[i].tolist()}, the base model's is {bt[B0][bv.index(dv[i])].tolist()}")
    return got[n:].double().numpy()


def lsq(points, target):
    """-> smallest distance of target to the span of the points"""
    if len(points) == 0:
        return float(np.linalg.norm(target))
    c = np.linalg.lstsq(np.array(points).T, target, rcond=1e-9)[0]
    return float(np.linalg.norm(np.array(points).T @ c - target))


def greedy(shared, target, k):
    """All selections orthogonal matching pursuit can make, whatever it does on ties."""
    res = set()
    todo = [()]
    while todo:
        sel = todo.pop()
        if len(sel) == k:
            res.add(frozenset(sel))
            continue
        r = target
        if sel:
            p = np.array([shared[i] for i in sel])
            r = target - p.T @ np.linalg.lstsq(p.T, target, rcond=1e-9)[0]
        ip = {i: abs(float(np.dot(r, shared[i]))) for i in range(len(shared)) if i not in sel}
        best = max(ip.values())
        for i, x in ip.items():
            if x >= best - 1e-5:
                nxt = tuple(sorted(sel + (i,)))
                if nxt not in todo:
                    todo.append(nxt)
    return res


def gen_omp(tier):
    for shared in itertools.product(GRID2, repeat=3):
        if tier == "quick" and shared[0] > shared[1]:
            continue
        for k in (1, 2, 3):
            yield dict(shared=shared, k=k)


def run_omp(case):
    shared = [np.array(s) for s in case["shared"]]
    what = f"omp k={case['k']} shared {case['shared']}"
    with area() as d:
        coef = transfer(d, case["shared"], TARGETS2, np.eye(3), ["-a", "omp", "-k", str(case["k"])], what)
    for t, c in zip(TARGETS2, coef):
        t = np.array(t)
        err = float(np.linalg.norm(sum(c[i] * shared[i] for i in range(3)) - t))
        sets = greedy(shared, t, case["k"])
        tol = 1e-4 * (1 + abs(c).max())
        if abs(c).max() > 1e3:
            raise Violation(f"{what}: the coefficients for {t.tolist()} are {c.tolist()}")
        used = {i for i in range(3) if abs(c[i]) > 1e-6}
        if not any(used <= s and abs(err - lsq([shared[i] for i in s], t)) < tol for s in sets):
            raise Violation(f"{what}: {t.tolist()} is approximated with coefficients {c.tolist()} at distance {err}; orthogonal matching pursuit gives "
                            f"{[(sorted(s), round(lsq([shared[i] for i in s], t), 5)) for s in sets]}")
    return Obs((case["k"], len(set(case["shared"]))), transitions=len(TARGETS2))


SCHEMES = ["distance_proportional", "barycentric", "least_squares"]


def nearest(dist, k):
    """All selections of the k nearest, whatever is done on ties."""
    o = sorted(dist)[k - 1]
    sure = [i for i, x in enumerate(dist) if x < o - 1e-6]
    tie = [i for i, x in enumerate(dist) if abs(x - o) <= 1e-6]
    return [sure + list(c) for c in itertools.combinations(tie, k - len(sure))]


def interp_ok(shared, t, c, k, scheme, cosine):
    """-> None if c is a correct answer, else the correct ones"""
    if cosine:
        dist = [1 - float(np.dot(t, s)) / max(float(np.linalg.norm(t) * np.linalg.norm(s)), 1e-6) for s in shared]
    else:
        dist = [float(np.linalg.norm(t - s)) for s in shared]
    used = {i for i in range(len(shared)) if abs(c[i]) > 2e-5}
    wants = []
    for sel in nearest(dist, k):
        if scheme == "distance_proportional":
            w = np.array([1 - dist[i] if cosine else 1 / max(dist[i], 1e-6) for i in sel])
            if w.sum() < 1e-3:
                return None  # not prescribed
            w = w / w.sum()
            full = np.zeros(len(shared))
            full[sel] = w
            if abs(full - c).max() < 2e-3:
                return None
            wants.append(full.round(4).tolist())
            continue
        p = np.array([shared[i] for i in sel])
        err = float(np.linalg.norm(c @ np.array(shared) - t))
        if scheme == "least_squares":
            best = lsq(p, t)
            ok = abs(err - best) < 1e-3
        else:  # weights with sum one: affine combination
            best = lsq(p[1:] - p[0], t - p[0]) if k > 1 else float(np.linalg.norm(t - p[0]))
            ok = abs(err - best) < 2e-3 and abs(c.sum() - 1) < 2e-3
        if ok and used <= set(sel) and abs(c).max() < 1e3:
            return None
        wants.append((sel, round(best, 4)))
    return wants


def gen_interp(tier):
    for shared in itertools.product(GRID2, repeat=3):
        if tier == "quick" and (shared[0] > shared[1] or shared[1] > shared[2]):
            continue
        for k in (1, 2, 3):
            for scheme in SCHEMES:
                for cosine in (False, True):
                    yield dict(shared=shared, k=k, scheme=scheme, cosine=cosine)


def run_interp(case):
    shared = [np.array(s) for s in case["shared"]]
    what = f"common_interpolation k={case['k']} {case['scheme']} cosine={case['cosine']} shared {case['shared']}"
    with area() as d:
        coef = transfer(d, case["shared"], TARGETS2, np.eye(3), ["-a", "common_interpolation", "-k", str(case["k"]), "-w", case["scheme"]] + (["-c"] if case["cosine"] else []), what)
    for t, c in zip(TARGETS2, coef):
        bad = interp_ok(shared, np.array(t), c, case["k"], case["scheme"], case["cosine"])
        if bad is not None:
            raise Violation(f"{what}: {t} is approximated with weights {c.round(5).tolist()}, expected {bad}")
    return Obs((case["k"], case["scheme"], case["cosine"]), transitions=len(TARGETS2))


# maps of the plane that keep distances, then a shift
ISO = [np.array(m, dtype=float) for m in ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0.6, 0.8], [-0.8, 0.6]], [[0.6, 0.8], [0.8, -0.6]])]


def gen_pca(tier):
    for n in (3, 4):
        for shared in itertools.combinations_with_replacement(GRID2, n):
            c = np.array(shared) - np.mean(shared, axis=0)
            if np.linalg.matrix_rank(c, tol=1e-6) < 2 or (tier == "quick" and n == 4 and sum(map(hash, shared)) % 3):
                continue
            for m in range(len(ISO)):
                for pad in (0, 1):
                    yield dict(shared=shared, m=m, pad=pad)


def run_pca(case):
    mp = np.hstack([ISO[case["m"]], np.zeros((2, case["pad"]))])
    off = np.arange(1, 3 + case["pad"]) / 4
    what = f"landmark_pca, base space = donor space x {mp.tolist()} + {off.tolist()}, shared {case['shared']}"
    with area() as d:
        got = transfer(d, case["shared"], TARGETS2, np.array(case["shared"]) @ mp + off, ["-a", "landmark_pca"], what)
    want = np.array(TARGETS2) @ mp + off
    if abs(got - want).max() > 5e-3:
        i = int(abs(got - want).max(axis=1).argmax())
        raise Violation(f"{what}: {TARGETS2[i]} becomes {got[i].round(4).tolist()}, the map gives {want[i].round(4).tolist()}")
    return Obs((len(case["shared"]), case["m"], case["pad"]), transitions=len(TARGETS2))


def gen_same(tier):
    """Base and donor embed the shared tokens alike and have the same mean: new tokens keep the donor's embedding."""
    for n in (3, 4, 5):
      for shared in itertools.combinations_with_replacement(GRID2, n):
        # centred: combinations of the tokens and of their offsets from the mean are the same
        if np.linalg.matrix_rank(np.array(shared), tol=1e-6) < 2 or np.any(np.sum(shared, axis=0)):
            continue
        for k in range(2, n + 1):
            yield dict(shared=shared, method="stb", k=k)
    for shared in itertools.combinations_with_replacement(GRID2, 3):
        if len(set(shared)) == 3 and (0.0, 0.0) not in shared:
            yield dict(shared=shared, method="mp_rope", k=1)


def run_same(case):
    shared = np.array(case["shared"])
    what = f"{case['method']} k={case['k']} shared {case['shared']}"
    with area() as d:
        if case["method"] == "stb":
            targets = TARGETS2
            got = transfer(d, case["shared"], targets, shared, ["-a", "stb", "-k", str(case["k"])], what, extra=targets)
            want = np.array(targets)
        else:
            # multiples of a shared token; only those that no other shared token competes for
            targets, want = [], []
            base = np.array([[1.0, 2.0], [3.0, -1.0], [0.5, 4.0]])
            for i, s in enumerate(shared):
                if all(abs(np.dot(s, o)) < np.dot(s, s) - 1e-6 for j, o in enumerate(shared) if j != i):
                    for f in (1.0, 2.0, 0.5):
                        targets.append(tuple(f * s))
                        want.append(f * base[i])
            if not targets:
                return Obs(("none",))
            got = transfer(d, case["shared"], targets, base, ["-a", "mp_rope", "-k", "1"], what)
            want = np.array(want)
    if abs(got - want).max() > 5e-3:
        i = int(abs(got - want).max(axis=1).argmax())
        raise Violation(f"{what}: {targets[i]} becomes {got[i].round(4).tolist()}, expected {want[i].round(4).tolist()}")
    return Obs((case["method"], case["k"]), transitions=len(targets))


# ---------------------------------------------------------------- subwords
PIECES = ["a", "b", "c", "ab"]
WORDS = ["abc", "ba", "abab", "cab", "aab", "cc", "bcab"]


def pieces(w):
    """Byte-pair tokenization with the one merge a+b."""
    return re.findall("ab|.", w)


def gen_subword(tier):
    for p in itertools.permutations(PIECES):
        for m in ("mean", "sum", "weighted_mean", "first_last"):
            for bs in ("-1", "1", "3"):
                yield dict(order=p, m=m, bs=bs)


def run_subword(case):
    bv = list(case["order"])
    what = f"subword {case['m']} base {bv}"
    dv = WORDS + ["a"]
    with area() as d:
        bt = write(f"{d}/base", "base", bv, rows(1, 4, 3), rows(2, 4, 3), merges=[("a", "b")])
        write(f"{d}/donor", "donor", dv, rows(3, len(dv), 2), rows(4, len(dv), 2))
        run_tool(d, ["-a", "subword", "-s", case["m"], "--batch-size", case["bs"]], what)
        got = common(d, bt, dv, dict(bos_token_id=0, eos_token_id=1), what)
    for name in (B0, B1):
        for i, w in enumerate(WORDS):
            r = torch.stack([bt[name][bv.index(p)] for p in pieces(w)]).double()
            n = len(r)
            if case["m"] == "mean":
                want = r.mean(0)
            elif case["m"] == "sum":
                want = r.sum(0)
            elif case["m"] == "weighted_mean":  # the last piece weighs most in the input embedding, the first in the output
                wt = torch.arange(1, n + 1, dtype=torch.float64)
                wt = wt if name == B0 else wt.flip(0)
                want = (wt[:, None] * r).sum(0) / wt.sum()
            else:
                want = r[-1] if name == B0 else r[0]
            if not torch.allclose(got[name][i].double(), want, atol=1e-3):
                raise Violation(f"{what}: row of {w!r} ({pieces(w)}) in {name} is {got[name][i].tolist()}, expected {want.tolist()}")
    return Obs((case["m"],), transitions=2 * len(WORDS))


# ---------------------------------------------------------------- options
METHODS = [["-a", m] for m in ("mean", "zero", "randn", "john_hewitt", "omp", "landmark_pca", "stb", "mp_rope", "subword")] + \
    [["-a", "common_interpolation", "-w", w, *c] for w in SCHEMES for c in ([], ["-c"])]
RANDOM = ("randn", "john_hewitt")
DT = {"f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16}


def matrices():
    g = np.random.default_rng(5)
    donor = g.standard_normal((9, 4))
    base = g.standard_normal((6, 4)) + donor[:6]
    return donor, base


def options_world(d, args, what, dtypes=(torch.float32, torch.float32), few=False):
    donor, base = matrices()
    n = 3 if few else 6
    return transfer(d, donor[:n], donor[6:], base[:n], args, what, heads=2, dtypes=dtypes)


def gen_options(tier):
    for m in METHODS:
        for bs in ("-1", "1", "2", "512"):
            for noise in (None, 0.5):
                for scale in (None, 0.5, 2.0):
                    yield dict(m=m, bs=bs, noise=noise, scale=scale, dt=["f32", "f32"])
        for a, b in itertools.product(DT, repeat=2):
            yield dict(m=m, bs="512", noise=None, scale=None, dt=[a, b])
        if m[1] in ("mean", "zero", "randn", "john_hewitt", "subword"):
            yield dict(m=m, bs="512", noise=None, scale=None, dt=["f32", "f32"], few=True)


def run_options(case):
    what = str(case)
    m = case["m"] + ["-k", "3"]
    few = case.get("few", False)
    with area() as d:
        ref = options_world(d, m, what + " (plain)", few=few) if case["m"][1] not in RANDOM else None
    extra = ["--batch-size", case["bs"]]
    if case["noise"]:
        extra += ["-nvn", str(case["noise"])]
    if case["scale"]:
        extra += ["-nvs", str(case["scale"])]
    with area() as d:
        got = options_world(d, m + extra, what, tuple(DT[x] for x in case["dt"]), few=few)
    s = case["scale"] or 1.0
    if case["m"][1] in RANDOM:
        if not np.any(got):
            raise Violation(f"{what}: the rows of the new tokens are zero")
        if len(np.unique(got.round(4), axis=0)) != len(got):
            raise Violation(f"{what}: new tokens have the same random row: {got.tolist()}")
    elif case["noise"]:
        diff = got / s - ref
        if not np.all(np.abs(diff) > 0) or np.abs(diff).max() > 10 * case["noise"]:
            raise Violation(f"{what}: the noise added is {diff.tolist()}")
        if len(np.unique(diff.round(5), axis=0)) != len(diff):
            raise Violation(f"{what}: the same noise for several tokens: {diff.tolist()}")
    else:
        tol = 5e-3 if case["dt"] == ["f32", "f32"] else 0.2
        if np.abs(got - s * ref).max() > tol * (1 + np.abs(ref).max()):
            raise Violation(f"{what}: rows {got.round(3).tolist()}, expected {(s * ref).round(3).tolist()}")
    return Obs((case["m"][1], case["noise"], case["scale"]), transitions=len(got))


# ---------------------------------------------------------------- undertrained tokens
KINDS = {"good": 0, "small": 1, "unused-like": 2}


def kind_row(kind, i, h=4):
    r = rows(9, 12, h)[i].double()
    r = r / r.norm() * (5 + i / 8)  # no two norms alike
    u = torch.zeros(h, dtype=torch.float64)
    u[-1] = 1
    r[-1] = 0
    if kind == "small":
        return r / 50
    if kind == "unused-like":
        return u * (6 + i / 8) + r / 100
    return r


def well_trained(vocab, embed, head):
    """The published heuristic with the tool's quantile of 1 percent, in its own words: tokens whose input embedding is among the
    shortest, and tokens whose embeddings point where those of unused rows point (similarity in the top percent, and above one half)."""
    used = set(vocab.values())
    unused = [i for i in range(len(embed)) if i not in used] + [i for t, i in vocab.items() if "unused_token" in t or "reserved_special_token" in t]
    bad = set(unused)
    if head is not None:
        norms = np.linalg.norm(embed, axis=1)
        bad |= set(np.where(norms < np.quantile(norms, 0.01))[0])
    if unused:
        for m in (embed, head):
            if m is None:
                continue
            mean = m[unused].mean(axis=0)
            cos = (m @ mean) / np.maximum(np.linalg.norm(m, axis=1) * np.linalg.norm(mean), 1e-8)
            lim = max(0.5, np.quantile(cos, 0.99))
            if np.any(np.abs(cos - lim) < 1e-6):
                return None  # decided by rounding
            bad |= set(np.where(cos > lim)[0])
    return {t for t, i in vocab.items() if i not in bad}


MV = ["a", "b", "c", "reserved_special_token_1"]


def gen_magikarp(tier):
    for kb in itertools.product(KINDS, repeat=3):
        for kd in itertools.product(KINDS, repeat=3):
            for spare in (0, 1):
                for tied in (False, True):
                    if tier == "quick" and tied and spare:
                        continue
                    yield dict(base=kb, donor=kd, spare=spare, tied=tied)


def run_magikarp(case):
    what = str(case)
    with area() as d:
        w = {}
        for side, kinds, vocab in (("base", case["base"], MV), ("donor", case["donor"], MV[::-1] + ["n"])):
            ks = dict(zip("abc", kinds), reserved_special_token_1="unused-like", n="good")
            m = [torch.stack([kind_row(ks[t], MV.index(t) if t in MV else 7) for t in vocab] + [kind_row("unused-like", 8 + i) for i in range(case["spare"])]) * f for f in (1, -1)]
            if side == "donor":
                m = [x[:, :3 + 1] + 0.01 for x in m]
            if case["tied"]:
                m[1] = None
            w[side] = (vocab, m, write(f"{d}/{side}", side, vocab, *m))
        run_tool(d, ["-a", "mean", "--magikarp"], what)
        got = common(d, w["base"][2], w["donor"][0], dict(bos_token_id=0, eos_token_id=1), what)
    good = {}
    for side, (vocab, _, ts) in w.items():
        head = ts.get(B1, ts[B0] if side == "donor" else None)  # a tied donor's output layer is its input embedding
        good[side] = well_trained({t: i for i, t in enumerate(vocab)}, ts[B0].double().numpy(), None if head is None else head.double().numpy())
        if good[side] is None:
            return Obs(("rounding",))
    bv, dv, bt = w["base"][0], w["donor"][0], w["base"][2]
    seen = []
    for name in (B0, B1):
        if name not in bt:
            continue
        for i, t in enumerate(dv):
            if t in good["base"] and t in good["donor"]:
                want, k = bt[name][bv.index(t)], "kept"
            elif t not in good["base"] and t not in good["donor"]:
                want, k = torch.zeros(4), "zero"
            else:
                want, k = bt[name].mean(dim=0), "approximated"
            seen.append(k)
            if not torch.allclose(got[name][i], want, atol=1e-5, rtol=0):
                raise Violation(f"{what}: row of {t!r} in {name} is {got[name][i].tolist()}, expected {want.tolist()} ({k})")
    return Obs((tuple(seen),), transitions=len(seen))


# ---------------------------------------------------------------- architectures
CAUSAL = ["apertus", "arcee", "cohere", "cohere2", "falcon", "gemma", "gemma2", "gemma3", "glm4", "gpt-neox", "gpt2", "gptbigcode", "granite", "lfm2", "llama", "mamba", "mistral",
          "mixtral", "olmo2", "phi2", "phi3", "qwen2", "qwen3", "qwen3_moe", "stablelm2", "starcoder2", "opt", "gptj", "bloom", "olmo", "smollm3", "mpt", "gpt_neo",
          "llama-sequence-classification", "gpt2-sequence-classification"]
VB = [f"t{i}" for i in range(16)]
VD = [f"t{i}" for i in range(15, 5, -1)] + ["u0", "u1"]  # 10 shared, 2 new


def gen_archs(tier):
    for a in CAUSAL:
        cls, cc, base, axes = {**hfmodels.MODELS, **hfmodels.INFERRED}[a][0]
        for s in hfmodels.settings(axes):
            if any(k in ("n_layer", "num_hidden_layers") and v != 1 for k, v in s.items()):
                continue
            # transformers gives the tokenizers of Qwen2 models an <|endoftext|> of its own: one row more
            if s.get("qk_layernorm") and a == "stablelm2":
                continue  # the definition has no per-head norms: finding of A01
            for as_donor in (False, True):
                for other_tied in (False, True):
                    yield dict(arch=a, setting=s, as_donor=as_donor, other_tied=other_tied)


def save_hf(path, arch, setting, vocab, seed):
    cls, cc, base, _ = {**hfmodels.MODELS, **hfmodels.INFERRED}[arch][0]
    m = hfmodels.build(cls, hfmodels.config(cc, dict(base, vocab_size=len(vocab)), setting), seed)
    m.save_pretrained(path)
    toks.write_tokenizer(path, vocab)
    return cls, m


def run_archs(case):
    what = str(case)
    with area() as d, hush():
        other = ("llama", {"tie_word_embeddings": case["other_tied"], "num_hidden_layers": 1})
        me = (case["arch"], case["setting"])
        b, dn = (other, me) if case["as_donor"] else (me, other)
        cls, base = save_hf(f"{d}/base", *b, VB, 1)
        _, donor = save_hf(f"{d}/donor", *dn, VD, 2)
        with torch.no_grad():  # a new token is twice a shared one
            w = donor.get_input_embeddings().weight
            w[10:] = 2 * w[2:4]
            h = donor.get_output_embeddings()
            if h is not None and h.weight is not w:
                h.weight[10:] = 2 * h.weight[2:4]
        donor.save_pretrained(f"{d}/donor")
        toks.write_tokenizer(f"{d}/donor", VD)
        e, tb = surgeon(d, ["-a", "omp", "-k", "1"])
        if e is not None:
            return refused(case, e, tb, what)
        sd, problems = hfmodels.load(cls, f"{d}/out")
    if problems:
        raise Violation(f"{what}: the result does not load: {problems}")
    want = base.state_dict()
    emb = {n + ".weight" for n, m in base.named_modules() if m is base.get_input_embeddings() or m is base.get_output_embeddings()}
    bias = {n.removesuffix("weight") + "bias" for n in emb}
    if set(sd) != set(want):
        raise Violation(f"{what}: tensors {sorted(set(sd) ^ set(want))} missing or unexpected")
    for n, t in want.items():
        if n not in emb and n not in bias:
            if not ckpt.same(sd[n], t):
                raise Violation(f"{what}: {n} is {ckpt.desc(sd[n])}, the base model has {ckpt.desc(t)}")
            continue
        for i, tok in enumerate(VD[:10]):
            if sd[n].shape[0] - len(VD) != (1 if case["arch"] == "qwen2" and case["as_donor"] else 0) or not torch.equal(sd[n][i], t[VB.index(tok)]):
                raise Violation(f"{what}: row of {tok} in {n} is {sd[n][i].tolist()}, the base model's is {t[VB.index(tok)].tolist()}")
        if n in emb:
            # the shared token with the largest inner product is chosen; its multiple is what must come out
            tied = base.get_output_embeddings() is not None and base.get_output_embeddings().weight is base.get_input_embeddings().weight
            dm = donor.get_input_embeddings() if tied or n == sorted_in(base) else donor.get_output_embeddings() or donor.get_input_embeddings()
            x = dm.weight.detach().double()
            for i in (10, 11):
                ip = (x[:10] @ x[i]).abs()
                j = int(ip.argmax())
                r = float(x[j] @ x[i]) / float(x[j] @ x[j]) * t[VB.index(VD[j])].double()
                if not torch.allclose(sd[n][i].double(), r, atol=1e-2, rtol=1e-3):
                    raise Violation(f"{what}: row of new token {i} in {n} is {sd[n][i].tolist()}, expected {r.tolist()}")
    return Obs((case["arch"], case["as_donor"]), transitions=len(want))


def sorted_in(model):
    return next(n + ".weight" for n, m in model.named_modules() if m is model.get_input_embeddings())


def refused(case, e, tb, what):
    if isinstance(e, RuntimeError) and ("Multiple input embeddings" in str(e) or "Missing tensor" in str(e) and case["as_donor"] and "classification" in case["arch"]):
        return Obs(("refused", case["arch"], case["as_donor"], str(e)[:40]))
    raise Violation(f"{what}: fails: {tb}")


FAMILIES = [
    Family("vocab", gen_vocab, run_vocab, "every pair of subsets of 5 (thorough 6) tokens incl. word starts and special tokens of different name; donor order kept and reversed; tied and untied"),
    Family("rows", gen_rows, run_rows, "every pair of subsets of 4 tokens; matrices with one row fewer, equal, two more than the tokenizer; tied and untied"),
    Family("match", gen_match, run_match, "every base subset of 5 tokens x 16 combinations of prefix and byte matching x tied"),
    Family("omp", gen_omp, run_omp, "all 3 shared rows of the grid {-1,0,1}^2 x k 1..3 x 12 targets; every tie-break of the reference allowed"),
    Family("interp", gen_interp, run_interp, "shared rows of the grid x k 1..3 x 3 weightings x 2 metrics x 12 targets"),
    Family("pca", gen_pca, run_pca, "shared rows of the grid spanning the plane x 6 isometries x padding"),
    Family("same", gen_same, run_same, "sparse token basis in identical spaces; rotary matching pursuit of multiples"),
    Family("subword", gen_subword, run_subword, "every order of the base vocabulary x 4 methods x 3 batch sizes"),
    Family("options", gen_options, run_options, "15 methods x batch size x noise x scale; x 9 precision pairs"),
    Family("magikarp", gen_magikarp, run_magikarp, "3 tokens x 3 states of training in both models x unused rows x tied"),
    Family("archs", gen_archs, run_archs, "35 architectures and their settings, as base and as donor, against a tied and an untied llama; loaded back"),
]
