"""T01: merges with tokenizers, every embedding row of the output against the token it belongs to."""
from __future__ import annotations

import itertools
import json
import os

import torch
import transformers  # noqa: F401

from mc import core, e2e, tiny, toks
from mc.core import Family, Obs, Violation, drop, scratch

LEVEL = "model_checking"
ASSUMPTIONS = [
    "vocabularies of up to five tokens over eight token strings, BPE tokenizers, llama layout models with one layer; embedding rows all distinct",
    "token ids are contiguous; matrices may have more rows than tokens, or fewer (the excess tokens are then unused)",
    "a model without tokenizer files is taken to use the base model's tokenizer (as the tool announces)",
    "overrides name models that take part in the merge and have the token; the tool refuses others",
    "models are those whose embedding the slice in question merges; in piecewise assemblies tokens known only to other slices' models have no embedding to take and get zero",
]

# name: (regular tokens, added [(token, id)], rows, special, merges); rows None: as many as tokens
VOC = {
    "ab": (["a", "b"], [], None),
    "ba": (["b", "a"], [], None),
    "abc": (["a", "b", "c"], [], None),
    "ca": (["c", "a"], [], None),
    "abX": (["a", "b"], [("X", 2)], None),
    "bcXY": (["b", "c"], [("X", 2), ("Y", 3)], None),
    "aYX": (["a"], [("Y", 1), ("X", 2)], None),
    "abX+2": (["a", "b"], [("X", 2)], 5),
    "abXY-1": (["a", "b"], [("X", 2), ("Y", 3)], 3),
    "aXb": (["a", "X", "b"], [], None),
    "Xab": (["X", "a", "b"], [("X", 0)], None),
    "none": (None, [], 3),
    "abab": (["a", "b", "ab"], [], None),
    "abab-1": (["a", "b", "ab"], [], 2),
    "defg": (["d", "e", "f", "g"], [], None),
}
MERGES = {"abab": [("a", "b")], "abab-1": [("a", "b")]}
SPECIAL = {"Xab": {"X"}, "aYX": {"X"}}
W = [0.5, 2.0, -1.0]
H = 2


def rows_of(v):
    reg, added, rows = VOC[v]
    return rows if rows is not None else len(set(reg) | {t for t, _ in added})


def vocab_of(v):
    reg, added, _ = VOC[v]
    if reg is None:
        return None
    d = {t: i for i, t in enumerate(reg)}
    d.update({t: i for t, i in added})
    return d


def fixture(slot, v, tied=False):
    def make(d):
        ts = tiny.make_llama(d, f"{slot}/{v}", 1, vocab=rows_of(v), h=H, lm_head=not tied, value=tiny.wide)
        reg, added, _ = VOC[v]
        if reg is not None:
            toks.write_tokenizer(d, reg, added, SPECIAL.get(v, ()), MERGES.get(v, ()))
        return ts
    return e2e.per_process(f"t01-{slot}-{v.replace('+', 'p')}-{int(tied)}", make)


class Donor:
    """What the oracle knows about one model."""

    def __init__(self, name, v, tensors, base_vocab=None):
        self.name = name
        self.rows = rows_of(v)
        voc = vocab_of(v)
        self.own = voc is not None
        self.special = {t: t in SPECIAL.get(v, ()) for t, _ in VOC[v][1]}
        self.vocab = voc if voc is not None else base_vocab
        self.tensors = tensors

    def has(self, t):
        return self.vocab is not None and t in self.vocab and self.vocab[t] < self.rows

    def row(self, key, t):
        return self.tensors[key][self.vocab[t]].double()


def donor_row(m, key, t, models, base, override, donors):
    """Documented row of model m for token t, before merging."""
    force = bool(override and override.get("force"))
    if m.has(t) and not force:
        return m.row(key, t)
    if override:
        s = override["source"]
        if isinstance(s, int):
            return donors[s].row(key, t)
        if s["kind"] == "zero":
            return torch.zeros(H, dtype=torch.float64)
        d = donors[s["model"]]
        return d.tensors[key][s["token_id"]].double() if "token_id" in s else d.row(key, s["token"])
    if base is not None and base in models and base.has(t):
        return base.row(key, t)
    have = [d for d in models if d.has(t)]
    if not have:
        return torch.zeros(H, dtype=torch.float64)
    return sum(d.row(key, t) for d in have) / len(have)


def check_output(case, out, tensors, config, donors, base, source, overrides, pad, combine, slots):
    """slots: {tensor key: donors merged into it}. combine(models, rows) -> merged row."""
    got = toks.read_vocab(out)
    what = f"{case}"
    if got is None:
        raise Violation(f"{what}: no tokenizer in the output: {sorted(os.listdir(out))}")
    n = len(got)
    if sorted(got.values()) != list(range(n)):
        raise Violation(f"{what}: output token ids {got}")
    b = base if base is not None else donors[0]
    stripped = {t: i for t, i in b.vocab.items() if i < b.rows}
    if source == "base":
        fixed, wanted = stripped, set(stripped)
    elif source == "union":
        fixed, wanted = stripped, {t for d in donors if d.own for t in d.vocab if d.has(t)} | set(stripped)
    else:
        fixed = donors[source].vocab
        wanted = set(fixed)
    wanted |= set(overrides)
    flags = toks.read_special(out)
    kept = [b] if source == "base" else [donors[source]] if isinstance(source, int) else [b] + [d for d in donors if d is not b]
    for t in wanted - set(overrides):
        says = [d.special.get(t) for d in kept if d.own and d.vocab and t in d.vocab and (d.has(t) or isinstance(source, int))]
        if says and says[0] is not None and len(set(says)) == 1 and flags.get(t) != says[0]:
            raise Violation(f"{what}: token {t!r} is special={flags.get(t)} in the output, {says[0]} in its source")
    if set(got) != wanted:
        raise Violation(f"{what}: output tokens {sorted(got)}, documented {sorted(wanted)}")
    for t, i in fixed.items():
        if got[t] != i:
            raise Violation(f"{what}: token {t!r} has id {got[t]} in the output, {i} in the tokenizer it comes from")
    size = n if not pad else -(-n // pad) * pad
    if config.get("vocab_size") != size:
        raise Violation(f"{what}: vocab_size {config.get('vocab_size')} in the configuration, {n} tokens, padding {pad}")
    for key, models in slots.items():
        if key not in tensors:
            raise Violation(f"{what}: {key} missing from the output")
        mat = tensors[key].double()
        if list(mat.shape) != [size, H]:
            raise Violation(f"{what}: {key} has shape {list(mat.shape)}, {n} tokens, padding {pad}")
        if not torch.isfinite(mat).all():
            raise Violation(f"{what}: {key} has non-finite entries")
        for t, i in got.items():
            rows = [donor_row(m, key, t, models, base, overrides.get(t), donors) for m in models]
            want = combine(models, rows)
            if (mat[i] - want).abs().max() > 1e-5 * max(1.0, float(max(r.abs().max() for r in rows + [want]))) * 4:
                raise Violation(f"{what}: {key} row {i} of token {t!r} is {mat[i].tolist()}, documented {want.tolist()}")
    return got


def expand(overrides, donors, dirs):
    """Overrides in configuration form."""
    res = {}
    for t, o in overrides.items():
        s = o["source"]
        c = {"force": o["force"]} if "force" in o else {}
        if isinstance(s, int):
            c["source"] = dirs[s]
        elif s["kind"] == "zero":
            c["source"] = {"kind": "zero"}
        else:
            c["source"] = {**s, "model": dirs[s["model"]]}
        res[t] = c
    return res


def setup_donors(vs, base_i, tied=False):
    dirs, tens = [], []
    for i, v in enumerate(vs):
        d, t = fixture(i, v, tied)
        dirs.append(d)
        tens.append(t)
    bi = base_i if base_i is not None else 0
    bv = vocab_of(vs[bi])
    if bv is not None:
        bv = {t: i for t, i in bv.items() if i < rows_of(vs[bi])}
    donors = [Donor(f"m{i}", v, tens[i], bv) for i, v in enumerate(vs)]
    return dirs, donors


def overrides_for(kind, donors):
    """Override sets that only name tokens and models that exist; None if not applicable."""
    if kind == "none":
        return {}
    last = len(donors) - 1
    mine = [t for t in sorted(donors[last].vocab) if donors[last].has(t)] if donors[last].vocab else []
    first = [t for t in sorted(donors[0].vocab) if donors[0].has(t)]
    if not mine or not first:
        return None
    return {
        "model": {mine[-1]: {"source": last}},
        "model-first": {first[-1]: {"source": 0}},
        "force": {mine[-1]: {"source": last, "force": True}, first[0]: {"source": 0, "force": True}},
        "zero": {mine[-1]: {"source": {"kind": "zero"}}, "new": {"source": {"kind": "zero"}}},
        "zero-force": {first[0]: {"source": {"kind": "zero"}, "force": True}},
        "token": {"new": {"source": {"kind": "model_token", "model": last, "token": mine[0]}}, mine[-1]: {"source": {"kind": "model_token", "model": 0, "token": first[0]}}},
        "token-force": {"new": {"source": {"kind": "model_token", "model": 0, "token": first[-1]}}, first[0]: {"source": {"kind": "model_token", "model": last, "token": mine[-1]}, "force": True}},
        "token-id": {"new": {"source": {"kind": "model_token", "model": last, "token_id": donors[last].rows - 1}}, "new2": {"source": {"kind": "model_token", "model": 0, "token_id": 0}, "force": True}},
    }[kind]


KINDS = ["model", "model-first", "force", "zero", "zero-force", "token", "token-force", "token-id"]


def run_case(case):
    vs, base_i, source, okind, pad, method, legacy, tied = case
    dirs, donors = setup_donors(vs, base_i, tied)
    overrides = overrides_for(okind, donors)
    if overrides is None:
        return Obs(("n/a", okind), execs=0)
    base = donors[base_i] if base_i is not None else None
    src = dirs[source] if isinstance(source, int) else source
    cfg = {"dtype": "float32"}
    models = [{"model": d, "parameters": {"weight": W[i]}} for i, d in enumerate(dirs)]
    merged = donors
    if base_i is not None:
        cfg["base_model"] = dirs[base_i]
    if method == "linear":
        cfg.update(merge_method="linear", parameters={"normalize": False}, models=models)

        def combine(ms, rows):
            return sum(W[donors.index(m)] * r for m, r in zip(ms, rows))
    elif method == "task_arithmetic":
        cfg.update(merge_method="task_arithmetic", models=[m for i, m in enumerate(models) if i != base_i])

        def combine(ms, rows):
            br = rows[ms.index(base)]
            return br + sum(W[donors.index(m)] * (r - br) for m, r in zip(ms, rows) if m is not base)
    elif method == "passthrough":
        cfg.update(merge_method="passthrough", models=[{"model": dirs[0]}])
        merged = donors[:1]

        def combine(ms, rows):
            return rows[0]
    if legacy:
        cfg["tokenizer_source"] = src
    else:
        cfg["tokenizer"] = {"source": src, "tokens": expand(overrides, donors, dirs), "pad_to_multiple_of": pad}
        if not overrides:
            del cfg["tokenizer"]["tokens"]
        if pad is None:
            del cfg["tokenizer"]["pad_to_multiple_of"]
    keys = ["model.embed_tokens.weight"] + ([] if tied else ["lm_head.weight"])
    out = scratch("o")
    try:
        ts, config, _ = e2e.merge(cfg, out, keep=True)
        if tied and "lm_head.weight" in ts:
            raise Violation(f"{case}: a separate output matrix in a model with tied ones")
        got = check_output(case, out, ts, config, merged, base, source, overrides, pad, combine, {k: merged for k in keys})
    finally:
        drop(out)
    return Obs((case, tuple(sorted(got))), states=len(got), transitions=len(got) * len(keys))


def pairs(tier):
    names = list(VOC)
    return [list(p) for p in itertools.product([n for n in names if n != "none"], names)]


def gen_pairs(tier):
    for vs in pairs(tier):
        for bi, src in itertools.product((0, None), ("union", "base", 0, 1)):
            if src == 1 and VOC[vs[1]][0] is None:
                continue
            if tier == "quick" and src == 0 and bi is None:
                continue
            yield [vs, bi, src, "none", None, "linear", (bi == 0) != (src == "base"), False]
    for vs in pairs(tier):
        if VOC[vs[1]][0] is not None:
            yield [vs, 1, "union", "none", None, "linear", False, False]
            yield [vs, 0, "union", "none", 4, "task_arithmetic", False, True]


def gen_over(tier):
    names = ["ab", "ca", "abX", "aYX", "abX+2", "abXY-1", "aXb", "Xab", "none"] if tier == "quick" else list(VOC)
    for vs in itertools.product([n for n in names if n != "none"], names):
        for i, okind in enumerate(KINDS):
            for bi in (0, None):
                for src in ("union", "base") if tier == "quick" else ("union", "base", 1):
                    if src == 1 and VOC[vs[1]][0] is None:
                        continue
                    yield [list(vs), bi, src, okind, [None, 4, 1, 64][i % 4], "linear" if bi is None or i % 2 else "task_arithmetic", False, i == 3]


def gen_triples(tier):
    names = ["ab", "ca", "abX", "aYX", "bcXY", "abXY-1"] if tier == "quick" else [n for n in VOC if n not in ("abab", "ba", "Xab")]
    for vs in itertools.product([n for n in names if n != "none"], names, names):
        for j, (bi, src) in enumerate(((None, "union"), (0, "union"), (2, "union"), (1, "base"), (None, "base"), (0, 2))):
            if any(VOC[vs[k]][0] is None for k in (bi, src) if isinstance(k, int)):
                continue
            yield [list(vs), bi, src, "none", [None, None, 5][j % 3], "linear" if j % 2 == 0 or bi is None else "task_arithmetic", False, False]
    small = ["ca", "abX", "aYX", "none"] if tier == "quick" else names
    for vs in itertools.product([n for n in small if n != "none"], small, small):
        for i, okind in enumerate(KINDS):
            yield [list(vs), [None, 0, 1 if VOC[vs[1]][0] else 0][i % 3], ("union", "base")[i % 2], okind, None, "linear", False, False]


# --- piecewise assemblies -------------------------------------------------------
def gen_slices(tier):
    names = ["ab", "ca", "abX", "aYX", "abXY-1"]
    for vs in itertools.product(names, repeat=2):
        for bi in (None, 0, 1):
            for src in ("union", "base"):
                yield [list(vs), bi, src]
    for vs in itertools.product(names, repeat=2):
        for bi in (None, 0):
            yield [list(vs), bi, "single"]


def run_slices(case):
    vs, bi, src = case
    dirs, donors = setup_donors(vs, bi)
    base = donors[bi] if bi is not None else None
    if src == "single":
        # passthrough of one model with another's tokenizer
        return run_case([vs, bi, "union", "none", None, "passthrough", False, False]) if bi != 1 else None
    cfg = {"dtype": "float32", "merge_method": "passthrough", "tokenizer_source": src,
           "slices": [{"sources": [{"model": d, "layer_range": [0, 1]}]} for d in dirs]}
    if bi is not None:
        cfg["base_model"] = dirs[bi]
    out = scratch("o")
    try:
        ts, config, _ = e2e.merge(cfg, out, keep=True)
        got = check_output(case, out, ts, config, donors, base, src, {}, None, lambda ms, rows: rows[0],
                           {"model.embed_tokens.weight": [donors[0]], "lm_head.weight": [donors[-1]]})
    finally:
        drop(out)
    return Obs((case, tuple(sorted(got))), states=len(got), transitions=2 * len(got))


FAMILIES = [
    Family("pairs", gen_pairs, run_case, chunk=4, rule="all ordered pairs of 15 vocabularies x base model (first, second, none) x tokenizer setting, linear and task-vector merges, tied and untied"),
    Family("overrides", gen_over, run_case, chunk=4, rule="pairs of 8 (15) vocabularies x 8 kinds of token overrides x base x setting x padding"),
    Family("triples", gen_triples, run_case, chunk=4, rule="triples of 6 (12) vocabularies x base and tokenizer settings"),
    Family("slices", gen_slices, run_slices, chunk=4, rule="piecewise assembly of two models x base x setting; one model with a tokenizer setting"),
]
