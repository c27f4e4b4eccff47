"""P01: which source layers and models each output tensor is merged from."""
from __future__ import annotations

import itertools
import os

import torch
import transformers  # noqa: F401

from mc import archdefs, core, e2e, tiny
from mc.ckpt import compare
from mc.core import Family, Obs, Violation

LEVEL = "model_checking"
ASSUMPTIONS = [
    "every tensor holds distinct integers and the merge is an exact weighted sum, so the result identifies its sources",
    "whole merges through run_merge to disk; the output is read back with safetensors alone",
]

NL = {"a": 3, "b": 3, "c": 4}


def make_models(d):
    res = {}
    for tag, n in NL.items():
        res[tag] = tiny.make_llama(os.path.join(d, tag), tag, n, value=tiny.wide, cfg=dict(mc_tag=tag))
    return res


def models():
    return e2e.per_process("p01", make_models)


def layer_src(ts, l, suffix):
    return ts[f"model.layers.{l}.{suffix}"]


def expected(slices, T):
    """slices: [[(tag, lo, hi), ...]] -> tensors or None if it must be rejected"""
    W = [1.0, 2.0, 4.0]

    def comb(srcs, get):
        return sum(w * get(T[tag], lo) for w, (tag, lo, _hi) in zip(W, srcs))

    res = {}
    for srcs in slices:
        if len({hi - lo for _t, lo, hi in srcs}) != 1 or any(hi > NL[t] and hi > lo for t, lo, hi in srcs):
            return None
    res["model.embed_tokens.weight"] = comb(slices[0], lambda t, lo: t["model.embed_tokens.weight"])
    k = 0
    for srcs in slices:
        for i in range(srcs[0][2] - srcs[0][1]):
            for suffix, _s in tiny.LAYER:
                res[f"model.layers.{k}.{suffix}"] = comb(srcs, lambda t, lo: layer_src(t, lo + i, suffix))
            k += 1
    for nm in ("model.norm.weight", "lm_head.weight"):
        res[nm] = comb(slices[-1], lambda t, lo: t[nm])
    return res


def config(slices, style, root):
    W = [1.0, 2.0, 4.0]
    sl = [dict(sources=[dict(model=os.path.join(root, t), layer_range=[lo, hi], parameters=dict(weight=w)) for w, (t, lo, hi) in zip(W, srcs)])
          for srcs in slices]
    cfg = dict(merge_method="linear", parameters=dict(normalize=False))
    cfg.update(dict(slices=sl) if style == "slices" else dict(modules=dict(default=dict(slices=sl))))
    return cfg


def singles(empty):
    for t in "ab":
        for lo in range(0, 4):
            for hi in range(lo if empty else lo + 1, 4):
                yield [(t, lo, hi)]


def pairs(tags=("ab", "ba")):
    for x, y in tags:
        for n in range(1, 4):
            for i in range(0, 4 - n):
                for j in range(0, 4 - n):
                    yield [(x, i, i + n), (y, j, j + n)]


def gen_slices(tier):
    one = list(singles(True))
    two = list(pairs())
    for s in one + two:
        yield ["slices", [s]]
        yield ["modules", [s]]
    for s in itertools.product(list(singles(False)) + two, repeat=2):
        yield ["slices", list(s)]
    for s in itertools.product(list(singles(tier != "quick")), repeat=3):
        yield ["slices", list(s)]
    for s in itertools.product(list(pairs(("ab",)))[::2] + list(pairs(("ba",)))[1::2] if tier == "quick" else list(singles(False)) + two, repeat=3 if tier != "quick" else 2):
        yield ["modules", list(s)]
    for x in itertools.permutations("abc"):
        for n in (1, 2, 3):
            for off in itertools.product(range(0, 4 - n), repeat=3):
                yield ["slices", [[(t, o, o + n) for t, o in zip(x, off)], [(x[1], 0, 1)]]]


def run_slices(case):
    style, slices = case
    root, T = models()
    slices = [[tuple(s) for s in sl] for sl in slices]
    want = expected(slices, T)
    got, cfg = e2e.merge(config(slices, style, root))
    compare(got, want, str(case))
    n = sum(s[0][2] - s[0][1] for s in slices)
    if cfg["num_hidden_layers"] != n:
        raise Violation(f"{case}: config says {cfg['num_hidden_layers']} layers, the model has {n}")
    if cfg["hidden_size"] != 2 or cfg["vocab_size"] != 4 or cfg["architectures"] != ["LlamaForCausalLM"] or cfg.get("mc_tag") not in NL:
        raise Violation(f"{case}: config is not that of a source model: {cfg}")
    return Obs(case, states=len(got), transitions=n)


def gen_reject(tier):
    r = [(0, 1), (0, 2), (1, 3), (0, 3), (2, 4), (3, 4), (2, 5)]
    for x, y in itertools.product(r, repeat=2):
        yield [[("a", *x), ("b", *y)]]
        yield [[("a", 0, 1)], [("b", *x), ("a", *y)]]
        yield [[("a", *x)], [("c", *y)]]
    for x, y, z in itertools.product(r[:4], repeat=3):
        yield [[("a", *x), ("b", *y), ("c", *z)]]


def run_reject(case):
    """Unequal slices and layers a model does not have are errors, and no checkpoint is produced."""
    root, T = models()
    slices = [[tuple(s) for s in sl] for sl in case]
    want = expected(slices, T)
    out = core.scratch("o")
    try:
        try:
            got, cfg = e2e.merge(config(slices, "slices", root), out=out, keep=True)[:2]
        except Violation:
            raise
        except Exception:
            if want is not None:
                raise
            if os.path.exists(os.path.join(out, "model.safetensors")) or os.path.exists(os.path.join(out, "model.safetensors.index.json")):
                raise Violation(f"{case}: rejected, but a checkpoint is left behind")
            return Obs((case, "rejected"))
        if want is None:
            raise Violation(f"{case}: must be rejected, but produced {len(got)} tensors")
        compare(got, want, str(case))
        return Obs((case, "ok"), states=len(got))
    finally:
        core.drop(out)


# --- whole models and base models --------------------------------------------------------------
def gen_whole(tier):
    for style in ("models", "modules"):
        for k in (1, 2, 3):
            for ms in itertools.permutations(["a", "b", "d"], k):
                for base in (None, "a", "b", "d"):
                    for method in ("linear", "task_arithmetic"):
                        if method == "task_arithmetic" and base is None:
                            continue
                        for donor in ((), ("arch",)):
                            yield [style, list(ms), base, method, list(donor)]
    for style in ("models", "modules"):
        for k in (1, 2):
            for ms in itertools.permutations(["a", "b"], k):
                yield [style, list(ms), "d", "linear", ["noweight"]]
    for base in ("a", "b"):
        for ms in (["c"], ["c", base], ["a", "c"], ["c", "a"], ["b", "a", "c"]):
            yield ["models", ms, base, "linear", []]


def make_whole(d):
    res = {}
    for tag, n in dict(a=2, b=2, d=2, c=3).items():
        res[tag] = tiny.make_llama(os.path.join(d, tag), tag, n, value=tiny.wide, cfg=dict(mc_tag=tag))
    return res


def run_whole(case):
    style, ms, base, method, extra = case
    root, T = e2e.per_process("p01w", make_whole)
    W = [1.0, 2.0, 4.0]
    inputs = [dict(model=os.path.join(root, m), parameters=dict(weight=w)) for m, w in zip(ms, W)]
    noweight = "noweight" in extra  # the base model is there for other reasons (tokenizer, configuration)
    cfg = dict(merge_method=method, parameters=dict() if noweight else dict(weight=0.5))
    if method == "linear":
        cfg["parameters"]["normalize"] = False
    cfg.update(dict(models=inputs) if style == "models" else dict(modules=dict(default=dict(models=inputs))))
    if base:
        cfg["base_model"] = os.path.join(root, base)
    involved = set(ms) | ({base} if base else set())
    if len({3 if m == "c" else 2 for m in involved}) > 1:
        try:
            e2e.merge(cfg)
        except Violation:
            raise
        except Exception:
            return Obs((case, "rejected"))
        raise Violation(f"{case}: models of different depth are merged")
    w = dict(zip(ms, W))
    want = {}
    for nm in T["a"]:
        if method == "linear":
            if base and base not in w and not noweight:
                w = dict(w, **{base: 0.5})
            want[nm] = sum(w[m] * T[m][nm] for m in w)
        else:
            want[nm] = T[base][nm] + sum(w[m] * (T[m][nm] - T[base][nm]) for m in ms if m != base)
    got, c = e2e.merge(cfg)
    compare(got, want, str(case))
    if c.get("mc_tag") != (base or ms[0]) and not (base is None and c.get("mc_tag") in ms):
        raise Violation(f"{case}: config comes from {c.get('mc_tag')}")
    if c["num_hidden_layers"] != 2:
        raise Violation(f"{case}: config has {c['num_hidden_layers']} layers")
    return Obs(case, states=len(got))


def gen_slicebase(tier):
    for gb in (None, "a", "b", "d"):
        for s1 in (None, "a", "b"):
            for s2 in (None, "b", "d"):
                for src1, src2 in itertools.product([["a", "b"], ["b", "a", "d"], ["a", "d", "b"]], [["b", "d"], ["d", "a", "b"]]):
                    yield [gb, s1, s2, src1, src2]


def run_slicebase(case):
    """A slice's own base model takes precedence over the global one."""
    gb, s1, s2, src1, src2 = case
    root, T = e2e.per_process("p01w", make_whole)
    W = [1.0, 2.0, 4.0]
    sl = []
    for srcs, b, off in ((src1, s1, 0), (src2, s2, 1)):
        d = dict(sources=[dict(model=os.path.join(root, m), layer_range=[off, off + 1], parameters=dict(weight=w)) for m, w in zip(srcs, W)])
        if b:
            d["base_model"] = os.path.join(root, b)
        sl.append(d)
    cfg = dict(merge_method="task_arithmetic", slices=sl)
    if gb:
        cfg["base_model"] = os.path.join(root, gb)
    ok = (s1 or gb) in src1 and (s2 or gb) in src2
    if not ok:
        return Obs((case, "base not among the sources"), transitions=0)

    def ta(srcs, b, name):
        return T[b][name] + sum(w * (T[m][name] - T[b][name]) for m, w in zip(srcs, W) if m != b)

    want = {"model.embed_tokens.weight": ta(src1, s1 or gb, "model.embed_tokens.weight")}
    for l, (srcs, b) in enumerate(((src1, s1 or gb), (src2, s2 or gb))):
        for suf, _ in tiny.LAYER:
            want[f"model.layers.{l}.{suf}"] = ta(srcs, b, f"model.layers.{l}.{suf}")
    for nm in ("model.norm.weight", "lm_head.weight"):
        want[nm] = ta(src2, s2 or gb, nm)
    got, _c = e2e.merge(cfg)
    compare(got, want, str(case))
    return Obs(case, states=len(got))


# --- missing and optional tensors --------------------------------------------------------------
def gen_missing(tier):
    names = list(tiny.llama_shapes(2))
    for nm in names:
        for where in (["a"], ["b"], ["a", "b"], ["c"]):
            for layout in ("ab", "a", "b", "a_b", "models"):
                yield ["llama", nm, where, layout]


def run_missing(case):
    _arch, nm, where, layout = case
    root, T = e2e.per_process(f"p01m-{nm}-{''.join(where)}", lambda d: {
        t: tiny.make_llama(os.path.join(d, t), t, 2, value=tiny.wide, drop=[nm] if t in where else ()) for t in "ab"})
    m = {t: os.path.join(root, t) for t in "ab"}
    W = dict(a=1.0, b=2.0)

    def src(t, lo, hi):
        return dict(model=m[t], layer_range=[lo, hi], parameters=dict(weight=W[t]))

    cfg = dict(merge_method="linear", parameters=dict(normalize=False))
    use = {}  # output name -> list of (tag, source name)
    if layout == "models":
        cfg["models"] = [dict(model=m[t], parameters=dict(weight=W[t])) for t in "ab"]
        lay = [("ab", 0), ("ab", 1)]
    elif layout == "a_b":
        cfg["slices"] = [dict(sources=[src("a", 0, 1)]), dict(sources=[src("b", 1, 2)])]
        lay = [("a", 0), ("b", 1)]
    else:
        cfg["slices"] = [dict(sources=[src(t, 0, 2) for t in layout])]
        lay = [(layout, 0), (layout, 1)]
    use["model.embed_tokens.weight"] = [(t, "model.embed_tokens.weight") for t in lay[0][0]]
    for k, (ts, l) in enumerate(lay):
        for suf, _ in tiny.LAYER:
            use[f"model.layers.{k}.{suf}"] = [(t, f"model.layers.{l}.{suf}") for t in ts]
    for x in ("model.norm.weight", "lm_head.weight"):
        use[x] = [(t, x) for t in lay[-1][0]]
    want, fail = {}, False
    for o, srcs in use.items():
        have = [(t, s) for t, s in srcs if s in T[t]]
        if len(have) == len(srcs):
            want[o] = sum(W[t] * T[t][s] for t, s in srcs)
        elif o == "lm_head.weight":
            if have:  # a model without output weights uses its embeddings as such
                want[o] = sum(W[t] * T[t][s if s in T[t] else "model.embed_tokens.weight"] for t, s in srcs)
        else:
            fail = True
    out = core.scratch("o")
    try:
        try:
            got, _c = e2e.merge(cfg, out=out, keep=True)[:2]
        except Violation:
            raise
        except Exception:
            if not fail:
                raise
            if os.path.exists(os.path.join(out, "model.safetensors")):
                raise Violation(f"{case}: failed, but left a checkpoint")
            return Obs((case, "error"))
        if fail:
            raise Violation(f"{case}: a required tensor is missing, but the merge succeeded")
        compare(got, want, str(case))
        return Obs((case, sorted(got)), states=len(got))
    finally:
        core.drop(out)


# --- architectures with aliases, prefixes, several modules ---------------------------------------
BERT_CFG = dict(architectures=["BertModel"], model_type="bert", hidden_size=2, num_attention_heads=1, intermediate_size=3, vocab_size=4, type_vocab_size=2,
                max_position_embeddings=4)
T5_CFG = dict(architectures=["T5ForConditionalGeneration"], model_type="t5", d_model=2, d_kv=2, d_ff=3, num_heads=1, vocab_size=4)


def gen_alias(tier):
    pre, layers, post = archdefs.expand("", archdefs.load("bert"), 1)
    for w in pre + layers[0] + post:
        forms = ["name"] + [f"alias{i}" for i in range(len(w["aliases"]))] + ["absent", "both"]
        for fa, fb in itertools.product(forms, repeat=2):
            yield [w["name"], fa, fb]


def run_alias(case):
    """Tensors may be stored under an alias; the output uses the canonical name."""
    name, fa, fb = case
    pre, layers, post = archdefs.expand("", archdefs.load("bert"), 1)
    ws = pre + layers[0] + post
    root = core.scratch("m")
    try:
        want, fail = {}, False
        stored = {}
        for t, form in (("a", fa), ("b", fb)):
            ts = {}
            for w in ws:
                n = w["name"]
                dt = torch.int64 if w.get("force_dtype") == "int64" else torch.float32
                v = tiny.wide(t, n, (2, 2), dt)
                if n != name:
                    ts[n] = v
                    stored[t, n] = v
                    continue
                if form == "absent":
                    stored[t, n] = None
                else:
                    stored[t, n] = v
                    ts[n if form in ("name", "both") else w["aliases"][int(form[5:])]] = v
                    if form == "both" and w["aliases"]:
                        ts[w["aliases"][0]] = tiny.wide(t, "decoy", (2, 2), dt)
            tiny.write_model(os.path.join(root, t), dict(BERT_CFG, num_hidden_layers=1), ts)
        for w in ws:
            n = w["name"]
            have = [stored[t, n] for t in "ab" if stored[t, n] is not None]
            if len(have) < 2 and not w.get("optional"):
                fail = True
            elif have:
                want[n] = sum(x * k for x, k in zip([stored["a", n], stored["b", n]], (1, 2)) if x is not None)
        cfg = dict(merge_method="linear", parameters=dict(normalize=False),
                   models=[dict(model=os.path.join(root, t), parameters=dict(weight=float(k))) for t, k in (("a", 1), ("b", 2))])
        try:
            got, _c = e2e.merge(cfg)
        except Violation:
            raise
        except Exception:
            if not fail:
                raise
            return Obs((case, "error"))
        if fail:
            raise Violation(f"{case}: a required tensor is missing, but the merge succeeded")
        compare(got, want, str(case))
        return Obs((case, sorted(got)), states=len(got))
    finally:
        core.drop(root)


def make_t5(d):
    res = {}
    for t, enc, dec in (("a", 2, 2), ("b", 2, 2), ("c", 1, 2), ("d", 2, 2)):
        ts = {}
        for mod, prefix, a in archdefs.modules(archdefs.load("t5")):
            n = dict(encoder=enc, decoder=dec, shared=0)[mod]
            pre, layers, post = archdefs.expand(prefix, a, n)
            for w in pre + sum(layers, []) + post:
                if not w.get("optional") or ".block.0." in w["name"]:
                    ts[w["name"]] = tiny.wide(t, w["name"], (2, 2))
        tiny.write_model(os.path.join(d, t), dict(T5_CFG, num_layers=enc, num_decoder_layers=dec), ts)
        res[t] = ts
    return res


def gen_modules(tier):
    rngs = [(0, 1), (1, 2), (0, 2)]
    for e in [[r] for r in rngs] + [list(p) for p in itertools.product(rngs, repeat=2)]:
        for d in [[r] for r in rngs] + [list(p) for p in itertools.product(rngs, repeat=2)]:
            for tags in ("ab", "ba", "a", "b"):
                yield [tags, e, d, "slices"]
    for tags in ("ab", "ba", "a", "b"):
        for d in [[r] for r in rngs]:
            yield [tags, "models", d, "slices"]
        yield [tags, "models", "models", "slices"]
        yield [tags, "all", "all", "all"]
    for tags in ("ab", "a"):
        yield [tags, "topslices", [], ""]


def run_modules(case):
    tags, e, d, style = case
    root, T = e2e.per_process("p01t5", make_t5)
    W = dict(a=1.0, b=2.0)
    cfg = dict(merge_method="linear", parameters=dict(normalize=False))
    models = [dict(model=os.path.join(root, t), parameters=dict(weight=W[t])) for t in tags]

    def slices(rs):
        return [dict(sources=[dict(m, layer_range=list(r)) for m in models]) for r in rs]

    if e == "topslices":
        cfg["slices"] = slices([(0, 1)])
        try:
            e2e.merge(cfg)
        except Violation:
            raise
        except Exception:
            return Obs((case, "rejected"))
        raise Violation(f"{case}: plain slices accepted for a model with several modules")
    lay = dict(encoder=e, decoder=d)
    if style == "all":
        cfg["models"] = models
        lay = dict(encoder="models", decoder="models")
    else:
        cfg["modules"] = {k: (dict(models=models) if v == "models" else dict(slices=slices(v))) for k, v in lay.items()}
        cfg["modules"]["shared"] = dict(models=models)
    want = {}
    for mod, prefix, a in archdefs.modules(archdefs.load("t5")):
        v = lay.get(mod, "models")
        src = [l for r in ([(0, 2 if mod != "shared" else 0)] if v == "models" else v) for l in range(*r)]
        pre, outl, post = archdefs.expand(prefix, a, max(2, len(src)))
        for w in pre + post:
            if not w.get("optional"):
                want[w["name"]] = sum(W[t] * T[t][w["name"]] for t in tags)
        for k, l in enumerate(src):
            for i, w in enumerate(outl[k]):
                if outl[l][i]["name"] in T[tags[0]]:
                    want[w["name"]] = sum(W[t] * T[t][outl[l][i]["name"]] for t in tags)
        lay[mod] = src
    got, c = e2e.merge(cfg)
    compare(got, want, str(case))
    if (c["num_layers"], c["num_decoder_layers"]) != (len(lay["encoder"]), len(lay["decoder"])):
        raise Violation(f"{case}: config says {c['num_layers']} encoder and {c['num_decoder_layers']} decoder layers")
    return Obs(case, states=len(got))


def gen_modulebase(tier):
    lists = ["a", "b", "d", "ab", "ba", "bd", "ad"] + (["db", "da", "abd", "bda", "bad"] if tier != "quick" else [])
    for t in itertools.product(lists, repeat=3):
        yield list(t)


def run_modulebase(case):
    """Each module lists its own models; the base model a is part of every one of them, listed or not."""
    root, T = e2e.per_process("p01t5", make_t5)
    W = dict(a=8.0, b=1.0, d=2.0)
    mods = dict(zip(("encoder", "decoder", "shared"), case))
    cfg = dict(merge_method="task_arithmetic", base_model=os.path.join(root, "a"), parameters=dict(normalize=False),
               modules={k: dict(models=[dict(model=os.path.join(root, t), parameters=dict(weight=W[t])) for t in v]) for k, v in mods.items()})
    want = {}
    for mod, prefix, a in archdefs.modules(archdefs.load("t5")):
        pre, layers, post = archdefs.expand(prefix, a, 0 if mod == "shared" else 2)
        for w in pre + sum(layers, []) + post:
            n = w["name"]
            if n in T["a"]:
                want[n] = T["a"][n] + sum(W[t] * (T[t][n] - T["a"][n]) for t in mods[mod] if t != "a")
    got, _c = e2e.merge(cfg)
    compare(got, want, str(case))
    return Obs(case, states=len(got))


def gen_twice(tier):
    for r1, r2 in itertools.product([(0, 1), (1, 2), (0, 2), (1, 3)], repeat=2):
        if r1[1] - r1[0] == r2[1] - r2[0]:
            for third in ([], [("b", 0, r1[1] - r1[0])]):
                yield [[("a", *r1), ("a", *r2)] + third]


def run_twice(case):
    """One slice listing the same model twice (other layers or weights): merged as configured, or rejected."""
    root, T = models()
    slices = [[tuple(s) for s in sl] for sl in case]
    want = expected(slices, T)
    try:
        got, _c = e2e.merge(config(slices, "slices", root))
    except Violation:
        raise
    except Exception:
        return Obs((case, "rejected"))
    try:
        compare(got, want, str(case))
    except Violation as v:
        # the recorded defect: the first listing's weight with the last listing's layers, once
        W = [1.0, 2.0, 4.0]
        last = {t: (lo, hi) for t, lo, hi in slices[0]}
        wt = {}
        for w, (t, _lo, _hi) in zip(W, slices[0]):
            wt.setdefault(t, w)
        known = {nm: sum(wt[t] * T[t][nm] for t in last) for nm in ("model.embed_tokens.weight", "model.norm.weight", "lm_head.weight")}
        for k in range(slices[0][0][2] - slices[0][0][1]):
            for suffix, _s in tiny.LAYER:
                known[f"model.layers.{k}.{suffix}"] = sum(wt[t] * layer_src(T[t], last[t][0] + k, suffix) for t in last)
        compare(got, known, f"{case} (also unlike the recorded defect)")
        raise Violation("one slice lists the same model twice: only one of the two sources is used. " + v.msg, key="same-model-twice")
    return Obs(case)


FAMILIES = [
    Family("slices", gen_slices, run_slices, chunk=20, rule="1-3 output slices of 1-3 sources over all layer ranges of 3-layer models"),
    Family("rejected", gen_reject, run_reject, rule="all pairs/triples of ranges incl. unequal lengths and layers out of range"),
    Family("whole", gen_whole, run_whole, rule="all ordered sets of 1-3 models x base x style x method; unequal depths"),
    Family("slicebase", gen_slicebase, run_slicebase, rule="global and slice base models x source orders"),
    Family("missing", gen_missing, run_missing, rule="each tensor absent from any subset of two models x 5 layouts"),
    Family("aliases", gen_alias, run_alias, rule="each BERT tensor stored as name/alias/both/absent in each of two models"),
    Family("modules", gen_modules, run_modules, rule="encoder x decoder layer layouts of a two-module architecture"),
    Family("modulebase", gen_modulebase, run_modulebase, rule="each of three modules lists its own of 7 (12) lists of models, with or without the base model"),
    Family("twice", gen_twice, run_twice, rule="same model twice in a slice"),
]
