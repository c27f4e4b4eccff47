"""S07: the small command-line tools: exactly the merge their arguments describe."""
from __future__ import annotations

import itertools
import json
import os
import random
import runpy
import sys

import safetensors.torch
import torch
import transformers  # noqa: F401
import yaml
from click.testing import CliRunner

from mc import ckpt, e2e, tiny
from mc.ckpt import compare, read_dir, same
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch

LEVEL = "model_checking"
ASSUMPTIONS = [
    "tiny llama models of one to three layers; the merge methods themselves are the business of M01-M04",
    "the tools draw their random choices from Python's random module: every draw has every possible result, with its probability",
    "an embedding or output head source may or may not bring the final norm with it",
]
LAYERS = {"a": 3, "b": 3, "c": 3, "s": 2, "t": 2, "u": 1}
TRACE = {}


def make(d):
    T = {}
    for t, l in LAYERS.items():
        T[t] = tiny.make_llama(os.path.join(d, t), t, l)
        with open(os.path.join(d, t, "tokenizer_config.json"), "w") as f:
            json.dump({"from": t}, f)
    return T


def models():
    return e2e.per_process("s07", make)


def invoke(main, args):
    """-> the result of the command line; anything but a clean end is what `failed` says"""
    return CliRunner().invoke(main, [str(a) for a in args])


def failed(r):
    return None if r.exit_code == 0 else f"exit {r.exit_code}: {type(r.exception).__name__}: {str(r.exception)[:200]} {r.output[-200:]}"


def done(r, what):
    if r.exit_code:
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise Violation(f"{what}: {failed(r)}")
        raise Violation(f"{what}: {failed(r)}")


def layer(T, src, i):
    p = f"model.layers.{i}."
    return {k[len(p):]: v for k, v in T[src].items() if k.startswith(p)}


def stacked(T, layers, embed, norm, head, dtype=None, scale=None):
    """The model with these (source, layer[, scale of the down projection]) stacked."""
    res = {"model.embed_tokens.weight": T[embed]["model.embed_tokens.weight"]}
    for i, (src, l, *sc) in enumerate(layers):
        for k, v in layer(T, src, l).items():
            if sc and sc[0] is not None and "down_proj" in k:
                v = v * sc[0]
            res[f"model.layers.{i}.{k}"] = v
    res["model.norm.weight"] = T[norm]["model.norm.weight"]
    res["lm_head.weight"] = T[head]["lm_head.weight"]
    return {k: v.to(dtype or v.dtype) for k, v in res.items()}


# ---------------------------------------------------------------- bakllama
def gen_bakllama(tier):
    thorough = tier != "quick"
    one = [("a", 0, 1), ("a", 1, 3), ("a", 0, 3), ("s", 0, 2), ("u", 0, 1)]
    scales = (None, 0.5, 0.0, 2) if thorough else (None, 0.5, 0.0)
    srcs = (None, "a", "b", "u") if thorough else (None, "b")
    for n in (1, 2, 3) if thorough else (1, 2):
        for sl in itertools.product(one, repeat=n):
            for sc in itertools.product(scales, repeat=n):
                if n == 3 and (sc[0] != sc[2] or sl[0] == sl[1]):
                    continue
                for emb, head in itertools.product(srcs, repeat=2):
                    if n > 1 and not thorough and (sum(map(ord, "".join(x[0] for x in sl))) + len([x for x in sc if x]) + sl[0][2] + sl[1][2]) % 3 and (emb or head):
                        continue
                    yield [[list(x) + [y] for x, y in zip(sl, sc)], emb, head, (n + len(sc) + bool(emb)) % 2, bool(head)]


def run_bakllama(case):
    from mergekit.scripts.bakllama import main

    sl, emb, head, fp16, clone = case
    root, T = models()
    d = scratch("bak")
    try:
        doc = {"layer_slices": [dict(model=f"{root}/{m}", start=s, end=e, **({} if sc is None else {"scale": sc})) for m, s, e, sc in sl]}
        if emb:
            doc["embedding_source"] = f"{root}/{emb}"
        if head:
            doc["lm_head_source"] = f"{root}/{head}"
        with open(f"{d}/c.yml", "w") as f:
            yaml.safe_dump(doc, f)
        what = f"bakllama {json.dumps(doc).replace(root + '/', '')}"
        r = invoke(main, [f"{d}/c.yml", f"{d}/out"] + ["--fp16"] * fp16 + ["--clone-tensors"] * clone)
        done(r, what)
        got, cfg = e2e.read(f"{d}/out")
        ls = [(m, l, sc) for m, s, e, sc in sl for l in range(s, e)]
        if cfg["num_hidden_layers"] != len(ls):
            raise Violation(f"{what}: {cfg['num_hidden_layers']} layers in the configuration, {len(ls)} asked for")
        dt = torch.float16 if fp16 else torch.float32
        last = sl[-1][0]
        wants = [stacked(T, ls, emb or sl[0][0], norm, head or last, dt) for norm in ({last, head} if head else {last})]
        k = "model.norm.weight"
        if not any(k in got and same(got[k], w[k]) for w in wants):
            raise Violation(f"{what}: {k} is {ckpt.desc(got.get(k))}")
        compare(got, {**wants[0], k: got[k]}, what)
        return Obs(outcome=(len(ls), bool(emb), bool(head), fp16), states=len(got))
    finally:
        drop(d)


# ---------------------------------------------------------------- mergekit-layershuffle
class Draws:
    """Every module-level draw of `random`, answered from a script; records (options, probability)."""

    NAMES = ("random", "choice", "choices", "randrange", "randint", "shuffle", "sample", "uniform")
    GRID = 12

    def __init__(self, script):
        self.script = list(script)
        self.log = []

    def pick(self, probs):
        i = self.script[len(self.log)] if len(self.log) < len(self.script) else next(j for j, p in enumerate(probs) if p > 0)
        self.log.append([i, list(probs)])
        return i

    def even(self, n):
        if n <= 0:
            raise ValueError("empty range in randrange")
        return self.pick([1 / n] * n)

    def random(self):
        return (self.even(self.GRID) + 0.5) / self.GRID

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.even(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is not None:
            c = list(cum_weights)
            weights = [b - a for a, b in zip([0] + c, c)]
        if weights is None:
            weights = [1] * len(population)
        weights = list(weights)
        if len(weights) != len(population):
            raise ValueError("The number of weights does not match the population")
        if sum(weights) <= 0:
            raise ValueError("Total of weights must be greater than zero")
        return [population[self.pick([w / sum(weights) for w in weights])] for _ in range(k)]

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.even(len(r))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.even(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k, *, counts=None):
        pool = list(population)
        return [pool.pop(self.even(len(pool))) for _ in range(k)]

    def __enter__(self):
        self.saved = {n: getattr(random, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(random, n, getattr(self, n))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(random, n, f)


def explore(run, limit):
    """Every script of draws (depth first) -> [(result, probability)]"""
    stack, res = [[]], []
    while stack:
        script = stack.pop()
        with Draws(script) as dr:
            out = run()
        pr = 1.0
        for i, probs in dr.log:
            pr *= probs[i]
        res.append((out, pr))
        if len(res) > limit:
            raise HarnessError(f"more than {limit} ways")
        for at in range(len(script), len(dr.log)):
            i, probs = dr.log[at]
            stack += [[x[0] for x in dr.log[:at]] + [j] for j, p in enumerate(probs) if j > i and p > 0]
    return res


def slices_of(doc, root):
    """[(source, layer)] a configuration stacks"""
    if doc.get("merge_method") != "passthrough":
        raise Violation(f"the tool wrote the configuration {doc}")
    res = []
    for s in doc["slices"]:
        if len(s["sources"]) != 1:
            raise Violation(f"the tool wrote the configuration {doc}")
        x = s["sources"][0]
        m = x["model"] if isinstance(x["model"], str) else x["model"]["model"]["path"]
        res += [(os.path.relpath(m, root), l) for l in range(*x["layer_range"])]
        if x["layer_range"][1] <= x["layer_range"][0]:
            raise Violation(f"the tool wrote an empty slice: {doc}")
    return res


def gen_shuffle(tier):
    thorough = tier != "quick"
    lots = [("st", (1, 1)), ("st", (1, 3)), ("st", (0, 1)), ("st", (0.5, 0.25)), ("s", (1,)), ("s", (0.25,)), ("us", (1, 1)), ("st", None),
            ("ab", (2, 1)), ("abc", (1, 2, 3)), ("ab", None), ("stu", (1, 1)), ("a", None), ("st", (1, 1, 1))]
    if thorough:
        lots += [("abc", None), ("abc", (0, 1, 0)), ("ba", (1, 7)), ("aa", (1, 1))]
    for ms, w in lots:
        yield ["order", ms, w and list(w)]
    full = [("s", (1,)), ("s", (0.5,)), ("st", (0.5, 0.5)), ("st", (0, 1)), ("s", (1.5,)), ("a", (0.5,)), ("a", (0.67,)), ("ab", (0.34, 0.34)), ("ab", (1 / 3, 0.5)),
            ("as", (0.34, 0.5)), ("ua", (1, 0.34)), ("su", (0.5, 2)), ("st", None), ("s", (0,))]
    if thorough:
        full += [("a", (1,)), ("st", (1, 0.5)), ("abc", (0.34, 0.34, 0.34)), ("ab", (0.67, 0.34)), ("st", (1, 1))]
    for ms, w in full:
        yield ["full", ms, w and list(w)]
    for ms, w in (("st", (1, 1)), ("ab", (1, 1))) if thorough else (("st", (1, 1)),):
        for fp16, pr, wr, fr in itertools.product((0, 1), repeat=4):
            yield ["merge", ms, list(w), fp16, pr, wr, fr]


def args_of(root, ms, w):
    return sum((["-m", f"{root}/{m}"] for m in ms), []) + sum((["--weight", x] for x in w or ()), [])


def run_shuffle(case):
    from mergekit.scripts.layershuffle import main

    kind, ms, w, *rest = case
    root, T = models()
    d = scratch("ls")
    what = f"mergekit-layershuffle {kind} {ms} {w}"
    try:
        if kind == "merge":
            return run_shuffle_merge(case, root, T, d, main)

        def once():
            r = invoke(main, [f"{d}/out", *args_of(root, ms, w), "--dry-run", "--write-yaml", f"{d}/y.yml"] + ["--full-random"] * (kind == "full"))
            if os.path.exists(f"{d}/out"):
                raise Violation(f"{what}: a dry run wrote {os.listdir(f'{d}/out')}")
            if r.exit_code:
                return failed(r)
            with open(f"{d}/y.yml") as f:
                doc = yaml.safe_load(f)
            return tuple(slices_of(doc, root))

        res = explore(once, 60000)
        sure = sum(p for _, p in res)
        if abs(sure - 1) > 1e-9:
            raise HarnessError(f"{what}: probabilities add up to {sure}")
        bad = [x for x, _ in res if isinstance(x, str)]
        refusable = (w is not None and len(w) != len(ms)) or (kind == "full" and (w is None or not sum(int(LAYERS[m] * x) for m, x in zip(ms, w))))
        if refusable and len(bad) == len(res):
            return Obs(outcome="refused", execs=len(res))
        if refusable and not bad and kind == "full" and w is None:
            pass
        elif refusable:
            raise Violation(f"{what}: went ahead")
        if bad:
            raise Violation(f"{what}: {bad[0]}")
        n0 = LAYERS[ms[0]]
        if kind == "order":
            ws = w or [1] * len(ms)
            for x, _ in res:
                if [l for _, l in x] != list(range(n0)):
                    raise Violation(f"{what}: the stack is {x}, not one of layers 0-{n0 - 1} in order")
            uniq = {}
            for x, p in res:
                uniq[x] = uniq.get(x, 0) + p
            for combo in itertools.product(sorted(set(ms)), repeat=n0):
                want = 1.0
                for c in combo:
                    want *= sum(x for m, x in zip(ms, ws) if m == c) / sum(ws)
                got = uniq.get(tuple((c, i) for i, c in enumerate(combo)), 0.0)
                if abs(got - want) > 1e-9:
                    raise Violation(f"{what}: layers from {combo} come out with probability {got}, expected {want}")
        else:
            ws = w or [None] * len(ms)
            seen = {}
            for x, p in res:
                for m, k in zip(ms, ws):
                    n = len([1 for s, _ in x if s == m])
                    if k is not None and n != int(LAYERS[m] * k):
                        raise Violation(f"{what}: {n} layers of {m} in {x}, expected {int(LAYERS[m] * k)}")
                for s, l in x:
                    if s not in ms or not 0 <= l < LAYERS[s]:
                        raise Violation(f"{what}: layer {l} of {s} in {x}")
                    seen.setdefault(s, {}).setdefault(l, 0)
                    seen[s][l] += p
                for at, (s, _) in enumerate(x):
                    seen.setdefault(("at", at), {}).setdefault(s, 0)
                    seen[("at", at)][s] += p
            for s, counts in seen.items():
                if isinstance(s, tuple):  # any model may stand at any place
                    total = sum(counts.values())
                    n = {m: len([1 for y, _ in res[0][0] if y == m]) for m in ms}
                    for m in set(ms):
                        want = n[m] / sum(n.values())
                        if abs(counts.get(m, 0) / total - want) > 1e-9:
                            raise Violation(f"{what}: place {s[1]} is taken by {m} with probability {counts.get(m, 0) / total}, expected {want}")
                    continue
                total = sum(counts.values())
                for l in range(LAYERS[s]):
                    if abs(counts.get(l, 0) / total - 1 / LAYERS[s]) > 1e-9:
                        raise Violation(f"{what}: layer {l} of {s} is drawn with probability {counts.get(l, 0) / total}, expected {1 / LAYERS[s]}")
        return Obs(outcome=(kind, len({x for x, _ in res})), states=len({x for x, _ in res}), transitions=len(res), execs=len(res))
    finally:
        drop(d)


def run_shuffle_merge(case, root, T, d, main):
    _, ms, w, fp16, pr, wr, fr = case
    what = f"mergekit-layershuffle {ms} {w} fp16={fp16} print={pr} write={wr} full={fr}"
    wf = [0.5] * len(ms) if fr else w
    ways = []

    def once():
        k = len(ways)
        args = [f"{d}/out{k}", *args_of(root, ms, wf), "--no-copy-tokenizer"] + ["--fp16"] * fp16 + ["--print-yaml"] * pr + ["--write-yaml", f"{d}/y{k}"] * wr + ["--full-random"] * fr
        r = invoke(main, args)
        done(r, what)
        got, cfg = e2e.read(f"{d}/out{k}")
        docs = ([yaml.safe_load(r.output[r.output.index("dtype" if fp16 else "merge_method"):].split("\n\n")[0])] if pr else [])
        if wr:
            with open(f"{d}/y{k}") as f:
                docs.append(yaml.safe_load(f))
        if len(docs) == 2 and docs[0] != docs[1]:
            raise Violation(f"{what}: printed {docs[0]}, wrote {docs[1]}")
        # what was merged: recognised by the (distinct) tensors
        n = cfg["num_hidden_layers"]
        ls = []
        for i in range(n):
            mine = {k2[len(f"model.layers.{i}."):]: v for k2, v in got.items() if k2.startswith(f"model.layers.{i}.")}
            hit = [(m, l) for m in ms for l in range(LAYERS[m]) if all(same(mine.get(k2), v.to(torch.float16) if fp16 else v) for k2, v in layer(T, m, l).items())]
            if len(hit) != 1:
                raise Violation(f"{what}: layer {i} of the output is {hit or 'none'} of the input layers")
            ls.append(hit[0])
        compare(got, stacked(T, ls, ls[0][0], ls[-1][0], ls[-1][0], torch.float16 if fp16 else None), what)
        for doc in docs:
            if slices_of(doc, root) != ls:
                raise Violation(f"{what}: the configuration says {slices_of(doc, root)}, the merge has {ls}")
            if (doc.get("dtype") or "float32") != ("float16" if fp16 else "float32"):
                raise Violation(f"{what}: the configuration says dtype {doc.get('dtype')}")
        ways.append(tuple(ls))
        return tuple(ls)

    res = explore(once, 500)
    return Obs(outcome=len(set(ways)), states=len(set(ways)), execs=len(res))


# ---------------------------------------------------------------- mergekit-legacy
METHODS = ("ties", "linear", "task_arithmetic", "dare_ties", "slerp", "model_stock", "passthrough", "breadcrumbs")


def gen_legacy(tier):
    thorough = tier != "quick"
    for method in METHODS:
        for ms, base in (("a", None), ("ab", None), ("ab", "c"), ("abc", "c"), ("bac", "b"), ("ac", "a"), ("a", "c")):
            n = len(ms)
            extra = bool(base and base not in ms)
            wts = [(), (0.5,), (1.0, 0.25, 0.5, 2.0)[:n], (1.0, 0.25, 0.5, 2.0)[: n + 1]]
            dens = [(), (0.5,), (1.0, 0.4, 0.7, 0.2)[:n]]
            for w, dn in itertools.product(dict.fromkeys(wts), dict.fromkeys(dens)):
                for norm, int8, bf16, naive in itertools.product((None, True, False), (0, 1), (0, 1), (0, 1)):
                    if not thorough:
                        if naive and (method != "ties" or int8):
                            continue
                        if (len(w) + len(dn) * 2 + int8 + 2 * bf16 + METHODS.index(method) + n) % 4 and (norm is not None or int8 or bf16):
                            continue
                    yield [method, ms, base, list(w), list(dn), norm, int8, bf16, naive, (len(w) + n) % 2, extra]


def legacy_want(method, ms, base, w, dn, norm, int8, bf16, root):
    """The configuration the arguments describe (None: they cannot be meant)."""
    names = list(ms) + ([base] if base and base not in ms else [])
    if len(dn) > len(names) or (method != "slerp" and len(w) > len(names)) or (method == "slerp" and len(w) != 1):
        return None
    dn = dn * len(names) if len(dn) == 1 else dn
    entries = [{"model": f"{root}/{m}", "parameters": {}} for m in names]
    for e, x in zip(entries, dn):
        e["parameters"]["density"] = x
    glob = {"normalize": norm is not False}
    if method == "slerp":
        glob["t"] = w[0]
    else:
        w = w or [1.0]
        w = w * len(names) if len(w) == 1 else w
        for e, x in zip(entries, w):
            e["parameters"]["weight"] = x
    if int8:
        glob["int8_mask"] = True
    cfg = {"merge_method": method, "models": entries, "parameters": glob}
    if base:
        cfg["base_model"] = f"{root}/{base}"
    if bf16:
        cfg["dtype"] = "bfloat16"
    return cfg


def ties_count(T, names, base, w, dn, norm, bf16):
    """TIES with a majority vote of signs instead of weights, in double precision."""
    dt = torch.bfloat16 if bf16 else torch.float32
    tasks = [(m, x, y) for m, x, y in zip(names, w, dn) if m != base]
    res = {}
    for k, b in T[base].items():
        b = b.to(dt)
        ds = []
        for m, x, y in tasks:
            dlt = (T[m][k].to(dt) - b)
            n = dlt.numel()
            keep = int(n * y)
            if y < 1:
                idx = dlt.abs().reshape(-1).sort(descending=True).values
                if keep < n and keep and idx[keep - 1] == idx[keep]:
                    return None  # which of equals to keep is not specified
                mask = torch.zeros(n)
                mask[torch.argsort(dlt.abs().reshape(-1), descending=True)[:keep]] = 1
                dlt = (dlt.reshape(-1) * mask.to(dt)).reshape(dlt.shape)
            ds.append(dlt.double())
        D = torch.stack(ds)
        W = torch.tensor([x for _, x, _ in tasks], dtype=torch.float64).reshape([-1] + [1] * b.dim())
        sg = torch.sign(D * W)
        s = sg.sum(0)
        maj = torch.where(s >= 0, 1.0, -1.0)
        agree = (sg == maj).double()
        tot = (D * W * agree).sum(0)
        if norm is not False:
            div = (W * agree).sum(0)
            div = torch.where(div.abs() < 1e-8, 1.0, div)
            tot = tot / div
        res[k] = b.double() + tot
    return res


def run_legacy(case):
    from mergekit.scripts.legacy import main

    method, ms, base, w, dn, norm, int8, bf16, naive, pr, _ = case
    root, T = models()
    d = scratch("leg")
    what = f"mergekit-legacy {method} {ms} base={base} weight={w} density={dn} normalize={norm} int8={int8} bf16={bf16} naive={naive}"
    try:
        args = [f"{d}/out", *sum((["--merge", f"{root}/{m}"] for m in ms), []), "--no-copy-tokenizer"]
        if method != "ties" or pr:
            args += ["--method", method]
        args += sum((["--weight", x] for x in w), []) + sum((["--density", x] for x in dn), [])
        args += ["--base-model", f"{root}/{base}"] if base else []
        args += {None: [], True: ["--normalize"], False: ["--no-normalize"]}[norm]
        args += ["--int8-mask"] * int8 + ["--bf16"] * bf16 + ["--naive-count"] * naive + ["--print-yaml"] * pr
        torch.manual_seed(0)
        r = invoke(main, args)
        cfg = legacy_want(method, ms, base, w, dn, norm, int8, bf16, root)
        names = list(ms) + ([base] if base and base not in ms else [])
        if cfg is None:
            if not r.exit_code:
                raise Violation(f"{what}: went ahead")
            return Obs(outcome="refused")
        if naive and r.exit_code:
            if os.path.exists(f"{d}/out/model.safetensors"):
                raise Violation(f"{what}: ended with an error and left a model")
            if "consensus_method" not in str(r.exception):
                raise Violation(f"{what}: {failed(r)}")
            raise Violation(f"{what}: {failed(r)}", key="legacy-naive-count")
        try:
            torch.manual_seed(0)
            want, wcfg = e2e.merge(json.loads(json.dumps(cfg)))
        except Exception as e:
            if not r.exit_code:
                raise Violation(f"{what}: went ahead, but the merge it describes ends with {type(e).__name__}: {str(e)[:200]}")
            if os.path.exists(f"{d}/out/model.safetensors"):
                raise Violation(f"{what}: ended with an error and left a model")
            return Obs(outcome=("refused", type(e).__name__))
        if r.exit_code:
            raise Violation(f"{what}: {failed(r)}")
        got, gcfg = e2e.read(f"{d}/out")
        if {k: v for k, v in gcfg.items() if k != "_name_or_path"} != {k: v for k, v in wcfg.items() if k != "_name_or_path"}:
            raise Violation(f"{what}: configuration {gcfg}, expected {wcfg}")
        if naive and method == "ties":
            ww = (w * len(names) if len(w) == 1 else w) or [1.0] * len(names)
            dd = (dn * len(names) if len(dn) == 1 else dn) or [1.0] * len(names)
            dd = (dd + [1.0] * len(names))[: len(names)]
            ref = ties_count(T, names, base, ww, dd, norm, bf16)
            if ref is None:
                return Obs(outcome="open")
            tol = 2e-2 if bf16 else 1e-5
            for k, v in ref.items():
                if k not in got or ((got[k].double() - v).abs() > tol * (1 + v.abs())).any():
                    raise Violation(f"{what}: {k} is {ckpt.desc(got.get(k))}, expected {ckpt.desc(v)}")
        else:
            compare(got, want, what)
        if pr:
            doc = yaml.safe_load(r.output[min(r.output.index(x) for x in ("base_model:", "dtype:", "merge_method:") if x in r.output):].split("\n\n")[0])
            torch.manual_seed(0)
            again, _ = e2e.merge(doc)
            compare(again, got, f"{what}: merging the printed configuration")
        return Obs(outcome=(method, len(names), bool(naive), ckpt.desc(got["model.norm.weight"])[:60]), states=2 + pr)
    finally:
        drop(d)


# ---------------------------------------------------------------- fill_missing_params
def gen_fill(tier):
    thorough = tier != "quick"
    for prefix in ("", "language_model", "text"):
        for cover in ("all", "some", "extra", "shape") if prefix or thorough else ("some", "extra", "shape"):
            for bfmt, sfmt in itertools.product(("one", "shards", "bin"), repeat=2):
                for size, out in itertools.product((None, 60, 1), (0, 1)):
                    if not thorough and out and size:
                        continue
                    yield ["fill", prefix, cover, bfmt, sfmt, size, out]
    for order in (0, 1):
        yield ["two", order]
    yield ["script"]
    yield ["few"]


def save(d, ts, fmt, extra=True):
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/config.json", "w") as f:
        json.dump({"of": os.path.basename(d)}, f)
    names = list(ts)
    if fmt == "bin":
        torch.save(ts, f"{d}/pytorch_model.bin")
    elif fmt == "one":
        safetensors.torch.save_file(ts, f"{d}/model.safetensors", metadata={"format": "pt"})
    else:
        h = len(names) // 2
        wm = {}
        for i, part in enumerate((names[:h], names[h:])):
            fn = f"model-{i + 1:05d}-of-00002.safetensors"
            safetensors.torch.save_file({k: ts[k] for k in part}, f"{d}/{fn}", metadata={"format": "pt"})
            wm.update({k: fn for k in part})
        with open(f"{d}/model.safetensors.index.json", "w") as f:
            json.dump({"metadata": {}, "weight_map": wm}, f)


def tree(d):
    res = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as g:
                res[os.path.relpath(os.path.join(r, f), d)] = g.read()
    return res


def run_fill(case):
    from mergekit.scripts.fill_missing_params import main

    d = scratch("fill")
    try:
        if case[0] == "two":
            return run_fill_two(case, d, main)
        _, prefix, cover, bfmt, sfmt, size, out = case if case[0] == "fill" else ("fill", "text", "some" if case[0] == "script" else "few", "one", "one", None, 1)
        p = f"{prefix}." if prefix else ""
        inner = {"embed.weight": (3, 2), "layers.0.w": (2, 2), "layers.1.w": (2, 2), "norm.weight": (2,), **({f"{prefix}.proj": (2,)} if prefix else {})}
        base = {f"{p}{k}": tiny.wide("base", k, s) for k, s in inner.items()}
        base.update({f"vision.{k}": tiny.wide("vision", k, (2, 2)) for k in ("patch.w", "proj.w")})
        base["scale"] = tiny.wide("b", "scale", (1,))
        part = {"all": list(inner), "some": ["layers.1.w", "norm.weight"], "extra": ["layers.0.w", "layers.1.w", "norm.weight"], "shape": list(inner), "few": list(inner)}[cover]
        sub = {k: tiny.wide("sub", k, (4, 2) if cover == "shape" and k == "embed.weight" else inner[k], torch.float16 if cover == "some" else torch.float32) for k in part}
        if cover == "extra":
            sub["other.weight"] = tiny.wide("sub", "other", (2,))
        if cover == "few":
            base = {k: v for k, v in list(base.items())[:3]}
        save(f"{d}/base", base, bfmt)
        save(f"{d}/sub", sub, sfmt)
        os.makedirs(f"{d}/base/onnx", exist_ok=True)
        for fn in ("tokenizer.json", "preprocessor_config.json", "onnx/notes.txt"):
            with open(f"{d}/base/{fn}", "w") as f:
                f.write(fn)
        before = tree(f"{d}/base"), tree(f"{d}/sub")
        args = [f"{d}/base", f"{d}/sub"] + (["--max_shard_size", size] if size else []) + (["--output_dir", f"{d}/o/ut"] if out else [])
        what = f"fill_missing_params {case}"
        if case[0] == "script":
            import mergekit.scripts.fill_missing_params as me

            argv, sys.argv = sys.argv, ["fill", *map(str, args)]
            try:
                runpy.run_path(me.__file__, run_name="__main__")
            except SystemExit as e:
                if e.code:
                    raise Violation(f"{what}: exit {e.code}")
            finally:
                sys.argv = argv
        else:
            r = invoke(main, args)
            if cover == "few":
                if not r.exit_code:
                    raise Violation(f"{what}: went ahead with a base model smaller than the submodel")
                return Obs(outcome="refused")
            done(r, what)
        if (tree(f"{d}/base"), tree(f"{d}/sub")) != before:
            raise Violation(f"{what}: the inputs changed")
        o = f"{d}/o/ut" if out else f"{d}/base--sub"
        got, info = read_dir(o, "model", "safetensors")
        if got is None:
            raise Violation(f"{what}: no model in {sorted(os.listdir(o)) if os.path.exists(o) else None}")
        want = {k: sub.get(k[len(p):], v) if k.startswith(p) else v for k, v in base.items()}
        compare(got, want, what)
        have = tree(o)
        weights = {k for k in have if k.endswith((".safetensors", ".bin"))}
        if info["index"] is None and any(k.endswith(".index.json") for k in have):
            raise Violation(f"{what}: a model in one file with {sorted(k for k in have if k.endswith('.index.json'))}")
        if weights - set(info["files"]):
            raise Violation(f"{what}: files {sorted(weights - set(info['files']))} that belong to nothing")
        for k, v in before[0].items():
            if not k.endswith((".safetensors", ".bin", ".index.json")) and have.get(k) != v:
                raise Violation(f"{what}: {k} is {have.get(k)}")
        return Obs(outcome=(prefix, cover, len(info["files"])), states=len(got))
    finally:
        drop(d)


def run_fill_two(case, d, main):
    """Two parts of the base model match equally well: one rule decides, not chance."""
    pairs = [("aa", "bb"), ("left", "right"), ("text", "vision"), ("m1", "m2"), ("up", "down"), ("x", "y"), ("enc", "dec"), ("one", "two"), ("p", "q"), ("en", "de")]
    rules = {"first": 1, "last": 1, "low": 1, "high": 1}
    for i, (x, y) in enumerate(pairs):
        if case[1]:
            x, y = y, x
        base = {f"{q}.w": tiny.wide(q, "w", (2,)) for q in (x, y)}
        base["z"] = tiny.wide("z", "z", (1,))
        sub = {"w": tiny.wide("sub", "w", (2,))}
        save(f"{d}/b{i}", base, "shards")
        save(f"{d}/s{i}", sub, "one")
        r = invoke(main, [f"{d}/b{i}", f"{d}/s{i}", "--output_dir", f"{d}/o{i}"])
        done(r, f"fill_missing_params with parts {x} and {y}")
        got, _ = read_dir(f"{d}/o{i}", "model", "safetensors")
        hit = [q for q in (x, y) if same(got[f"{q}.w"], sub["w"])]
        if len(hit) != 1 or any(not same(got[f"{q}.w"], base[f"{q}.w"]) for q in (x, y) if q not in hit):
            raise Violation(f"fill_missing_params with parts {x} and {y}: put into {hit}")
        ok = {"first": x, "last": y, "low": min(x, y), "high": max(x, y)}
        for k in rules:
            rules[k] = rules[k] and hit[0] == ok[k]
    if not any(rules.values()):
        raise Violation("fill_missing_params: which of two equally matching parts is filled follows no rule (it depends on the hashing of strings)")
    return Obs(outcome=str(rules), states=len(pairs))


FAMILIES = [
    Family("bakllama", gen_bakllama, run_bakllama, rule="one to three slices of models of different depth x scale x embedding source x output head source x half precision: every tensor and the layer count"),
    Family("shuffle", gen_shuffle, run_shuffle, rule="every result of every random draw: the stacks that can come out and their exact probabilities; the merge, the printed and the written configuration agree", timeout=600, chunk=1),
    Family("legacy", gen_legacy, run_legacy, rule="method x models x base model x weights x densities x normalisation x masks x precision x sign counting: equal to the hand-written configuration; the printed one merges to the same"),
    Family("fill", gen_fill, run_fill, rule="prefix x overlap x formats x shard size: shared parameters from the submodel, all else from the base model, inputs untouched"),
]
