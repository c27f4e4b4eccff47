"""V02: evolutionary search: every genotype gets the score of its own merge, whatever the schedule, and failures surface."""
from __future__ import annotations

import contextlib
import io
import itertools
import json
import logging
import os
import types

import numpy as np
import torch
import transformers

from mc import core, crash, fakeray

crash.ensure_preloaded()
fakeray.install()

import safetensors.torch
import yaml

from mc import ckpt, e2e, hfmodels, tiny, toks
from mc.props.s03 import hush
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.common import ModelReference
from mergekit.evo import actors, helpers, strategy
from mergekit.evo.config import EvolMergeConfiguration
from mergekit.evo.genome import ModelGenome
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.scripts import evolve

LEVEL = "model_checking"
ASSUMPTIONS = [
    "ray, lm_eval and cma are not installed: simulated (mc/fakeray.py); a remote call runs atomically once the explorer lets it, in every order",
    "strategies: merges are stood in for by a note of the configuration asked for; in-memory evaluation and the command line merge tiny models for real",
    "the evaluation harness scores what it is given as the stand-in says; vLLM is not covered",
    "the optimiser is replaced by a given sequence of populations",
]
L = 2


def make_models(d):
    return {t: tiny.make_llama(os.path.join(d, t), t, L, value=tiny.wide) for t in "abcd"}


def models():
    return e2e.per_process("v02", make_models)


TASKS = [dict(name="t1"), dict(name="t2", weight=-2.0, metric="ppl"), dict(name="t1", weight=0.5, metric="f1")]


class Failure(Exception):
    """Raised by the stand-ins."""


# ---------------------------------------------------------------- strategies
def setting(root, n=0):
    """Configuration with options that have to reach the evaluation."""
    cfg = EvolMergeConfiguration.model_validate(dict(
        genome=dict(models=[f"{root}/a", f"{root}/b"], merge_method="linear"), tasks=TASKS,
        limit=[None, 7][n % 2], num_fewshot=[3, None][n % 2], apply_chat_template=bool(n % 2), fewshot_as_multiturn=not n % 2))
    return cfg, ModelGenome(cfg.genome)


def genotype(i):
    return np.array([0.25 * i, 1.0 + i])


def values(i):
    """What the evaluation of genotype i measures."""
    return {"t1": {"acc,none": 10.0 * i + 1, "f1": 0.25 * i, "other": None}, "t2": {"ppl": 2.0 ** i}}


def total(i):
    v = values(i)
    return v["t1"]["acc,none"] - 2 * v["t2"]["ppl"] + 0.5 * v["t1"]["f1"]


class Stage:
    """What the stand-ins for merging and evaluation have seen."""

    def __init__(self, store, fail, ids):
        self.store, self.fail, self.ids = store, fail, ids
        self.merged, self.evaluated, self.left = [], [], 0
        self.most = 0
        self.seen = []

    def merge(self, cfg, out_path, options):
        src = cfg.slices[0].sources
        w = [s.parameters["weight"] for s in src]
        i = next((k for k in set(self.ids) if w == list(genotype(k))), None)
        if i is None:
            raise HarnessError(f"unknown merge {w}")
        if os.path.realpath(os.path.dirname(out_path)) != os.path.realpath(self.store) or os.listdir(out_path):
            raise Violation(f"merging into {out_path}")
        if ("merge", i) in self.fail:
            raise Failure(f"merge {i}")
        if ("connection", i) in self.fail:
            self.fail = self.fail - {("connection", i)}
            raise ConnectionError("once")
        with open(os.path.join(out_path, "note"), "w") as f:
            f.write(str(i))
        self.merged.append(i)
        self.most = max(self.most, len(os.listdir(self.store)))

    def score(self, model, args, tasks, kw):
        with open(os.path.join(args["pretrained"], "note")) as f:
            i = int(f.read())
        self.evaluated.append(i)
        self.seen.append((model, {k: v for k, v in args.items() if k != "pretrained"}, sorted(tasks), kw))
        if ("eval", i) in self.fail:
            raise Failure(f"eval {i}")
        return values(i)


STRATS = {"pool": strategy.ActorPoolEvaluationStrategy, "buffered": strategy.BufferedRayEvaluationStrategy, "serial": strategy.SerialEvaluationStrategy}


class NoGC:
    collect = staticmethod(lambda *a: 0)


@contextlib.contextmanager
def stage(st):
    saved = helpers.run_merge, fakeray.SCORE, actors.gc
    helpers.run_merge, fakeray.SCORE, actors.gc = st.merge, st.score, NoGC  # collecting garbage takes most of the time
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        helpers.run_merge, fakeray.SCORE, actors.gc = saved
        logging.disable(logging.NOTSET)


def gen_strategy(tier):
    quick = tier == "quick"
    for name in STRATS:
        for gpus in (1, 2, 3):
            for gens in ([[0]], [[0, 1]], [[1, 0], [2]], [[0, 1, 2]], [[0, 0]], [[2], [1], [0]], [[0, 1, 2, 3]], [[0, 1], [2, 3]]):
                n = sum(map(len, gens))
                if n > 3 and (gpus > 2 or name == "serial" or quick and name == "buffered" and gpus > 1):
                    continue
                if name == "serial" and gpus == 3:
                    continue  # asks ray for what it needs, whatever there is
                ids = sorted({i for g in gens for i in g})
                for fail in [[]] + [[k, i] for k in ("merge", "eval", "shape", "connection") for i in ids]:
                    if fail and n > 3:
                        continue
                    if fail and (fail[0] == "connection" and name == "pool" or fail[0] == "shape" and len(gens) > 1):
                        continue
                    yield [name, gpus, gens, fail]


def run_strategy(case):
    name, gpus, gens, fail = case
    root, _T = models()
    d = scratch("s")
    ids = [i for g in gens for i in g]
    results = []

    def once():
        store = os.path.join(d, "merged")
        if os.path.isdir(store):
            drop(store)
        st = Stage(store, {tuple(fail)} if fail else set(), ids)
        cfg, genome = setting(root, gpus)
        quant = object() if gpus == 2 else None
        with stage(st):
            try:
                s = STRATS[name](cfg, genome, MergeOptions(quiet=True), num_gpus=gpus, batch_size=gpus, model_storage_path=store, task_search_path="somewhere",
                                 quantization_config=quant)
                out = []
                for k, g in enumerate(gens):
                    xs = [genotype(i) if fail != ["shape", i] else np.zeros((2, 2, 2)) for i in g]
                    if len(gens) == 3:
                        out.append([s.evaluate_genotype(xs[0])])
                    else:
                        out.append(list(s.evaluate_genotypes(xs)))
                r = ("ok", out)
            except fakeray.Hang as e:
                r = ("hang", str(e))
            except Failure as e:
                r = ("failed", str(e))
            w = fakeray.W
            if r[0] != "hang":
                while w.step(tick=False):  # whatever is still to come
                    pass
        return r, st, sorted(os.listdir(store)) if os.path.isdir(store) else [], s.task_manager if r[0] != "hang" else None, quant, w.groups

    seen = 0
    try:
        for (r, st, left, tm, quant, groups), choices in fakeray.explore(once):
            seen += 1
            where = f"{case}, schedule {choices}"
            if r[0] == "hang":
                raise Violation(f"{where}: the search hangs: {r[1]}", key=f"hang {name} {fail[:1]}")
            if name == "serial" and groups:
                raise Violation(f"{where}: {groups} placement groups are never given back")
            if fail and fail[0] in ("merge", "eval"):
                if left:
                    raise Violation(f"{where}: left on disk: {left}")
                if r[0] != "failed":
                    raise Violation(f"{where}: {fail} went unnoticed: {r[1]}")
                continue
            if r[0] != "ok":
                raise Violation(f"{where}: {r}")
            for g, out in zip(gens, r[1]):
                want = [{"score": total(i), "results": values(i)} if fail != ["shape", i] else {"score": None, "results": None} for i in g]
                if out != want:
                    raise Violation(f"{where}: {out} for genotypes {g}, expected {want}")
            todo = sorted(i for i in ids if fail != ["shape", i])
            if sorted(st.merged) != todo or sorted(st.evaluated) != todo:
                raise Violation(f"{where}: merged {st.merged}, evaluated {st.evaluated}")
            if left:
                raise Violation(f"{where}: left on disk: {left}")
            if name != "serial" and st.most > gpus * (2 if name == "buffered" else 1):
                raise Violation(f"{where}: {st.most} merged models at once for {gpus} GPUs")
            cfg, _g = setting(root, gpus)
            for model, args, tasks, kw in st.seen:
                want = dict(num_fewshot=cfg.num_fewshot, limit=cfg.limit, apply_chat_template=cfg.apply_chat_template, fewshot_as_multiturn=cfg.fewshot_as_multiturn,
                            batch_size=gpus, task_manager=tm)
                if kw != want or tm.include_path != "somewhere":
                    raise Violation(f"{where}: evaluated with {kw}, expected {want}")
                if model not in ("huggingface", "hf") or args.get("dtype") != "bfloat16" or args.get("quantization_config") is not quant:
                    raise Violation(f"{where}: evaluated as {model} {args}")
                if tasks != ["t1", "t2"]:
                    raise Violation(f"{where}: evaluated on {tasks}")
    finally:
        drop(d)
    return Obs((case, seen), execs=seen, states=seen)


# ---------------------------------------------------------------- in memory
def causal():
    """Causal language models among the architectures: [(key, class, configuration class, base, axes)]"""
    res = []
    for key, vs in list(hfmodels.MODELS.items()) + list(hfmodels.INFERRED.items()):
        for arch, cls, base, axes in vs:
            if type(hfmodels.config(cls, base, {})) in transformers.MODEL_FOR_CAUSAL_LM_MAPPING and (arch.endswith("ForCausalLM") or arch == "GPT2LMHeadModel"):
                res.append((key, arch, cls, base, axes))
    return res


UNSUPPORTED = {"(afmoe)": "Unknown parameter"}  # stored in another layout than the model has in memory: refused


def gen_inmem(tier):
    quick = tier == "quick"
    for key, arch, cls, base, axes in causal():
        axes = {k: v for k, v in axes.items() if not quick or k == "tie_word_embeddings"}
        for s in list(hfmodels.settings(axes))[:1 if key in UNSUPPORTED else None]:
            yield ["arch", key, arch, s, "task_arithmetic", "c", 0, [1, 2], 0]
    seqs = [q for n in (1, 2, 3) for q in itertools.product(range(3), repeat=n) if n < 3 or not quick or q in ((0, 1, 0), (1, 0, 2), (2, 2, 1), (0, 0, 1))]
    for method, b in (("linear", None), ("linear", "c"), ("slerp", None), ("slerp", "c"), ("ties", "c"), ("task_arithmetic", "a"), ("task_arithmetic", "c")):
        for gran in (0, 1):
            for tied in (False, True):
                for mixed in (0, 1, 2):
                    for q in seqs:
                        if quick and (len(q) != 2 and (gran or mixed == 1) or mixed and gran):
                            continue
                        yield ["seq", "llama", "LlamaForCausalLM", {"tie_word_embeddings": tied}, method, b, gran, list(q), mixed]


_built = {}


def hf_models(key, arch, setting, mixed):
    """Directories a, b, c of models of one architecture; mixed: their configurations differ."""
    k = (os.getpid(), key, arch, json.dumps(setting, sort_keys=True), mixed)
    if k not in _built:
        d = scratch("hf")
        _k, _a, cls, base, _x = next(c for c in causal() if c[:2] == (key, arch))
        for i, t in enumerate("abc"):
            m = hfmodels.build(arch, hfmodels.config(cls, base, dict(setting, **[{}, {"eos_token_id": 3 + i}, {"rope_parameters": {"rope_type": "default", "rope_theta": 10.0 * (i + 1)}}][mixed])), i)
            m.save_pretrained(f"{d}/{t}")
        _built[k] = d
    return _built[k]


def state(m):
    """All a model computes with, and what it computes."""
    res = {n: p.detach().clone() for n, p in list(m.state_dict().items()) + list(m.named_buffers()) if "embed_positions" not in n}
    try:
        with torch.no_grad():
            res["(logits)"] = m(torch.arange(1, 9)[None]).logits.clone()
    except (RuntimeError, ValueError):
        pass  # not for models this small
    return res


_disk = {}


def run_inmem(case):
    """A sequence of genotypes in one evaluator: at each the model is the one that merging to disk and loading gives."""
    _what, key, arch, setting, method, b, gran, seq, mixed = case
    d = hf_models(key, arch, setting, mixed)
    cfg = EvolMergeConfiguration.model_validate(dict(genome=dict(models=[f"{d}/a", f"{d}/b"], merge_method=method, base_model=b and f"{d}/{b}", layer_granularity=gran),
                                                     tasks=TASKS, num_fewshot=1, limit=5))
    genome = ModelGenome(cfg.genome)
    got = []

    def score(model, args, tasks, kw):
        got.append((state(model.model), model.model.config, kw))
        return values(len(got))

    saved = fakeray.SCORE
    fakeray.SCORE = score
    logging.disable(logging.CRITICAL)
    tm = object()
    try:
        ev = actors.InMemoryMergeEvaluator.cls(cfg, genome, MergeOptions(quiet=True), model_storage_path="/nonexistent/v02", batch_size=2, task_manager=tm)
        for n, i in enumerate(seq):
            x = genome.initial_genotype()
            x = x + torch.arange(x.numel()).view(x.shape) * [0.0, 0.25, -0.125][i]
            try:
                r = ev.evaluate_genotype(x)
            except ValueError as e:
                if key in UNSUPPORTED and UNSUPPORTED[key] in str(e):
                    return Obs((case, str(e)))
                raise
            if r != {"score": total(n + 1), "results": values(n + 1)}:
                raise Violation(f"{case}: genotype {n} gets {r}")
            if len(got) != n + 1 or got[n][2] != dict(num_fewshot=1, limit=5, batch_size=2, task_manager=tm, apply_chat_template=True, fewshot_as_multiturn=True):
                raise Violation(f"{case}: evaluated {len(got)} times with {got[-1][2]}")
            k = (d, method, b, gran, i)
            if k not in _disk:
                out = scratch("o")
                run_merge(genome.genotype_merge_config(x), out, MergeOptions(quiet=True, copy_tokenizer=False, write_model_card=False))
                m = transformers.AutoModelForCausalLM.from_pretrained(out, dtype=torch.bfloat16).eval()
                _disk[k] = state(m), m.config
                drop(out)
            want, conf = _disk[k]
            st = got[n][0]
            bad = sorted(set(want) ^ set(st)) + [f"{p}: {ckpt.desc(st[p])} for {ckpt.desc(want[p])}" for p in want if p in st and not ckpt.same(st[p], want[p])]
            if bad:
                raise Violation(f"{case}: genotype {n} was evaluated with another model than its merge: {len(bad)} tensors differ, {bad[:3]}")
            for p in ("rope_parameters", "num_hidden_layers", "vocab_size", "tie_word_embeddings"):
                if getattr(conf, p, None) != getattr(got[n][1], p, None):
                    raise Violation(f"{case}: genotype {n} was evaluated with {p} {getattr(got[n][1], p, None)}, its merge has {getattr(conf, p, None)}")
    finally:
        fakeray.SCORE = saved
        logging.disable(logging.NOTSET)
    return Obs((case, len(got)), states=len(got), transitions=len(got))


# ---------------------------------------------------------------- the whole search
FORMS = {"sharded": dict(), "bin": dict(fmt="bin"), "half": dict(dtype=torch.float16), "tied": dict(lm_head=False)}


def make_inputs(d):
    res = {}
    for i, t in enumerate("abc"):
        for f, kw in FORMS.items():
            p = f"{d}/{f}-{t}"
            ts = tiny.make_llama(p, t, L, **kw)
            if f == "sharded":
                os.remove(f"{p}/model.safetensors")
                names, files = sorted(ts), ["model-00001-of-00002.safetensors", "model-00002-of-00002.safetensors"]
                for k, fn in enumerate(files):
                    safetensors.torch.save_file({n: ts[n] for n in names[k::2]}, f"{p}/{fn}", metadata={"format": "pt"})
                with open(f"{p}/model.safetensors.index.json", "w") as fh:
                    json.dump({"metadata": {}, "weight_map": {n: files[k % 2] for k, n in enumerate(names)}}, fh)
            toks.write_tokenizer(p, ["w", "x", "y", "z"][i:] + ["w", "x", "y", "z"][:i])
            res[f, t] = ts
    return res


def inputs():
    return e2e.per_process("v02i", make_inputs)


class Result:
    pass


def optimiser(pops, stop, seen):
    def fmin2(objective, *, parallel_objective, x0, sigma0, options, callback):
        seen.update(x0=np.array(x0), sigma0=sigma0, options=dict(options))
        es = Result()
        es.result = r = Result()
        r.fbest, r.xbest, r.evaluations = np.inf, None, 0
        for k, pop in enumerate(pops):
            xs = [np.array(p) for p in pop]
            if stop == ("before", k):
                raise KeyboardInterrupt
            fs = parallel_objective(xs)
            if len(fs) != len(xs):
                raise Violation(f"{len(fs)} scores for {len(xs)} genotypes")
            seen.setdefault("costs", []).extend(fs)
            for x, f in zip(xs, fs):
                if f < r.fbest:
                    r.fbest, r.xbest = f, x
            r.evaluations += len(xs)
            if stop == ("after", k):
                raise KeyboardInterrupt
            callback(es)
        return r.xbest, es
    return fmin2


def measure(ts):
    """The score of a model: of its first embedding, exact."""
    return float(ts["model.embed_tokens.weight"].double()[0, 0] * 8 - ts["model.layers.1.mlp.down_proj.weight"].double()[1, 2])


POPS = [[[[1.0, 0.0], [0.0, 1.0]]], [[[0.0, 0.5]], [[1.0, 1.0]], [[2.0, 0.0]]], [[[2.0, 1.0], [0.5, 0.5]], [[0.5, 0.5], [0.25, 0.0]]], [[[0.0, 1.0], [1.0, 0.0]], [[-1.0, 0.25], [0.0, 0.0]]]]


def gen_search(tier):
    quick = tier == "quick"
    for strat, mem in (("pool", False), ("pool", True), ("buffered", False), ("serial", False)):
        for p in range(len(POPS)):
            stops = [None] + [[w, k] for k in range(len(POPS[p])) for w in ("before", "after")]
            for stop in stops:
                for reshard in (True, False):
                    for form in FORMS:
                        for method in ("task_arithmetic", "linear"):
                            if quick and (form != "sharded") + (method == "linear") + (not reshard) + (stop is not None) + (strat != "pool") > 1:
                                continue
                            yield [strat, mem, p, stop, reshard, form, method]


def run_search(case):
    strat, mem, p, stop, reshard, form, method = case
    d, T = inputs()
    pops = POPS[p]
    store = scratch("st")
    base = f"{d}/{form}-c" if method == "task_arithmetic" else None
    cfg = dict(genome=dict(models=[f"{d}/{form}-a", f"{d}/{form}-b"], merge_method=method, base_model=base, allow_negative_weights=True, normalize=False), tasks=["t1"])
    with open(f"{store}/genome.yml", "w") as f:
        yaml.safe_dump(cfg, f)
    seen = {}
    scored = []

    def score(model, args, tasks, kw):
        if mem:
            v = measure(model.model.state_dict())
        else:
            v = measure(safetensors.torch.load_file(f"{args['pretrained']}/model.safetensors"))
        scored.append(v)
        return {"t1": {"acc,none": v}}

    saved = fakeray.SCORE, getattr(evolve.cma, "fmin2", None), evolve.time, actors.gc
    fakeray.SCORE, evolve.cma.fmin2, evolve.time, actors.gc = score, optimiser(pops, stop and tuple(stop), seen), types.SimpleNamespace(sleep=lambda s: None), NoGC
    args = [f"{store}/genome.yml", "--storage-path", f"{store}/s", "--no-merge-cuda", "--num-gpus", "2", "--strategy", strat, "--max-fevals", "7", "--sigma0", "0.5",
            "--reshard" if reshard else "--no-reshard", "--in-memory" if mem else "--no-in-memory"]

    def search():
        with hush(), contextlib.redirect_stdout(io.StringIO()):
            evolve.main.main(args, standalone_mode=False)

    try:
        for _r, _c in fakeray.explore(search):
            break  # orders are the business of the other family

        def merged(x):  # the merge a genotype stands for, worked out here
            ts = {t: {n: v.to(torch.bfloat16) for n, v in T[form, t].items()} for t in "abc"}
            c = dict(merge_method=method, models=[{"model": f"{d}/{form}-{t}", "parameters": {"weight": float(w)}} for t, w in zip("ab", x)], dtype="bfloat16", parameters={"normalize": False})
            if base:
                c["base_model"] = base
            return e2e.merge(c)[0]

        done = len(pops) if stop is None else stop[1] + (stop[0] == "after")
        told = len(pops) if stop is None else stop[1]
        want = [measure(merged(x)) for pop in pops[:done] for x in pop]
        if sorted(scored) != sorted(want) or seen.get("costs", []) != [-v for v in want]:
            raise Violation(f"{case}: costs {seen.get('costs')} of evaluations {scored}, expected scores {want}")
        if not np.allclose(seen["x0"], [0.5, 0.5]) or seen["sigma0"] != 0.5 or seen["options"].get("maxfevals") != 7:
            raise Violation(f"{case}: the search is started with {seen}")
        flat = [x for pop in pops[:told] for x in pop]
        best = flat[max(range(len(flat)), key=lambda i: (want[i], -i))] if flat else [0.5, 0.5]
        final = e2e.read(f"{store}/s/final_model")[0]
        ckpt.compare(final, merged(best), f"{case}: final model")
        if toks.read_vocab(f"{store}/s/final_model") is None:
            raise Violation(f"{case}: the final model has no tokenizer")
        y = f"{store}/s/best_config.yaml"
        if os.path.exists(y) != bool(flat):
            raise Violation(f"{case}: best_config.yaml: {os.path.exists(y)}")
        if flat:
            with open(y) as f:
                ckpt.compare(e2e.merge(yaml.safe_load(f))[0], merged(best), f"{case}: merge of best_config.yaml")
        left = os.listdir(f"{store}/s/merged") if os.path.isdir(f"{store}/s/merged") else []
        if left:
            raise Violation(f"{case}: left on disk: {left}")
    finally:
        fakeray.SCORE, evolve.cma.fmin2, evolve.time, actors.gc = saved
        drop(store)
    return Obs((case, best), states=len(scored))


# ---------------------------------------------------------------- input models, interrupted
TEARS = [1, crash.HALF, -1]


def gen_reshard(tier):
    for form in ("sharded", "tied") if tier == "quick" else FORMS:
        for mode in ("die", "torn", "once", "on"):
            for part in range(2):
                yield [form, mode, part]


def reshard(path, store):
    """-> tensors and vocabulary of the converted input model"""
    with hush():
        r = evolve._reshard_model(ModelReference(model=path), store, f"{store}/lora", False)
    p = r.model.path
    ts, _i = ckpt.read_dir(p, "model", "safetensors")
    return ts, toks.read_vocab(p), sorted(f for f in os.listdir(p) if f.endswith(".safetensors"))


def run_reshard(case):
    form, mode, part = case
    d, T = inputs()
    want = {n: v.to(torch.bfloat16) for n, v in T[form, "b"].items()}
    vocab = toks.read_vocab(f"{d}/{form}-b")
    top = scratch("r")
    n = 0

    def check(v, what, tok=True):
        ts, voc, files = v
        if ts is None:
            raise Violation(f"{what}: no model")
        ckpt.compare(ts, want, what)
        if len(files) != 1:
            raise Violation(f"{what}: files {files}")
        if voc != vocab and (tok or voc is not None):
            raise Violation(f"{what}: tokenizer {voc}, expected {vocab}")

    try:
        full = crash.run(lambda: reshard(f"{d}/{form}-b", f"{top}/full"), f"{top}/full")
        if full.status != "ok":
            raise Violation(f"converting {form} fails: {full.error}")
        check(full.value, "first use")
        for k, op in list(enumerate(full.ops))[part::2]:
            todo = {"die": [(crash.DIE, 0)], "torn": [(crash.TORN, t) for t in TEARS] if op.startswith("write") else [],
                    "once": [(crash.FAIL_ONCE, 0)], "on": [(crash.FAIL_ON, 0)]}[mode]
            for m, torn in todo:
                store = f"{top}/{k}-{m}-{torn}"
                r = crash.run(lambda: reshard(f"{d}/{form}-b", store), store, k, m, torn)
                what = f"{mode} at operation {k} of {len(full.ops)} ({op})"
                if r.status == "ok":
                    check(r.value, f"{what}: this use", tok=False)  # one that cannot be read is only warned about
                again = crash.run(lambda: reshard(f"{d}/{form}-b", store), store)
                if again.status != "ok":
                    raise Violation(f"{what}: the next use fails: {again.error}")
                check(again.value, f"{what}: next use", tok=r.status != "ok")
                n += 1
                drop(store)
    finally:
        drop(top)
    return Obs((case, n), states=n, transitions=n, execs=2 * n)


FAMILIES = [
    Family("strategy", gen_strategy, run_strategy, chunk=1, timeout=800, rule="3 strategies x 1-3 GPUs x up to 4 genotypes in up to 3 generations x merge, evaluation or genotype failing, every completion order"),
    Family("inmemory", gen_inmem, run_inmem, chunk=4, rule="every causal architecture x tied or not; methods x base x granularity x configurations that differ x genotype sequences up to 3: the model evaluated, against the merge on disk"),
    Family("search", gen_search, run_search, rule="strategies x populations x interruption before or after each x resharding x 4 forms of input models x method: scores, best configuration and final model"),
    Family("reshard", gen_reshard, run_reshard, chunk=1, timeout=800, rule="process death, torn write, failing operation at every file-system operation of the conversion of an input model, then the next use"),
]
