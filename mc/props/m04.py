"""M04: the same merge under every option, hash seed, order of earlier merges and rewriting of inputs."""
from __future__ import annotations

import hashlib
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys

import torch
import transformers  # noqa: F401

from mc import ckpt, core, e2e, fakegpu, tiny, toks
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.architecture import get_architecture_info
from mergekit.common import ModelReference
from mergekit.config import MergeConfiguration
from mergekit.graph import Executor
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.plan import MergePlanner

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the reference is the merge with default options alone in a fresh process",
    "mathematics on the CPU: another device has other random numbers and rounding, several devices are covered with methods that use no random numbers",
    "hash seeds are chosen so that every order of the names of models and of the new tokens in a set occurs; orders of sets of models are also enumerated directly",
    "names of files and shards, the model card and the serialisation format are what the options say and are not compared",
]

MODELS = ["A", "B", "C"]
TOK = {"A": (["a", "b"], [("X", 2)]), "B": (["b", "a"], [("Y", 2), ("Z", 3)]), "C": (["a", "b"], [("Z", 2), ("W", 3)])}
ROOT = None
REF = {}


def build(root):
    """Fixed models: A B C (safetensors), Ap Bp Cp (pickle), At Bt Ct (tokenizers), As Bs Cs (sharded), Ah Bh Ch (float16), Ax Bx Cx (no definition)."""
    for m in MODELS:
        ts = tiny.make_llama(f"{root}/{m}", m, 2, h=4)
        tiny.make_llama(f"{root}/{m}p", m, 2, h=4, fmt="pickle")
        tiny.make_llama(f"{root}/{m}h", m, 2, h=4, dtype=torch.float16)
        n = len(set(TOK[m][0])) + len(TOK[m][1])
        tiny.make_llama(f"{root}/{m}t", m, 2, h=4, vocab=n)
        toks.write_tokenizer(f"{root}/{m}t", *TOK[m])
        # sharded
        d = f"{root}/{m}s"
        tiny.make_llama(d, m, 2, h=4)
        os.remove(f"{d}/model.safetensors")
        names = sorted(ts)
        wm = {}
        for i in range(3):
            part = {k: ts[k].contiguous() for k in names[i::3]}
            f = f"model-{i + 1:05d}-of-00003.safetensors"
            import safetensors.torch
            safetensors.torch.save_file(part, f"{d}/{f}")
            wm.update({k: f for k in part})
        json.dump({"metadata": {}, "weight_map": wm}, open(f"{d}/model.safetensors.index.json", "w"))
        # an architecture nobody knows, with two stacks of layers
        x = {f"{p}.{l}.w{j}": tiny.value(m, f"{p}{l}{j}", (4, 4)) for p in ("enc.layer", "dec.layer") for l in range(2) for j in range(2)}
        x.update({n: tiny.value(m, n, (4,)) for n in ("enc.layer_norm", "dec.norm", "head.weight")})
        tiny.write_model(f"{root}/{m}x", dict(tiny.llama_config(2, h=4), architectures=["MysteryForCausalLM"]), x)


def mk(method, suffix="", models=MODELS, base=None, params=None, per=None, **top):
    return dict(method=method, suffix=suffix, models=models, base=base, params=params or {}, per=per or {}, top=top)


W3 = {"weight": [0.5, 0.25, 1.5]}
CFG = {
    "linear": mk("linear", per=W3),
    "linear-pickle": mk("linear", "p", per=W3),
    "linear-shards": mk("linear", "s", per=W3),
    "linear-half": mk("linear", "h", per=W3, dtype="float32", out_dtype="float16"),
    "linear-union": mk("linear", "t", per=W3, tokenizer={"source": "union"}),
    "slerp": mk("slerp", models=["A", "B"], base="A", params={"t": [0.25, 0.75]}),
    "nuslerp": mk("nuslerp", models=["B", "C"], base="A", per={"weight": [0.5, 0.75]}),
    "multislerp": mk("multislerp", per=W3),
    "karcher": mk("karcher"),
    "model_stock": mk("model_stock", base="A"),
    "arcee_fusion": mk("arcee_fusion", models=["A", "B"], base="A"),
    "ties": mk("ties", base="A", per=W3, params={"density": 0.5, "normalize": True}),
    "breadcrumbs": mk("breadcrumbs", "p", base="A", per=W3, params={"density": 0.5, "gamma": 0.25}),
    "sce": mk("sce", base="A", params={"select_topk": 0.5}),
    "dare_linear": mk("dare_linear", base="A", per=W3, params={"density": 0.5}),
    "dare_ties": mk("dare_ties", "p", base="A", per=W3, params={"density": 0.5}),
    "dare_ties-half": mk("dare_ties", "h", base="A", per=W3, params={"density": 0.5}, dtype="bfloat16"),
    "dare-union": mk("dare_ties", "t", base="A", per=W3, params={"density": 0.5}, tokenizer={"source": "union"}),
    "dare-inferred": mk("dare_ties", "x", base="A", per=W3, params={"density": 0.5}),
    "della": mk("della", "s", base="A", per=W3, params={"density": 0.5, "epsilon": 0.25}),
    "della_linear": mk("della_linear", base="A", per=W3, params={"density": 0.5, "epsilon": 0.25}),
    "linear-inferred": mk("linear", "x", per=W3),
    "stack": "stack", "stack-dare": "stack-dare", "tokens": "tokens",
}
RANDOM = {c for c in CFG if c.startswith(("dare", "della")) or c == "stack-dare"}


def config(name, root=None):
    root = root or ROOT
    c = CFG[name]
    if c == "tokens":  # a tokenizer choice that needs a decision per token
        return dict(merge_method="linear", models=[{"model": f"{root}/{m}t", "parameters": {"weight": w}} for m, w in zip("CBA", (1.0, 0.5, 0.25))],
                    tokenizer={"source": "union", "tokens": {"Z": {"source": f"{root}/Bt", "force": True}, "N": {"source": {"kind": "zero"}}}})
    if c in ("stack", "stack-dare"):
        def sl(m, r):
            return {"model": f"{root}/{m}", "layer_range": r}
        if c == "stack":
            return dict(merge_method="passthrough", slices=[{"sources": [sl("A", [0, 2])]}, {"sources": [sl("B", [0, 2])]}, {"sources": [sl("A", [1, 2])]},
                                                           {"sources": [{**sl("A", [0, 1]), "parameters": {"scale": 0.5}}]}])
        return dict(merge_method="dare_ties", base_model=f"{root}/A", parameters={"density": 0.5, "weight": 0.5},
                    slices=[{"sources": [sl("A", [0, 2]), sl("B", [0, 2])]}, {"sources": [sl("A", [0, 2]), sl("C", [0, 2])]}])
    d = dict(merge_method=c["method"], parameters=c["params"], **c["top"])
    d["models"] = [{"model": f"{root}/{m}{c['suffix']}", "parameters": {k: v[i] for k, v in c["per"].items()}} for i, m in enumerate(c["models"])]
    if c["base"]:
        d["base_model"] = f"{root}/{c['base']}{c['suffix']}"
    return d


def suffix(name):
    return CFG[name]["suffix"] if isinstance(CFG[name], dict) else ("t" if name == "tokens" else "")


OPTS = {
    "lazy_unpickle": [False, True], "low_cpu_memory": [False, True], "read_to_gpu": [False, True], "clone_tensors": [False, True],
    "async_write": [False, True], "write_threads": [1, 3], "out_shard_size": [5_000_000_000, 100], "safe_serialization": [True, False],
    "quiet": [True, False], "write_model_card": [False, True], "copy_tokenizer": [False, True],
}
DEFAULT = {k: v[0] for k, v in OPTS.items()}


def pack(ts, cfg, tok):
    """Digest per tensor, the configuration, the tokenizer."""
    return ({k: (tuple(t.shape), str(t.dtype), hashlib.sha1(t.contiguous().reshape(-1).view(torch.uint8).numpy().tobytes() if t.numel() else b"").hexdigest()[:12])
             for k, t in sorted(ts.items())}, cfg, tok)


def perform(name, root=None, **opts):
    out = scratch("o")
    try:
        o = dict(DEFAULT, random_seed=11)
        o.update(opts)
        devnull = open(os.devnull, "w")
        saved = sys.stderr
        sys.stderr = devnull  # progress bars
        try:
            ts, cfg = e2e.merge(config(name, root), out, keep=True, **o)[:2]
        finally:
            sys.stderr = saved
            devnull.close()
        return pack(ts, cfg, toks.read_vocab(out))
    finally:
        drop(out)


def isolated(fn, *a, **kw):
    """Run in a fresh child of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            torch.set_num_threads(1)
            try:
                res = (True, fn(*a, **kw))
            except BaseException as e:
                import traceback
                res = (False, f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("child died")
    return pickle.loads(data)


def setup(tier):
    """Fixtures and reference results, each computed alone in a fresh process."""
    global ROOT
    if ROOT is not None:
        return
    ROOT = scratch("m04")
    build(ROOT)
    for name in CFG:
        REF[name] = isolated(perform, name)[1]  # a text, if it failed


def ref(name):
    if isinstance(REF[name], str):
        raise Violation(f"{name}: the merge itself fails: {REF[name]}")
    return REF[name]


def compare(got, want, what, tok="present"):
    for k in sorted(set(got[0]) | set(want[0])):
        if got[0].get(k) != want[0].get(k):
            n = sum(got[0].get(x) != want[0].get(x) for x in set(got[0]) | set(want[0]))
            raise Violation(f"{what}: {n} tensors differ, e.g. {k}: {got[0].get(k)}, expected {want[0].get(k)}")
    if got[1] is not None and got[1] != want[1]:
        diff = {k: (got[1].get(k), want[1].get(k)) for k in set(got[1]) | set(want[1]) if got[1].get(k) != want[1].get(k)}
        raise Violation(f"{what}: the configuration differs: {diff}")
    if want[2] is not None and got[2] != want[2] and got[1] is not None:
        raise Violation(f"{what}: the tokenizer differs: {got[2]}, expected {want[2]}")


# ---- options

def tuples(n):
    """All settings of up to n options that differ from the default."""
    for k in range(n + 1):
        for names in itertools.combinations(OPTS, k):
            yield list(names)


def gen_options(tier):
    small = ["dare-union", "breadcrumbs", "stack-dare"]
    for t in tuples(2):
        for name in CFG:
            yield [name, t]
    for t in (x for x in tuples(3) if len(x) == 3):
        for name in small if tier == "quick" else CFG:
            yield [name, t]
    if tier == "thorough":
        for t in (x for x in tuples(len(OPTS)) if len(x) > 3):
            for name in small + ["linear-pickle", "della", "tokens"]:
                yield [name, t]


_loads = None


def disk(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            st = os.stat(p)
            res[p] = (st.st_size, st.st_mtime_ns, st.st_ino)
    return res


def run_options(case):
    name, on = case
    before = disk(ROOT)
    got = perform(name, **{k: OPTS[k][1] for k in on})
    if disk(ROOT) != before:
        raise Violation(f"{name} with {on}: the files of the input models were touched")
    compare(got, ref(name), f"{name} with {[f'{k}={OPTS[k][1]}' for k in on]}")
    return Obs((name, on), transitions=len(got[0]))


# ---- hash seeds

def child_main(root, names, models):
    core._scratch_root = root + "-scratch"
    os.makedirs(core._scratch_root, exist_ok=True)
    res = {}
    for n in names:
        try:
            res[n] = perform(n, root=models)
        except BaseException as e:
            res[n] = f"{type(e).__name__}: {e}"
    with open(root, "wb") as f:
        pickle.dump((os.environ["PYTHONHASHSEED"], res), f)


def orders_of(strings, seeds):
    code = "import sys\nfor g in %r:\n    print('|'.join(set(g)))" % (strings,)
    for s in seeds:
        r = subprocess.run([sys.executable, "-S", "-c", code], env={"PYTHONHASHSEED": str(s)}, capture_output=True, text=True, check=True)
        yield s, r.stdout.split()


def pick_seeds(tier):
    """Hash seeds that between them show every order of the groups of three names in a set."""
    groups = [["X", "Y", "Z"], ["Z", "W", "X"], [f"{ROOT}/{m}" for m in MODELS], [f"{ROOT}/{m}t" for m in MODELS], ["enc.layer", "dec.layer", ""]]
    missing = {(i, "|".join(p)) for i, g in enumerate(groups) for p in itertools.permutations(g)}
    chosen = []
    for s, got in orders_of(groups, range(1, 200)):
        new = {(i, o) for i, o in enumerate(got)} & missing
        if new and len(chosen) < (8 if tier == "quick" else 48) or (tier == "thorough" and len(chosen) < 16):
            chosen.append(s)
            missing -= new
        if not missing and tier == "quick":
            break
        if tier == "thorough" and not missing and len(chosen) >= 32:
            break
    return chosen


def gen_hash(tier):
    for s in pick_seeds(tier):
        yield [s]


def run_hash(case):
    out = os.path.join(scratch("h"), "res")
    env = dict(os.environ, PYTHONHASHSEED=str(case[0]))
    env.pop("LD_PRELOAD", None)
    code = f"import sys; sys.path.insert(0, {core.REPO!r}); sys.path.insert(0, {core.VERIF!r})\nimport logging, warnings; logging.disable(logging.CRITICAL); warnings.filterwarnings('ignore')\nimport torch; torch.set_num_threads(1)\nfrom mc.props import m04\nm04.child_main({out!r}, {list(CFG)!r}, {ROOT!r})"
    try:
        r = subprocess.run([sys.executable, "-c", code], env=env, cwd=core.VERIF, capture_output=True, text=True)
        if not os.path.exists(out):
            raise HarnessError(f"child failed: {r.stderr[-2000:]}")
        seed, res = pickle.load(open(out, "rb"))
        if seed != str(case[0]):
            raise HarnessError("hash seed not passed on")
        for n, v in res.items():
            if isinstance(v, str):
                raise Violation(f"{n} with hash seed {case[0]} fails: {v}")
            compare(v, ref(n), f"{n} with hash seed {case[0]}")
        return Obs((case, len(res)), states=len(res), transitions=len(res), execs=len(res))
    finally:
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)


def gen_sets(tier):
    for name in CFG:
        for p in itertools.permutations(range(3)):
            yield [name, list(p)]


def with_order(name, p):
    """Sets of models iterate in the given order (small hash values are slots of the table)."""
    rank = {f"{ROOT}/{m}{suffix(name)}": i for m, i in zip(MODELS, p)}
    ModelReference.__hash__ = lambda self: rank.get(self.model.path, 7)
    refs = {m: ModelReference.model_validate(f"{ROOT}/{m}{suffix(name)}") for m in MODELS}
    got = [r.model.path for r in set(refs.values())]
    if got != sorted(got, key=rank.get):
        raise HarnessError(f"the hash does not set the order of a set: {got}")
    return perform(name)


def run_sets(case):
    name, p = case
    ok, v = isolated(with_order, name, p)
    if not ok:
        raise Violation(f"{name} fails with models in order {p} in sets: {v}")
    compare(v, ref(name), f"{name} with models in order {p} in sets")
    return Obs((name, p), transitions=len(v[0]))


# ---- into memory

def in_memory(name, opts):
    cfg = MergeConfiguration.model_validate(config(name))
    o = MergeOptions(**dict(DEFAULT, random_seed=11, **opts))
    transformers.trainer_utils.set_seed(11)
    from mergekit.merge import _model_out_config
    arch = get_architecture_info(cfg, o)
    from mergekit.io.tasks import LoaderCache
    LoaderCache().setup(options=o)
    targets = MergePlanner(cfg, arch, options=o, out_model_config=_model_out_config(cfg, arch)).plan_in_memory()
    ex = Executor(targets, math_device="cpu", storage_device="cpu")
    ts = {t.weight_info.name: v for t, v in ex.run(quiet=True) if v is not None and hasattr(t, "weight_info")}
    return pack(ts, None, None)


def gen_memory(tier):
    for name in CFG:
        if name in RANDOM:
            continue  # the order of the draws is that of the tasks, which are others
        for o in ({}, {"lazy_unpickle": True}, {"low_cpu_memory": True}, {"read_to_gpu": True}):
            yield [name, o]


def run_memory(case):
    name, o = case
    ok, v = isolated(in_memory, name, o)
    if not ok:
        raise Violation(f"{name} in memory fails: {v}")
    compare(v, ref(name), f"{name} merged in memory ({o})")
    return Obs((name, sorted(o)), transitions=len(v[0]))


# ---- several devices

def on_devices(name, n, opts):
    perform(name)  # PyTorch and MKL set themselves up on first use, which two threads at once make go wrong by an ulp
    with fakegpu.fake_gpus(n):
        return perform(name, multi_gpu=True, **opts)


def gen_devices(tier):
    for name in CFG:
        if name in RANDOM:
            continue
        for n in (1, 2) if tier == "quick" else (1, 2, 3, 4):
            for t in tuples(1):
                yield [name, n, t]


def run_devices(case):
    name, n, on = case
    ok, v = isolated(on_devices, name, n, {k: OPTS[k][1] for k in on})
    if not ok:
        raise Violation(f"{name} on {n} devices fails: {v}")
    compare(v, ref(name), f"{name} on {n} devices with {on}")
    return Obs((name, n, on), transitions=len(v[0]))


# ---- repetition

def gen_repeat(tier):
    for a, b in itertools.product(CFG, CFG):
        yield [[a, b]]
    small = ["linear", "dare_ties", "dare-union", "stack", "linear-pickle", "dare-inferred"]
    for t in itertools.product(small if tier == "quick" else list(CFG)[:12], repeat=3):
        yield [list(t)]


def repeat(names):
    return [perform(n, lazy_unpickle=bool(i % 2)) for i, n in enumerate(names)]


def run_repeat(case):
    ok, v = isolated(repeat, case[0])
    if not ok:
        raise Violation(f"merges {case[0]} in one process: {v}")
    for i, n in enumerate(case[0]):
        compare(v[i], ref(n), f"{case[0]} in one process, merge {i + 1}")
    return Obs(case, states=len(v), transitions=len(v), execs=len(v))


# ---- the same layers used several times in one merge

SH = {  # models, base, [parameters of the slices], [weights of the models]
    "linear": ("ABC", "", [{}, {"normalize": False}], 1),
    "slerp": ("AB", "A", [{"t": 0.25}, {"t": 0.75}], 0),
    "nuslerp": ("BC", "A", [{}, {"nuslerp_flatten": False}], 1),
    "nuslerp-plain": ("BC", "", [{}, {"nuslerp_flatten": False}], 1),
    "multislerp": ("BC", "A", [{}, {"normalize_weights": False}], 1),
    "multislerp-plain": ("ABC", "", [{}, {"normalize_weights": False}], 1),
    "karcher": ("ABC", "", [{}, {"max_iter": 1}], 0),
    "model_stock": ("BC", "A", [{}, {"filter_wise": True}], 0),
    "arcee_fusion": ("AB", "A", [{}, {}], 0),
    "nearswap": ("AB", "A", [{"t": 0.5}, {"t": 0.125}], 0),
    "task_arithmetic": ("BC", "A", [{}, {"lambda": 0.5}], 1),
    "ties": ("BC", "A", [{"density": 0.5}, {"density": 0.75, "normalize": False}], 1),
    "breadcrumbs": ("BC", "A", [{"density": 0.5}, {"density": 0.5, "gamma": 0.25}], 1),
    "breadcrumbs_ties": ("BC", "A", [{"density": 0.5}, {"density": 0.5, "gamma": 0.25}], 1),
    "sce": ("BC", "A", [{"select_topk": 0.5}, {"select_topk": 1.0}], 0),
    "dare_linear": ("BC", "A", [{"density": 1.0}, {"density": 1.0, "rescale": False}], 1),
    "dare_ties": ("BC", "A", [{"density": 1.0}, {"density": 1.0, "normalize": False}], 1),
    "della": ("BC", "A", [{"density": 1.0, "epsilon": 0.0}, {"density": 1.0, "epsilon": 0.0, "normalize": False}], 1),
    "della_linear": ("BC", "A", [{"density": 1.0, "epsilon": 0.0}, {"density": 1.0, "epsilon": 0.0, "normalize": False}], 1),
    "passthrough": ("B", "", [{"scale": 0.5}, {}], 0),
}


def gen_shared(tier):
    for m in SH:
        for suf in ("", "p", "h"):
            for order in itertools.product((0, 1), repeat=2 if tier == "quick" else 3):
                for o in ({}, {"lazy_unpickle": True}) + (({"clone_tensors": True}, {"async_write": True}) if tier != "quick" else ()):
                    yield [m, suf, list(order), o]


def shared_config(m, suf, order):
    names, base, params, weighted = SH[m]

    def source(t, i):
        d = {"model": f"{ROOT}/{t}{suf}", "layer_range": [0, 2]}
        if weighted:
            d["parameters"] = {"weight": [0.5, 0.75, 1.5][i]}
        return d
    extra = [{"model": f"{ROOT}/{base}{suf}", "layer_range": [0, 2]}] if base and base not in names else []
    c = dict(merge_method=m.split("-")[0], slices=[{"sources": [source(t, i) for i, t in enumerate(names)] + extra, "parameters": params[k]} for k in order])
    if base:
        c["base_model"] = f"{ROOT}/{base}{suf}"
    return c


def run_shared(case):
    """A stack that uses the same layers with several settings holds what each setting alone gives."""
    m, suf, order, o = case
    d = scratch("o")
    try:
        def go(order):
            out = f"{d}/{'-'.join(map(str, order))}"
            return e2e.merge(shared_config(m, suf, order), out, keep=True, **dict(DEFAULT, random_seed=11, **o))[0]
        alone = {k: go([k]) for k in set(order)}
        got = go(order)
        want = {}
        for j, k in enumerate(order):
            for n, t in alone[k].items():
                if n.startswith("model.layers."):
                    p = n.split(".")
                    p[2] = str(int(p[2]) + 2 * j)
                    want[".".join(p)] = t
                elif ("embed" in n and j == 0) or ("embed" not in n and j == len(order) - 1):
                    want[n] = t
        ckpt.compare(got, want, f"{m}: slices with settings {[SH[m][2][k] for k in order]} of the same layers ({suf!r}, {o})")
        return Obs((m, suf, order), transitions=len(got), execs=1 + len(alone))
    finally:
        drop(d)


# ---- inputs rewritten between merges of one process

def gen_rewrite(tier):
    for name in CFG:
        for which in MODELS:
            if f'R/{which}{suffix(name)}"' not in json.dumps(config(name, "R")):
                continue
            for how in ("replace", "overwrite", "retune"):
                for back in (False, True):
                    yield [name, which, how, back]
        if suffix(name) == "x":
            for back in (False, True):
                yield [name, "*", "extend", back]  # every model gains a tensor


def rewrite(name, which, how, back):
    """Merge, exchange one input model for another, merge again (and change back, and merge again)."""
    root = scratch("w")
    try:
        s = suffix(name)
        for m in MODELS:
            shutil.copytree(f"{ROOT}/{m}{s}", f"{root}/{m}{s}")
        ms = [m + s for m in (MODELS if which == "*" else [which])]

        def put(src, f):
            if how == "replace":
                tmp = f"{root}/{f}.new"
                shutil.copy(f"{src}/{f}", tmp)
                os.replace(tmp, f"{root}/{f}")
            else:
                shutil.copyfile(f"{src}/{f}", f"{root}/{f}")
        files = [f"{m}/{f}" for m in ms for f in os.listdir(f"{root}/{m}") if f.endswith((".safetensors", ".bin"))]
        alt = f"{root}/alt"
        for m in ms:
            shutil.copytree(f"{root}/{m}", f"{alt}/{m}")
        for f in files:
            t = ckpt.read_file(f"{alt}/{f}")
            if how == "extend":
                t["extra.weight"] = torch.ones(4)
            else:
                t = {k: (v + 1.0 if how != "retune" else v * 0.5).contiguous() for k, v in t.items()}
            if f.endswith(".bin"):
                torch.save(t, f"{alt}/{f}")
            else:
                import safetensors.torch
                safetensors.torch.save_file(t, f"{alt}/{f}")
        first = perform(name, root=root)
        for f in files:
            put(alt, f)
        second = perform(name, root=root)
        if not back:
            return [first, second, isolated_alone(name, root)]
        for f in files:
            put(ROOT, f)
        third = perform(name, root=root)
        return [first, third, isolated_alone(name, root)]
    finally:
        drop(root)


def isolated_alone(name, root):
    """A fresh location has no history in this process."""
    other = root + "-fresh"
    shutil.copytree(root, other)
    try:
        return perform(name, root=other)
    finally:
        drop(other)


def run_rewrite(case):
    name, which, how, back = case
    ok, v = isolated(rewrite, *case)
    if not ok:
        raise Violation(f"{case}: {v}")
    compare(v[0], ref(name), f"{case}: first merge")
    compare(v[1], v[2], f"{name} again after the weights of {which} changed on disk ({how}{', and back' if back else ''})")
    if not back and v[1][0] == v[0][0]:
        raise HarnessError(f"{case}: the change has no effect")
    return Obs(case, transitions=3, execs=4)


# ---- from the command line

def gen_cli(tier):
    for name in CFG if tier == "thorough" else ["linear", "dare-union", "breadcrumbs", "tokens", "stack-dare", "dare-inferred"]:
        for t in tuples(2):
            yield [name, t]


def run_cli(case):
    """mergekit-yaml with flags: same result, and every flag has the effect it announces."""
    import yaml
    from click.testing import CliRunner
    from mergekit.scripts.run_yaml import main
    name, on = case
    vals = {k: OPTS[k][k in on] for k in OPTS}
    d = scratch("cli")
    try:
        src = yaml.safe_dump(config(name)) + "# as written by the user\n"
        with open(f"{d}/c.yml", "w") as f:
            f.write(src)
        args = [f"{d}/c.yml", f"{d}/out", "--random-seed", "11"]
        for k, v in vals.items():
            flag = k.replace("_", "-")
            args += [f"--{flag}" if v else f"--no-{flag}"] if isinstance(v, bool) else [f"--{flag}", "5B" if v == 5_000_000_000 else str(v)]
        r = CliRunner().invoke(main, args, standalone_mode=True)
        if r.exit_code:
            raise Violation(f"mergekit-yaml {args} fails: {r.exception!r}")
        safe = vals["safe_serialization"]
        out = f"{d}/out"
        ts, cfg = e2e.read(out, "model" if safe else "pytorch_model", "safetensors" if safe else "bin")
        tok = toks.read_vocab(out)
        compare(pack(ts, cfg, tok), ref(name), f"mergekit-yaml {args[2:]} of {name}")
        fs = sorted(os.listdir(out))
        weights = [f for f in fs if f.endswith((".safetensors", ".bin"))]
        if ("README.md" in fs) != vals["write_model_card"] or ("mergekit_config.yml" in fs) != vals["write_model_card"]:
            raise Violation(f"{args}: model card asked for: {vals['write_model_card']}; files {fs}")
        if vals["write_model_card"] and open(f"{out}/mergekit_config.yml").read() != src:
            raise Violation(f"{args}: the configuration in the output is not the one that was given")
        own = "tokenizer" in config(name)
        has = own or (vals["copy_tokenizer"] and suffix(name) == "t")
        if (tok is not None) != has:
            raise Violation(f"{args}: tokenizer in the output: {tok}, expected one: {has}")
        if (len(weights) > 1) != (vals["out_shard_size"] == 100):
            raise Violation(f"{args}: files {weights} for shard size {vals['out_shard_size']}")
        return Obs((case, fs), transitions=len(ts))
    finally:
        drop(d)


# ---- number of threads writing in the background

def gen_threads(tier):
    for n, safe, name in itertools.product((1, 2, 3, 5), (True, False), ("linear", "stack", "dare_ties")):
        yield [name, n, safe]


def writing(name, n, safe):
    import safetensors.torch
    import threading

    cond, now, most, calls = threading.Condition(), [0], [0], [0]

    def slow(fn):
        def save(*a, **kw):
            with cond:
                now[0] += 1
                most[0] = max(most[0], now[0])
                cond.notify_all()
                calls[0] += 1
                if calls[0] <= n + 1:  # the first n+1 wait for one another
                    cond.wait_for(lambda: most[0] >= n, timeout=5.0)
                    cond.wait_for(lambda: most[0] > n, timeout=0.2)
            try:
                return fn(*a, **kw)
            finally:
                with cond:
                    now[0] -= 1
        return save

    for mod, f in ((safetensors.torch, "save_file"), (torch, "save")):
        setattr(mod, f, slow(getattr(mod, f)))
    e2e.merge(config(name), scratch("o"), keep=True, **dict(DEFAULT, random_seed=11, async_write=True, write_threads=n,
                                                             safe_serialization=safe, out_shard_size=100))
    return most[0]


def run_threads(case):
    ok, v = isolated(writing, *case)
    if not ok:
        raise Violation(f"merge {case}: {v}")
    if v and v != case[1]:
        raise Violation(f"{case[0]}: {v} files were written at once with write_threads={case[1]}")
    return Obs((case, v))


FAMILIES = [
    Family("threads", gen_threads, run_threads, setup=setup, rule="3 merges x 1-5 write threads x both formats: as many files are written at once"),
    Family("cli", gen_cli, run_cli, setup=setup, rule="mergekit-yaml on 6 (25) merges x every setting of up to 2 flags: same result, every flag has its effect"),
    Family("options", gen_options, run_options, setup=setup, rule="25 merges x every setting of up to 2 (3) of 11 options away from their defaults; inputs on disk untouched"),
    Family("sets", gen_sets, run_sets, setup=setup, rule="25 merges x every order in which a set of the three models can iterate"),
    Family("hash", gen_hash, run_hash, setup=setup, chunk=1, timeout=600, rule="25 merges x hash seeds that show every order of the names involved"),
    Family("memory", gen_memory, run_memory, setup=setup, rule="25 merges into memory x 4 option settings"),
    Family("devices", gen_devices, run_devices, setup=setup, rule="merges without random numbers on 1-2 (4) devices x every single option"),
    Family("repeat", gen_repeat, run_repeat, setup=setup, rule="every ordered pair of 25 merges, triples of 6 (12), in one process"),
    Family("shared", gen_shared, run_shared, setup=setup, rule="20 methods x stacks of 2 (3) slices that use the same layers with 2 settings x 3 formats x 2 (4) options, against each setting alone"),
    Family("rewrite", gen_rewrite, run_rewrite, setup=setup, rule="25 merges repeated in one process after the weights of one input were replaced, overwritten, or changed and restored"),
]
