"""S02: merging raw checkpoint files: tensor sets, parameters, formats, repetition."""
from __future__ import annotations

import itertools
import os
import shutil
import subprocess
import sys

import safetensors.torch
import torch
import yaml
from click.testing import CliRunner

from mc import ckpt, methods
from mc.core import Family, Obs, Violation, drop, scratch
from mergekit.scripts import merge_raw_pytorch as raw

LEVEL = "model_checking"
ASSUMPTIONS = [
    "bounds: 2-3 model files, 2-3 tensor names, tensors of at most 6 elements, all file formats the tool reads",
    "merge method results: the registered method on the tensors at hand (properties M01-M03 decide the methods themselves)",
    "not covered: the same file listed twice",
]
NAMES = ("a.weight", "b.bias", "c")
SHAPES = {"a.weight": (2, 3), "b.bias": (4,), "c": (3, 1)}


def tensor(model, name, dtype=torch.float32):
    g = torch.Generator().manual_seed(1000 * "xyz".index(model) + 7 * NAMES.index(name) + 3)
    return torch.randn(SHAPES[name], generator=g).to(dtype)


def write(path, tensors, fmt):
    if fmt == "st":
        safetensors.torch.save_file(tensors, path)
    elif fmt == "wrapped":
        torch.save({"state_dict": tensors}, path)
    else:
        torch.save(tensors, path)


EXT = {"st": "safetensors", "pt": "pt", "bin": "bin", "wrapped": "ckpt", "pth": "PTH"}


def invoke(d, config, flags, out="out"):
    """Run the command line; -> None or the error."""
    p = os.path.join(d, "config.yml")
    with open(p, "w") as f:
        yaml.safe_dump(config, f)
    r = CliRunner().invoke(raw.main, [p, os.path.join(d, out), *flags], catch_exceptions=True)
    if r.exit_code == 0:
        return None
    return r.exception or RuntimeError(r.output[-200:])


def setting(value, name):
    """Value of a parameter setting for tensor `name`; None: does not apply."""
    if isinstance(value, dict):
        value = [value]
    if isinstance(value, list):
        if value and isinstance(value[0], dict):
            for c in value:
                if c.get("filter") in (None, "*") or c["filter"] in name:
                    return setting(c["value"], name)
            return None
        return value[0]
    return value


def resolved(key, name, *levels):
    for lv in levels:
        if lv and key in lv:
            v = setting(lv[key], name)
            if v is not None:
                return v
    return None


def compare(got, want, what):
    if set(got) != set(want):
        raise Violation(f"{what}: tensors {sorted(got)}, expected {sorted(want)}")
    for k, w in want.items():
        if got[k].dtype != w.dtype:
            raise Violation(f"{what}: {k} is {ckpt.desc(got[k])}, expected {ckpt.desc(w)}")
        methods.close(got[k], w, 2 * torch.finfo(w.dtype).eps, f"{what}: {k}")


def expect(case, tensors):
    """tensors: model -> {name: tensor}. -> {name: tensor}, "rejected", or (name, error) when the method refuses."""
    listed = [m for m, _ in case["models"]]
    parties = listed + ([case["base"]] if case["base"] and case["base"] not in listed else [])
    allnames = sorted(set().union(*(tensors[m] for m in parties)))
    common = [n for n in allnames if all(n in tensors[m] for m in parties)]
    if case["mode"] == "":
        if common != allnames:
            return "rejected"
    names = common if case["mode"] == "-i" else allnames
    meth = methods.method(case["method"])
    res = {}
    dt = ckpt.DT[case["dtype"]] if case.get("dtype") else None
    for n in names:
        have = {m: tensors[m][n] if dt is None else tensors[m][n].to(dt) for m in parties if n in tensors[m]}
        glob = {}
        for p in meth.parameters():
            v = resolved(p.name, n, case.get("params"))
            if v is None and p.required:
                return "rejected"
            if v is not None:
                glob[p.name] = v
        per = {}
        for p in meth.tensor_parameters():
            for m in parties:
                v = resolved(p.name, n, dict(case["models"]).get(m), case.get("params"))
                if v is None and p.required and m in listed:
                    return "rejected"
                if v is not None:
                    per.setdefault(m, {})[p.name] = v
        try:
            res[n] = methods.apply(case["method"], have, case["base"], glob, per, weight=n)
        except Violation:
            raise
        except Exception as e:
            return n, e
        if dt is not None:
            res[n] = res[n].to(dt)
    return res


def to_config(case, paths):
    c = {"merge_method": case["method"], "models": []}
    for m, params in case["models"]:
        e = {"model": paths[m]}
        if params is not None:
            e["parameters"] = params
        c["models"].append(e)
    if case["base"]:
        c["base_model"] = paths[case["base"]]
    for k, key in (("params", "parameters"), ("dtype", "dtype")):
        if case.get(k) is not None:
            c[key] = {"f32": "float32", "f16": "float16", "bf16": "bfloat16"}[case[k]] if k == "dtype" else case[k]
    return c


def check(case, has, dtypes=None, fmts=None, flags=(), read=("model", "safetensors")):
    """has: model -> names. -> tags"""
    d = scratch()
    try:
        ts, paths = {}, {}
        for m, names in has.items():
            ts[m] = {n: tensor(m, n, (dtypes or {}).get(n, torch.float32)) for n in names}
            f = (fmts or {}).get(m, "st")
            paths[m] = os.path.join(d, f"{m}.{EXT[f]}")
            write(paths[m], ts[m], f)
        want = expect(case, ts)
        err = invoke(d, to_config(case, paths), [*flags, *([case["mode"]] if case["mode"] else [])])
        if want == "rejected":
            if err is None:
                raise Violation(f"tensors or parameters do not match, yet the merge succeeded: {has}, {case}")
            return ["rejected"]
        if isinstance(want, tuple):
            if err is None:
                raise Violation(f"{case['method']} refuses {want[0]} ({want[1]}), yet the merge succeeded")
            return ["method-refuses"]
        if err is not None:
            raise Violation(f"merge failed with {type(err).__name__}: {err}; models have {has}", key=f"fails:{type(err).__name__}")
        if not want:
            return ["empty"]
        got, info = ckpt.read_dir(os.path.join(d, "out"), *read)
        if got is None:
            raise Violation(f"no {read} checkpoint in the output: {os.listdir(os.path.join(d, 'out'))}")
        compare(got, want, f"{case['method']}{case['mode']} of {has}")
        return [f"tensors{len(want)}", f"files{len(info['files'])}"]
    finally:
        drop(d)


# ---------------------------------------------------------------- tensor sets
def subsets(names):
    return [list(c) for r in range(1, len(names) + 1) for c in itertools.combinations(names, r)]


LAYOUTS = {  # models listed, base
    "pair": (("x", "y"), None), "pair-base": (("x", "y"), "x"), "pair-extra": (("x", "y"), "z"),
    "three": (("x", "y", "z"), None), "three-base": (("x", "y", "z"), "y"), "single-extra": (("x",), "z"),
}
METHODS = {
    "linear": (("pair", "three"), {"weight": 0.75}, {}),
    "task_arithmetic": (("pair-base", "pair-extra", "three-base", "single-extra"), {"weight": 0.5}, {}),
    "ties": (("pair-extra", "three-base"), {"weight": 0.5, "density": 0.5}, {}),
    "slerp": (("pair-base", "single-extra"), {}, {"t": 0.25}),
    "passthrough": (("pair", "single"), {}, {"scale": 2.0}),
    "model_stock": (("pair-extra",), {}, {}),
    "arcee_fusion": (("pair-base", "single-extra"), {}, {}),
    "multislerp": (("pair", "three-base"), {"weight": 0.5}, {}),
    "nuslerp": (("pair", "pair-extra"), {"weight": 0.5}, {}),
    "sce": (("pair-extra",), {}, {"select_topk": 0.5}),
}
LAYOUTS["single"] = (("x",), None)


def gen_sets(tier):
    for meth, (layouts, _, _) in METHODS.items():
        for lay in layouts:
            models, base = LAYOUTS[lay]
            parties = list(models) + ([base] if base and base not in models else [])
            pool = NAMES if len(parties) < 3 or tier == "thorough" else NAMES[:2]
            for combo in itertools.product(subsets(pool), repeat=len(parties)):
                for mode in ("", "-u", "-i"):
                    yield dict(method=meth, layout=lay, has=dict(zip(parties, combo)), mode=mode)


def run_sets(case):
    models, base = LAYOUTS[case["layout"]]
    _, per, glob = METHODS[case["method"]]
    c = dict(method=case["method"], models=[(m, dict(per) or None) for m in models], base=base, mode=case["mode"], params=glob or None)
    return Obs([case["method"], case["mode"], *check(c, case["has"])])


# ---------------------------------------------------------------- parameters
VALUES = [None, 0, 0.0, 1.5, [{"filter": "a.", "value": 0.25}], [{"filter": "a.", "value": 0}, {"value": 2.0}],
          [{"filter": "zzz", "value": 9}, {"filter": "*", "value": 0.5}], {"filter": "bias", "value": 3.0}, [0.5, 2.0],
          [{"filter": "b", "value": [0.0, 1.0]}]]
FLAGS = [None, False, True, [{"filter": "a.", "value": False}, {"value": True}], [{"filter": "bias", "value": True}]]


def gen_params(tier):
    for x, y, g in itertools.product(range(len(VALUES)), repeat=3):
        if tier == "quick" and x > 5 and y > 5:
            continue
        yield dict(kind="linear", x=x, y=y, g=g)
    for n, g in itertools.product(range(len(FLAGS)), range(len(VALUES))):
        for base in ("x", "z"):
            for x in (range(len(VALUES)) if tier == "thorough" else (0, 1, 4)):
                yield dict(kind="ties", n=n, g=g, x=x, base=base)
    for g in range(len(VALUES)):
        yield dict(kind="slerp", g=g)
    for g, p, mp in itertools.product(range(len(VALUES)), range(len(VALUES)), (0, 1)):
        yield dict(kind="passthrough", g=g, x=p, mp=mp)
    for g, n in itertools.product(range(len(VALUES)), range(len(FLAGS))):
        for dt in (None, "f32", "f16", "bf16"):
            yield dict(kind="dtype", g=g, n=n, dt=dt)


def put(d, k, v):
    if v is not None:
        d[k] = v
    return d


def run_params(case):
    k = case["kind"]
    has = {m: list(NAMES[:2]) for m in "xy"}
    dtypes = None
    if k == "linear":
        # a missing parameters section, and an empty one, are both exercised
        models = [("x", put({}, "weight", VALUES[case["x"]])), ("y", put({}, "weight", VALUES[case["y"]]) or None)]
        c = dict(method="linear", models=models, base=None, params=put({}, "weight", VALUES[case["g"]]) or None)
        if all(VALUES[v] is not None and not any(setting(VALUES[v], n) for n in NAMES[:2]) for v in (case["x"], case["y"])):
            return Obs("zero-weights-skipped")  # a weighted average of weight zero has no value
        c["params"] = put(c["params"] or {}, "normalize", False)
    elif k == "ties":
        models = [("x", put({"density": 0.5}, "weight", VALUES[case["x"]])), ("y", None)]
        c = dict(method="ties", models=models, base=case["base"],
                 params=put(put({"lambda": 0.5}, "weight", VALUES[case["g"]]), "normalize", FLAGS[case["n"]]))
        has = {m: list(NAMES[:2]) for m in sorted({"x", "y", case["base"]})}
    elif k == "slerp":
        c = dict(method="slerp", models=[("x", None), ("y", None)], base="x", params=put({}, "t", VALUES[case["g"]]) or None)
    elif k == "passthrough":
        c = dict(method="passthrough", models=[("x", put({}, "scale", VALUES[case["x"]]) or ({} if case["mp"] else None))], base=None,
                 params=put({}, "scale", VALUES[case["g"]]) or None)
        has = {"x": list(NAMES[:2])}
    else:
        c = dict(method="linear", models=[("x", {"weight": 1}), ("y", {"weight": 0.3})], base=None, dtype=case["dt"],
                 params=put(put({}, "normalize", FLAGS[case["n"]]), "weight", VALUES[case["g"]]) or None)
        dtypes = {NAMES[0]: torch.bfloat16, NAMES[1]: torch.float16}
    c["mode"] = ""
    return Obs([k, *check(c, has, dtypes)])


# ---------------------------------------------------------------- formats
def gen_formats(tier):
    opts = list(itertools.product((0, 1), repeat=4))
    for fx, fy, fz in itertools.product(EXT, repeat=3):
        if tier == "quick" and len({fx, fy, fz}) == 3 and "st" not in (fx, fz):
            continue
        for lazy, async_, clone, unsafe in opts:
            for shard in ("5B", "20", "40"):
                if tier == "quick" and (hash_(fx + fy + fz) + lazy + 2 * async_ + 4 * clone + unsafe) % 4 and shard != "20":
                    continue
                yield dict(fmts=[fx, fy, fz], lazy=lazy, async_=async_, clone=clone, unsafe=unsafe, shard=shard)


def hash_(s):
    return sum(map(ord, s))


def run_formats(case):
    flags = ["--out-shard-size", case["shard"]]
    for k, f in (("lazy", "--lazy-unpickle"), ("async_", "--async-write"), ("clone", "--clone-tensors"), ("unsafe", "--no-safe-serialization")):
        if case[k]:
            flags.append(f)
    has = {m: list(NAMES) for m in "xyz"}
    dtypes = {"a.weight": torch.bfloat16, "b.bias": torch.float32, "c": torch.float16}
    c = dict(method="task_arithmetic", models=[("x", {"weight": 0.5}), ("y", {"weight": 1})], base="z", mode="", params=None)
    return Obs(check(c, has, dtypes, dict(zip("xyz", case["fmts"])), flags,
                     ("pytorch_model", "bin") if case["unsafe"] else ("model", "safetensors")))


# ---------------------------------------------------------------- repetition
RANDOM = {"dare_linear": {"weight": 0.5, "density": 0.5}, "dare_ties": {"weight": 0.5, "density": 0.5}, "della": {"weight": 0.5, "density": 0.5, "epsilon": 0.2},
          "linear": {"weight": 0.5}}
MANY = [f"layer{i}.w" for i in range(6)]


def many(d, tag, fmt="st"):
    p = os.path.join(d, f"{tag}.{EXT[fmt]}")
    write(p, {n: torch.randn((3, 4), generator=torch.Generator().manual_seed(hash_(tag + n))) for n in MANY}, fmt)
    return p


def random_config(d, meth):
    paths = {t: many(d, t) for t in ("p", "q", "base")}
    c = {"merge_method": meth, "models": [{"model": paths[t], "parameters": RANDOM[meth]} for t in ("p", "q")]}
    if meth != "linear":
        c["base_model"] = paths["base"]
    return c


def child(d, seed, flags):
    code = "import sys\nfrom mergekit.scripts.merge_raw_pytorch import main\nmain(sys.argv[1:])"
    env = dict(os.environ, PYTHONHASHSEED=str(seed), TRANSFORMERS_VERBOSITY="error")
    r = subprocess.run([sys.executable, "-c", code, os.path.join(d, "config.yml"), os.path.join(d, f"out{seed}"), *flags], capture_output=True, text=True, env=env)
    if r.returncode:
        raise Violation(f"merge failed: {r.stderr[-300:]}")
    return ckpt.read_dir(os.path.join(d, f"out{seed}"), "model", "safetensors")[0]


def gen_repeat(tier):
    for meth in RANDOM:
        for seed in ([0, 1] if tier == "quick" else [0, 1, 2, 3, 4]):
            yield dict(kind="hash", method=meth, seed=seed)
        for flags in ([], ["--async-write"], ["--clone-tensors"], ["--lazy-unpickle"], ["--out-shard-size", "60B"]):
            yield dict(kind="again", method=meth, flags=flags)
    for meth in RANDOM:
        for which in ("p", "q", "base"):
            for how in ("values", "names", "lazy"):
                yield dict(kind="rewrite", method=meth, which=which, how=how)


def fresh_case(case):
    d = scratch()
    try:
        c = random_config(d, case["method"])
        seed = ["--random-seed", "5"]
        if case["kind"] == "hash":
            yaml.safe_dump(c, open(os.path.join(d, "config.yml"), "w"))
            got = child(d, case["seed"] + 10, seed)
            if err := invoke(d, c, seed):
                raise Violation(f"merge failed: {err}")
            want = ckpt.read_dir(os.path.join(d, "out"), "model", "safetensors")[0]
            compare(got, want, f"{case['method']} in a process with another hash seed")
            return Obs("hash")
        outs = []
        for i, s in enumerate((seed, seed + case.get("flags", []))):
            if i and case["kind"] == "rewrite":
                alter(d, case)
                if case["how"] == "lazy":
                    s = s + ["--lazy-unpickle"]
            if err := invoke(d, c, s, f"o{i}"):
                raise Violation(f"merge failed: {err}")
            outs.append(ckpt.read_dir(os.path.join(d, f"o{i}"), "model", "safetensors")[0])
        if case["kind"] == "again":
            compare(outs[1], outs[0], f"{case['method']} merged again with {case['flags']}")
            return Obs("again")
        other = os.path.join(d, "elsewhere")  # the same files where nothing was merged before
        os.makedirs(other)
        for t in ("p", "q", "base"):
            shutil.copy(os.path.join(d, f"{t}.safetensors"), other)
        moved = yaml.safe_load(yaml.safe_dump(c).replace(d, other))
        if err := invoke(other, moved, s):
            raise Violation(f"merge failed: {err}")
        want = ckpt.read_dir(os.path.join(other, "out"), "model", "safetensors")[0]
        compare(outs[1], want, f"{case['method']} after {case['which']} was rewritten ({case['how']})")
        return Obs(f"rewrite:{case['how']}")
    finally:
        drop(d)


def alter(d, case):
    for t in ("p", "q", "base"):
        if case["how"] == "names":
            p = os.path.join(d, f"{t}.safetensors")
            ts = safetensors.torch.load_file(p)
            ts["extra"] = torch.full((2, 2), float(hash_(t)))
            del ts[MANY[0]]
            safetensors.torch.save_file(ts, p)
        elif t == case["which"]:
            p = os.path.join(d, f"{t}.safetensors")
            ts = safetensors.torch.load_file(p)
            safetensors.torch.save_file({k: v * 2 + 1 for k, v in ts.items()}, p)


FAMILIES = [
    Family("sets", gen_sets, run_sets, "2-3 model files: all distributions of tensor names x strict/union/intersection x methods x base inside/outside of the list"),
    Family("params", gen_params, run_params, "parameter settings (absent, zero, false, filters, gradients) per model x global x tensor"),
    Family("formats", gen_formats, run_formats, "input file formats x options of reading and writing"),
    Family("repeat", gen_repeat, fresh_case, "repetition under a fixed seed: hash seeds, options, rewritten inputs"),
]
