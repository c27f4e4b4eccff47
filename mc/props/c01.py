"""C01: the value each tensor's merge gets for each parameter, for all combinations of settings."""
from __future__ import annotations

import itertools
import os

import torch
import transformers  # noqa: F401

from mc import core, tiny
from mc.core import Family, HarnessError, Obs, Violation, scratch
from mergekit.architecture import get_architecture_info
from mergekit.common import ModelReference
from mergekit.config import MergeConfiguration
from mergekit.graph import Task
from mergekit.io.tasks import LoaderCache
from mergekit.merge_methods import REGISTERED_MERGE_METHODS, MergeMethod
from mergekit.merge_methods.base import ConfigParameterDef
from mergekit.merge_methods.linear import LinearMerge
from mergekit.options import MergeOptions
from mergekit.plan import MergePlanner

LEVEL = "model_checking"
ASSUMPTIONS = [
    "observed: what the planner hands to a (recording) merge method for every tensor of a small llama-layout model",
    "per-model filters see the source tensor's name, global ones the output tensor's name",
    "outside the layers a gradient has its first value; in a slice of one layer its last",
]

RECORD = []


class Recorder(MergeMethod):
    def __init__(self, nm, tensor, glob):
        self.nm, self.t, self.g = nm, tensor, glob

    def name(self):
        return self.nm

    def tensor_parameters(self):
        return self.t

    def parameters(self):
        return self.g

    def make_task(self, *, output_weight, tensors, parameters, tensor_parameters, base_model, **kw):
        RECORD.append((output_weight.name, dict(parameters.items()),
                       {m: dict(tensor_parameters[m].items()) for m in tensor_parameters.keys()}, base_model,
                       {m: w.name for m, w in tensors.weight_info.items()}))
        return Nothing(output_weight.name)


class Nothing(Task[torch.Tensor]):
    what: str

    def __init__(self, what):
        super().__init__(what=what)

    def arguments(self):
        return {}

    def execute(self):
        return torch.zeros(1)


P = ConfigParameterDef


def setup(tier):
    REGISTERED_MERGE_METHODS["mc_rec"] = Recorder(
        "mc_rec", [P(name="w", required=False, default_value=0.125)], [P(name="g", required=False, default_value=0.375)])
    REGISTERED_MERGE_METHODS["mc_req"] = Recorder("mc_req", [P(name="w", required=True)], [P(name="g", required=True)])
    REGISTERED_MERGE_METHODS["mc_reqw"] = Recorder("mc_reqw", [P(name="w", required=True)], [])


_models = {}


def models():
    if os.getpid() not in _models:
        root = scratch("m")
        for tag in "ab":
            tiny.make_llama(os.path.join(root, tag), tag, 5)
        _models[os.getpid()] = root
    return _models[os.getpid()]


# --- the reference: settings as plain data -----------------------------------------------------
ABSENT = "absent"


def ref_eval(setting, name, t):
    """-> number or None"""
    if isinstance(setting, bool) or isinstance(setting, (int, float)):
        return float(setting)
    if isinstance(setting, dict):
        setting = [setting]
    if all(not isinstance(e, dict) for e in setting):
        x = t * (len(setting) - 1)
        lo = min(int(x + 1e-9), len(setting) - 1)
        hi = min(lo + 1, len(setting) - 1)
        return float(setting[lo]) + (x - lo) * (float(setting[hi]) - float(setting[lo]))
    for c in setting:
        f = c.get("filter")
        if f is None or f == "*" or f in name:
            return ref_eval(c["value"], name, t)
    return None


def ref_lookup(chain, name, t, default):
    for s in chain:
        if s == ABSENT:
            continue
        v = ref_eval(s, name, t)
        if v is not None:
            return v
    return default


def close(a, b):
    if a is None or b is None:
        return a is b
    return abs(float(a) - float(b)) < 1e-9


def form(kind, base):
    """A setting of the given form; base keeps values distinct between levels."""
    b = base
    return {
        "absent": ABSENT, "zero": 0, "false": False, "num": b, "neg": -b, "grad2": [b, b + 1], "grad3": [b, 0, b + 4],
        "grad1": [b + 0.25],
        "hit": [{"filter": "self_attn", "value": b + 2}], "miss": [{"filter": "nothing_has_this", "value": b + 3}],
        "missstar": [{"filter": "mlp", "value": b + 5}, {"filter": "*", "value": b + 6}],
        "missdef": [{"filter": "mlp", "value": 0}, {"value": b + 7}],
        "order": [{"filter": "self_attn.q_proj", "value": b + 8}, {"filter": "self_attn", "value": b + 9}, {"filter": "norm", "value": [0, b]}],
        "condgrad": [{"filter": "mlp", "value": [b, b + 2, b]}, {"filter": "layers.1.", "value": b + 11}],
        "single": {"filter": "mlp", "value": b + 12},
        "singleall": {"value": [b, b + 13]},
        "star_first": [{"filter": "*", "value": b + 14}, {"filter": "mlp", "value": b + 15}],
        "emptyfilter": [{"filter": "", "value": b + 16}],
    }[kind]


def put(d, key, setting):
    if setting != ABSENT or isinstance(setting, bool):
        d[key] = setting


def plan(cfg_dict):
    cfg = MergeConfiguration.model_validate(cfg_dict)
    opts = MergeOptions()
    LoaderCache().setup(opts)
    arch = get_architecture_info(cfg, opts)
    out_cfg = cfg.referenced_models()[0].config()
    del RECORD[:]
    MergePlanner(cfg, arch, opts, out_cfg).plan_in_memory()
    return list(RECORD)


def layout_names(slices):
    """-> [(out name, {model: source name}, slice index, t)] for the llama layout; slices: [[(model, lo, hi)...]]"""
    res = [("model.embed_tokens.weight", {m: "model.embed_tokens.weight" for m, _, _ in slices[0]}, 0, 0.0)]
    k = 0
    for si, srcs in enumerate(slices):
        n = srcs[0][2] - srcs[0][1]
        for i in range(n):
            t = i / (n - 1) if n > 1 else 1.0
            for suffix, _s in tiny.LAYER:
                res.append((f"model.layers.{k}.{suffix}", {m: f"model.layers.{lo + i}.{suffix}" for m, lo, _hi in srcs}, si, t))
            k += 1
    for nm in ("model.norm.weight", "lm_head.weight"):
        res.append((nm, {m: nm for m, _, _ in slices[-1]}, len(slices) - 1, 0.0))
    return res


def check(records, slices, src_p, slice_p, module_p, global_p, src_g, slice_g, module_g, global_g, what, defaults=(0.125, 0.375)):
    """src_p[(slice, model)], slice_p[slice], ... : settings of w; *_g: of g (src_g is never consulted for g)."""
    exp = layout_names(slices)
    got = {r[0]: r for r in records}
    if len(records) != len(exp) or set(got) != {e[0] for e in exp}:
        raise Violation(f"{what}: planned tensors {[r[0] for r in records]}, expected {[e[0] for e in exp]}")
    vals = []
    for name, srcs, si, t in exp:
        _n, gp, tp, _b, _w = got[name]
        wg = ref_lookup([slice_g.get(si, ABSENT), module_g, global_g], name, t, defaults[1])
        if "g" in gp and not close(gp["g"], wg):
            raise Violation(f"{what}: {name} gets g={gp['g']}, expected {wg}")
        if {str(m) for m in tp} != set(srcs):
            raise Violation(f"{what}: {name} gets parameters for {sorted(map(str, tp))}, expected {sorted(srcs)}")
        for m, p in tp.items():
            ww = ref_lookup([src_p.get((si, str(m)), ABSENT), slice_p.get(si, ABSENT), module_p, global_p], srcs[str(m)], t, defaults[0])
            if not close(p["w"], ww):
                raise Violation(f"{what}: {name} gets w={p['w']} for {os.path.basename(str(m))}, expected {ww}")
            vals.append(round(float(p["w"]), 4) if p["w"] is not None else None)
    return vals


FORMS = ["absent", "zero", "num", "grad3", "hit", "miss", "missstar", "condgrad"]
MORE = ["false", "neg", "grad2", "grad1", "missdef", "order", "single", "singleall", "star_first", "emptyfilter"]


def build(style, fs, fsl, fm, fg, method="mc_rec", other=True, base=None):
    """A configuration with w set in the given forms at source, slice, module and global level; g likewise but at slice, module, global."""
    root = models()
    A, B = os.path.join(root, "a"), os.path.join(root, "b")
    s, sl, mo, gl = form(fs, 1.0), form(fsl, 20.0), form(fm, 300.0), form(fg, 4000.0)
    src_p, slice_p, slice_g = {}, {}, {}
    pa, pb = {}, {}
    put(pa, "w", s)
    put(pa, "g", 77777)  # a source-level setting of a global parameter is not consulted
    src_p[(0, A)] = s
    if other:
        put(pb, "w", 5.5)
        src_p[(0, B)] = 5.5
    glob = {}
    put(glob, "w", gl)
    put(glob, "g", gl)
    if style == "slices" or style == "modules":
        slp = {}
        put(slp, "w", sl)
        put(slp, "g", sl)
        slices = [[(A, 1, 4), (B, 0, 3)], [(B, 2, 3), (A, 0, 1)]]
        slice_p[0] = slice_g[0] = sl
        src_p[(1, A)] = ABSENT
        src_p[(1, B)] = ABSENT
        sdefs = [
            dict(sources=[dict(model=A, layer_range=[1, 4], parameters=pa), dict(model=B, layer_range=[0, 3], parameters=pb)], parameters=slp),
            dict(sources=[dict(model=B, layer_range=[2, 3]), dict(model=A, layer_range=[0, 1])]),
        ]
        if style == "slices":
            cfg = dict(slices=sdefs)
            mo = ABSENT
        else:
            mp = {}
            put(mp, "w", mo)
            put(mp, "g", mo)
            cfg = dict(modules=dict(default=dict(slices=sdefs, parameters=mp)))
    else:
        mdefs = [dict(model=A, parameters=pa), dict(model=B, parameters=pb)]
        slices = [[(A, 0, 5), (B, 0, 5)]]
        if style == "models":
            cfg = dict(models=mdefs)
            mo = ABSENT
        else:
            mp = {}
            put(mp, "w", mo)
            put(mp, "g", mo)
            cfg = dict(modules=dict(default=dict(models=mdefs, parameters=mp)))
    cfg.update(merge_method=method, parameters=glob)
    if base:
        cfg["base_model"] = {"a": A, "b": B}[base]
    return cfg, (slices, src_p, slice_p, mo, gl, None, slice_g, mo, gl)


def gen(tier):
    forms = FORMS if tier == "quick" else FORMS + MORE
    for c in itertools.product(["modules"], forms, forms, forms, forms if tier == "quick" else FORMS):
        yield list(c)
    for f1, f2 in itertools.product(FORMS + MORE, repeat=2):
        for style in ("slices", "models", "modmodels"):
            yield [style, f1, "absent", "absent", f2]
            yield [style, "absent", f1, "absent", f2]
            yield [style, "miss", f1, f2, "num"]
    for f in FORMS + MORE:
        for pos in range(4):
            c = ["absent"] * 4
            c[pos] = f
            yield ["modules"] + c


def run(case):
    style, fs, fsl, fm, fg = case
    cfg, exp = build(style, fs, fsl, fm, fg)
    rec = plan(cfg)
    vals = check(rec, *exp, what=str(case))
    return Obs((case, vals), states=len(set(vals)), transitions=len(rec))


def gen_req(tier):
    """Required parameters: error exactly when some tensor of some non-base model finds no value."""
    forms = ["absent", "zero", "false", "hit", "miss", "missstar", "num", "emptyfilter"]
    for method in ("mc_req", "mc_reqw"):
        for base in (None, "a", "b"):
            for fs, fsl, fm, fg in itertools.product(forms, ["absent", "hit", "zero"], ["absent", "missstar"], ["absent", "hit", "num"]):
                for other in (True, False):
                    yield [method, base, fs, fsl, fm, fg, other]


def run_req(case):
    method, base, fs, fsl, fm, fg, other = case
    cfg, exp = build("modules", fs, fsl, fm, fg, method=method, base=base, other=other)
    slices, src_p, slice_p, mo, gl, _x, slice_g, _mg, _gg = exp
    basem = cfg.get("base_model")
    missing = False
    for name, srcs, si, t in layout_names(slices):
        if method == "mc_req" and ref_lookup([slice_g.get(si, ABSENT), mo, gl], name, t, None) is None:
            missing = True
        for m, sn in srcs.items():
            if m != basem and ref_lookup([src_p.get((si, m), ABSENT), slice_p.get(si, ABSENT), mo, gl], sn, t, None) is None:
                missing = True
    try:
        rec = plan(cfg)
    except RuntimeError as e:
        if not missing:
            raise Violation(f"{case}: refused although every required parameter has a value: {e}")
        return Obs((case, "refused"))
    if missing:
        raise Violation(f"{case}: a required parameter has no value for some tensor, but the merge is planned")
    vals = check(rec, *exp, what=str(case), defaults=(None, None))
    return Obs((case, vals), transitions=len(rec))


def gen_grad(tier):
    """Gradients: every slice length and gradient length."""
    for n in range(1, 6):
        for k in range(1, 6):
            for vals in itertools.product([0, 1, 8], repeat=k) if k <= (3 if tier == "quick" else 5) else [[0, 1, 8, -2, 3][:k]]:
                yield [n, list(vals)]


def run_grad(case):
    n, g = case
    root = models()
    A, B = os.path.join(root, "a"), os.path.join(root, "b")
    cfg = dict(merge_method="mc_rec", slices=[dict(sources=[dict(model=A, layer_range=[0, n], parameters=dict(w=g)), dict(model=B, layer_range=[5 - n, 5])],
                                                   parameters=dict(g=g, w=[{"filter": "mlp", "value": list(reversed(g))}]))])
    rec = plan(cfg)
    vals = check(rec, [[(A, 0, n), (B, 5 - n, 5)]], {(0, A): g}, {0: [{"filter": "mlp", "value": list(reversed(g))}]}, ABSENT, ABSENT,
                 None, {0: g}, ABSENT, ABSENT, what=str(case))
    for nm, gp, tp, _b, _w in rec:
        for v in [gp["g"]] + [p["w"] for p in tp.values() if p["w"] != 0.125]:
            if not (min(g) - 1e-9 <= v <= max(g) + 1e-9):
                raise Violation(f"{case}: {nm} gets {v}, outside the gradient's range")
    return Obs((case, vals), transitions=len(rec))


FAMILIES = [
    Family("levels", gen, run, setup=setup, rule="8 (18) setting forms at each of source, slice, module, global level; all styles for pairs of 18 forms"),
    Family("required", gen_req, run_req, setup=setup, rule="required parameters x 8 source forms x 3 slice x 2 module x 3 global x base model"),
    Family("gradients", gen_grad, run_grad, setup=setup, rule="slices of 1-5 layers x gradients of 1-5 values over {0,1,8}"),
]
