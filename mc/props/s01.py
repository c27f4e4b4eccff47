"""S01: multi-stage merges: graphs of stages, references, interruption and resumption."""
from __future__ import annotations

import itertools
import json
import os

from mc import crash

crash.ensure_preloaded()

import safetensors.torch
import torch
import transformers  # noqa: F401
import yaml
from click.testing import CliRunner

from mc import e2e, tiny, toks
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.config import MergeConfiguration
from mergekit.scripts import multimerge

LEVEL = "model_checking"
ASSUMPTIONS = [
    "in the families graphs, references and resume the merge of one stage is replaced by a stand-in that records its configuration and writes what a merge writes, in that order; family crash runs the real thing",
    "process death: completed system calls survive, in order",
    "a finished stage is reused although its recipe was edited in between (documented behaviour of --lazy)",
]


class Interrupted(BaseException):
    pass


class Stand:
    """Stand-in for run_merge."""

    def __init__(self, root, stop=None, step=0):
        self.root, self.stop, self.step, self.log = root, stop, step, []

    def __call__(self, cfg, out_path, options, config_source=None):
        n = len(self.log)
        self.log.append((os.path.relpath(out_path, self.root), cfg, options))
        stopping = self.stop == n
        os.makedirs(out_path, exist_ok=True)
        steps = [("model.safetensors", "weights"), ("config.json", "{}"), ("README.md", "card"), ("tokenizer.json", "tokenizer")]
        for i, (f, c) in enumerate(steps):
            if stopping and i == self.step:
                raise Interrupted()
            with open(os.path.join(out_path, f), "w") as fp:
                fp.write(f"{c} of {os.path.basename(out_path)}")
        if stopping:
            raise Interrupted()


def call(args, stand):
    saved = multimerge.run_merge
    multimerge.run_merge = stand
    try:
        return CliRunner().invoke(multimerge.main, args, standalone_mode=True)
    except Interrupted as e:
        class R:
            exit_code, exception, output = 130, e, ""
        return R
    finally:
        multimerge.run_merge = saved


def write_docs(root, docs):
    os.makedirs(root, exist_ok=True)
    p = os.path.join(root, "c.yml")
    with open(p, "w") as f:
        f.write("\n---\n".join(yaml.safe_dump(d) for d in docs))
    return p


def doc(name, models):
    d = {"merge_method": "linear", "models": [{"model": m, "parameters": {"weight": 1.0}} for m in models]}
    if name is not None:
        d["name"] = name
    return d


def cyclic(refs):
    seen, done = set(), set()

    def visit(x):
        if x in done:
            return False
        if x in seen:
            return True
        seen.add(x)
        if any(visit(y) for y in refs[x]):
            return True
        done.add(x)
        return False
    return any(visit(x) for x in refs)


NAMES = ["a", "b", "c", "d"]


def run_graph(case):
    n, masks, order, final, outp = case
    names = NAMES[:n]
    refs = {x: [y for j, y in enumerate(names) if masks[i] >> j & 1] for i, x in enumerate(names + ([None] if final else []))}
    keys = list(refs)
    root = scratch("s")
    inter, out = os.path.join(root, "inter"), os.path.join(root, "final")
    try:
        docs = [doc(keys[i], refs[keys[i]] + [f"/ext/{keys[i]}"]) for i in order]
        p = write_docs(root, docs)
        st = Stand(root)
        args = [p, "-I", inter, "--allow-crimes"] + (["--out-path", out] if outp else [])
        r = call(args, st)
        bad = cyclic(refs) or (final and not outp)
        what = f"stages {refs} in order {[keys[i] for i in order]}"
        if bad:
            if r.exit_code == 0:
                raise Violation(f"{what}: accepted")
            if st.log:
                raise Violation(f"{what}: rejected after {[x[0] for x in st.log]} ran")
            return Obs(("refused", str(case)), transitions=1)
        if r.exit_code != 0:
            raise Violation(f"{what}: fails: {r.exception!r}")
        path = {k: os.path.join("inter", k) if k else "final" for k in keys}
        ran = [x[0] for x in st.log]
        if sorted(ran) != sorted(path.values()):
            raise Violation(f"{what}: ran {ran}, expected each of {sorted(path.values())} once")
        for k in keys:
            for d in refs[k]:
                if ran.index(path[d]) > ran.index(path[k]):
                    raise Violation(f"{what}: {k or 'final'} ran before {d}")
            _o, cfg, opts = st.log[ran.index(path[k])]
            want = MergeConfiguration.model_validate(subst_models(doc(None, refs[k] + [f"/ext/{k}"]), {d: os.path.join(root, path[d]) for d in refs[k]}))
            if cfg != want:
                raise Violation(f"{what}: {k or 'final'} was given {cfg}, expected {want}")
            if not opts.allow_crimes or opts.cuda:
                raise Violation(f"{what}: options were not passed on")
    finally:
        drop(root)
    return Obs((n, tuple(masks), tuple(order), final, outp, tuple(ran)), states=len(ran), transitions=len(ran))


def subst_models(d, m):
    return {**d, "models": [{**x, "model": m.get(x["model"], x["model"])} for x in d["models"]]}


def gen_graph(tier):
    for n in (1, 2, 3):
        for final in (False, True):
            k = n + final
            for masks in itertools.product(range(2 ** n), repeat=k):
                orders = list(itertools.permutations(range(k)))
                if n == 3 and final and tier == "quick":
                    orders = [orders[0], orders[-1]]
                    if any(m >> i & 1 for i, m in enumerate(masks[:n])):
                        continue  # self-references: in the smaller ones and in the thorough tier
                for o in orders:
                    for outp in (False, True) if n < 3 else (True,):
                        yield [n, list(masks), list(o), final, outp]
    if tier == "thorough":
        for masks in itertools.product(range(16), repeat=4):
            if any(m >> i & 1 for i, m in enumerate(masks)):
                continue
            for o in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)):
                yield [4, list(masks), list(o), False, True]


# -- unusable files ---------------------------------------------------------------------------------

def run_bad(case):
    docs, ok = case
    root = scratch("s")
    try:
        p = write_docs(root, docs)
        st = Stand(root)
        r = call([p, "-I", os.path.join(root, "inter"), "--out-path", os.path.join(root, "final")], st)
        if ok != (r.exit_code == 0) or not ok and st.log:
            raise Violation(f"{docs}: exit code {r.exit_code}, ran {[x[0] for x in st.log]}, {r.exception!r}")
    finally:
        drop(root)
    return Obs(str(docs))


def gen_bad(tier):
    good = [doc("a", ["/e"]), doc("b", ["a"]), doc(None, ["b"])]
    extras = [("duplicate name", doc("a", ["/e"]), False), ("second unnamed", doc(None, ["/e"]), False), ("no models", {"name": "x", "merge_method": "linear"}, False),
              ("models and slices", {**doc("x", ["/e"]), "slices": [{"sources": [{"model": "/e", "layer_range": [0, 1]}]}]}, False),
              ("no method", {"name": "x", "models": [{"model": "/e"}]}, False), ("fine", doc("x", ["/e"]), True)]
    for _w, d, ok in extras:
        for pos in range(4):
            yield [good[:pos] + [d] + good[pos:], ok]


# -- where stages can be referred to ----------------------------------------------------------------

def positions(ref):
    """A configuration with a reference at each position; ref(i) names it."""
    return [
        {"merge_method": "ties", "models": [{"model": ref(0), "parameters": {"weight": 0.5, "density": 0.25}}, {"model": "/ext/1"}], "base_model": ref(1), "dtype": "float32",
         "tokenizer_source": ref(2), "chat_template": "auto", "parameters": {"normalize": True, "weight": [{"filter": "mlp", "value": [0, 1]}, {"value": 0.5}]}},
        {"merge_method": "linear", "slices": [{"sources": [{"model": ref(0), "layer_range": [0, 1], "parameters": {"weight": [0.1, 0.9]}}, {"model": "/ext/1", "layer_range": [1, 2]}],
                                               "base_model": ref(1), "parameters": {"weight": 1}}, {"sources": [{"model": ref(2), "layer_range": [0, 2]}]}], "out_dtype": "bfloat16"},
        {"merge_method": "passthrough", "modules": {"m": {"models": [{"model": ref(0), "parameters": {"scale": 2}}]}, "n": {"slices": [{"sources": [{"model": ref(1), "layer_range": [0, 1]}]}], "parameters": {"scale": 0}}},
         "tokenizer": {"source": ref(2), "pad_to_multiple_of": 8, "tokens": {"x": {"source": "/ext/2", "force": True}}}},
        {"merge_method": "linear", "models": [{"model": "/ext/1"}], "tokenizer": {"source": "union", "tokens": {
            "x": {"source": ref(0)}, "y": {"source": {"kind": "model_token", "model": ref(1), "token_id": 3}, "force": True}, "z": {"source": {"kind": "model_token", "model": ref(2), "token": "x"}}, "w": {"source": {"kind": "zero"}}}}},
    ]


FORMS = {
    "plain": lambda s, p: (s, p),
    "lora": lambda s, p: (s + "+/ext/lora", p + "+/ext/lora"),
    "dict": lambda s, p: ({"model": {"path": s}}, {"model": {"path": p}}),
    "arch": lambda s, p: ({"model": s, "lora": "/ext/l", "override_architecture": "LlamaForCausalLM"}, {"model": p, "lora": "/ext/l", "override_architecture": "LlamaForCausalLM"}),
}


def run_ref(case):
    template, mask, form, names, chat = case
    root = scratch("s")
    inter = os.path.join(root, "inter")
    try:
        def given(i):
            return FORMS[form](names[i], "")[0] if mask >> i & 1 else f"/ext/{i}"

        def wanted(i):
            return FORMS[form](names[i], os.path.join(inter, names[i]))[1] if mask >> i & 1 else f"/ext/{i}"
        d, w = positions(given)[template], positions(wanted)[template]
        if chat is not None:
            d["chat_template"] = w["chat_template"] = chat
        want = MergeConfiguration.model_validate(json.loads(json.dumps(w)))
        p = write_docs(root, [{**d, "name": "last"}] + [doc(x, ["/ext/0"]) for x in dict.fromkeys(names)])
        st = Stand(root)
        r = call([p, "-I", inter], st)
        if r.exit_code != 0:
            raise Violation(f"{case}: fails: {r.exception!r}")
        ran = [x[0] for x in st.log]
        got = st.log[ran.index("inter/last")][1]
        if got != want:
            raise Violation(f"{case}: stage was given {got.model_dump(exclude_defaults=True)}, expected {want.model_dump(exclude_defaults=True)}")
        for i in range(3):
            if mask >> i & 1 and ran.index("inter/" + names[i]) > ran.index("inter/last"):
                raise Violation(f"{case}: ran before {names[i]}, which it refers to")
    finally:
        drop(root)
    return Obs(str(case), transitions=len(ran))


def gen_ref(tier):
    clash = ["linear", "ties", "passthrough", "float32", "bfloat16", "auto", "x", "mlp", "m", "weight", "model_token", "chatml", "zero", "normalize", "LlamaForCausalLM"]
    jinja = "{{ a + b + c + d }} @user @system @end of the template"
    for template in range(4):
        for mask in range(8):
            for form in FORMS:
                for names in [["a", "b", "c"], ["a", "a", "a"], ["a", "b", "a"]] + [[c, "b", c] for c in clash]:
                    for chat in (None,) if names != ["a", "b", "c"] else (None, "a", jinja, "a+b", "a@b@c"):
                        yield [template, mask, form, names, chat]


# -- interruption and resumption, with the stand-in --------------------------------------------------

def tree(root):
    res = {}
    for d, _s, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), "rb") as fp:
                res[os.path.relpath(os.path.join(d, f), root)] = fp.read()
    return res


def run_resume(case):
    masks, stops, lazy = case
    n = len(masks)
    keys = NAMES[:n - 1] + [None]
    refs = {k: [NAMES[j] for j in range(n - 1) if masks[i] >> j & 1] for i, k in enumerate(keys)}
    root = scratch("s")
    inter, out = os.path.join(root, "inter"), os.path.join(root, "final")
    try:
        p = write_docs(root, [doc(k, refs[k] + ["/ext/0"]) for k in keys])
        args = [p, "-I", inter, "--out-path", out] + ([] if lazy else ["--no-lazy"])
        path = {k: os.path.join("inter", k) if k else "final" for k in keys}
        done, hist = set(), []
        for stop, step in stops + [[None, 0]]:
            st = Stand(root, stop, step)
            r = call(args, st)
            ran = [x[0] for x in st.log]
            hist.append(ran)
            expect_ran = set(path.values()) - (done if lazy else set())
            hit = stop is not None and stop < len(expect_ran)
            if hit != (r.exit_code == 130) or not hit and r.exit_code != 0:
                raise Violation(f"{case}: {hist}: exit {r.exit_code} {r.exception!r}")
            if len(set(ran)) != len(ran) or not set(ran) <= expect_ran:
                raise Violation(f"{case}: ran {hist}: finished stages {sorted(done)} were not reused")
            if not hit and set(ran) != expect_ran:
                raise Violation(f"{case}: ran {hist}: unfinished stages {sorted(expect_ran - set(ran))} were not done")
            finished = ran[:-1] if hit else ran
            have = done | set()
            for x in ran:
                k = next(k for k in keys if path[k] == x)
                if any(path[d] not in have for d in refs[k]):
                    raise Violation(f"{case}: ran {hist}: {x} ran before its inputs")
                have.add(x)
            done |= set(finished)
        got = tree(root)
        del got["c.yml"]
        want = {f"{path[k]}/{f}": f"{c} of {os.path.basename(path[k])}".encode() for k in keys for f, c in
                (("model.safetensors", "weights"), ("config.json", "{}"), ("README.md", "card"), ("tokenizer.json", "tokenizer"))}
        if got != want:
            raise Violation(f"{case}: after resuming the files differ from those of an uninterrupted run: {sorted(set(got.items()) ^ set(want.items()))[:6]}")
    finally:
        drop(root)
    return Obs((str(case), str(hist)), states=len(hist), transitions=sum(map(len, hist)))


def gen_resume(tier):
    for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
        # references to earlier ones only: all acyclic graphs up to renaming
        for masks in itertools.product(*[range(2 ** i) for i in range(n)]):
            points = [[s, k] for s in range(n) for k in range(5)]
            hist = [[]] + [[p] for p in points]
            if n < 3 or tier == "thorough" and n < 4:
                hist += [[p, q] for p in points for q in points]
            if tier == "thorough" and n < 3:
                hist += [[p, q, r] for p in points for q in points for r in points]
            for h in hist:
                for lazy in (True, False) if len(h) < 2 else (True,):
                    yield [list(masks), h, lazy]


# -- the real thing, interrupted at every file-system operation --------------------------------------

SCEN = {
    "chain": [{"name": "a", "merge_method": "linear", "models": [{"model": "M0", "parameters": {"weight": 0.25}}, {"model": "M1", "parameters": {"weight": 0.75}}], "dtype": "float32"},
              {"merge_method": "slerp", "base_model": "a", "models": [{"model": "a"}, {"model": "M1"}], "parameters": {"t": 0.5}, "dtype": "float32", "tokenizer_source": "union", "chat_template": "chatml"}],
    "fork": [{"merge_method": "passthrough", "slices": [{"sources": [{"model": "a", "layer_range": [0, 1]}]}, {"sources": [{"model": "b", "layer_range": [0, 1]}]}], "dtype": "float32"},
             {"name": "a", "merge_method": "linear", "models": [{"model": "M0", "parameters": {"weight": 1}}, {"model": "M1", "parameters": {"weight": 3}}], "dtype": "float32", "tokenizer_source": "union"},
             {"name": "b", "merge_method": "linear", "models": [{"model": "M1", "parameters": {"weight": 1.0}}], "out_dtype": "bfloat16"}],
}
OPTS = {"one": [], "shards": ["--out-shard-size", "100"], "bin": ["--no-safe-serialization"], "async": ["--async-write", "--write-threads", "1", "--out-shard-size", "100"]}


def mk(d, i):
    tiny.make_llama(d, f"s01-{i}", 1, vocab=4, value=tiny.wide)
    toks.write_tokenizer(d, ["a", "b", "ab", f"<|{i}|>"], merges=[("a", "b")])


def scenario(name):
    ms = {f"M{i}": e2e.per_process(f"s01-{i}", lambda d, i=i: mk(d, i))[0] for i in range(2)}

    def sub(o):
        if isinstance(o, dict):
            return {k: sub(v) for k, v in o.items()}
        if isinstance(o, list):
            return [sub(x) for x in o]
        return ms.get(o, o) if isinstance(o, str) else o
    return sub(SCEN[name])


def real(root, opts):
    args = [os.path.join(root, "c.yml"), "-I", os.path.join(root, "w", "inter"), "--out-path", os.path.join(root, "w", "final"), "--quiet"] + OPTS[opts]

    def go():
        os.chdir(root)
        r = CliRunner().invoke(multimerge.main, args)
        if r.exit_code != 0:
            raise RuntimeError(f"exit {r.exit_code}: {r.exception!r}") from r.exception
        return True
    return go


def settled(root):
    """What the output directories hold, file names of weights apart, absolute paths neutral."""
    res = {}
    for d in ("inter/a", "inter/b", "final"):
        p = os.path.join(root, "w", d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            with open(os.path.join(p, f), "rb") as fp:
                c = fp.read()
            if f.endswith(".bin"):
                c = sorted((k, t.tolist()) for k, t in torch.load(os.path.join(p, f), weights_only=True).items())
            elif f.endswith(".safetensors"):
                c = sorted((k, str(t.dtype), t.tolist()) for k, t in safetensors.torch.load(c).items())
            else:
                c = c.replace(root.encode(), b"ROOT")
            res[f"{d}/{f}"] = c
    return res


_ref = {}


def reference(name, opts):
    key = (os.getpid(), name, opts)
    if key not in _ref:
        root = scratch("ref")
        write_docs(root, scenario(name))
        os.makedirs(os.path.join(root, "w"))
        r = crash.run(real(root, opts), os.path.join(root, "w"))
        if r.status != "ok":
            raise Violation(f"{name} {opts}: uninterrupted run fails: {r.error}")
        _ref[key] = (settled(root), len(r.ops))
        drop(root)
    return _ref[key]


def run_crash(case):
    name, opts, points, mode = case
    want, total = reference(name, opts)
    if points[0] >= total:
        return Obs(("beyond", name, opts), execs=0)
    root = scratch("c")
    try:
        write_docs(root, scenario(name))
        os.makedirs(os.path.join(root, "w"))
        for k in points:
            r = crash.run(real(root, opts), os.path.join(root, "w"), k, {"die": crash.DIE, "torn": crash.TORN}[mode])
            if r.status not in ("died", "ok"):
                raise Violation(f"{case}: {r.status} {r.error}")
            if r.status == "ok":
                break
        if r.status == "died":
            r = crash.run(real(root, opts), os.path.join(root, "w"))
            if r.status != "ok":
                raise Violation(f"{case}: resuming fails: {r.error}")
        got = settled(root)
        if got != want:
            bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            raise Violation(f"{case}: after resuming {bad[:6]} differ from those of an uninterrupted run")
    finally:
        drop(root)
    return Obs((name, opts, tuple(points), mode), states=len(got), transitions=len(points) + 1, execs=len(points) + 1)


def gen_crash(tier):
    top = 160 if tier == "quick" else 260
    for name in SCEN:
        for opts in OPTS:
            for k in range(top):
                for mode in ("die", "torn"):
                    if tier == "quick" and (mode == "torn" or opts == "async" and name == "fork"):
                        continue
                    yield [name, opts, [k], mode]
    if tier == "thorough":
        for k in range(0, 120):
            for j in range(0, 120, 3):
                yield ["chain", "one", [k, j], "die"]


FAMILIES = [
    Family("graphs", gen_graph, run_graph, "all reference graphs of up to 3 named stages and a final one (self-references and cycles included) x all orders in the file (4 named: thorough)"),
    Family("bad", gen_bad, run_bad, "unusable documents at every position"),
    Family("references", gen_ref, run_ref, "all subsets of the positions a model can be named at x four spellings x stage names equal to other settings"),
    Family("resume", gen_resume, run_resume, "all acyclic graphs of up to 3 (4) stages x every interruption point of every stage, histories of up to 2 (3) interruptions"),
    Family("crash", gen_crash, run_crash, "real runs killed at every file-system operation and resumed, 2 pipelines x 4 output layouts", chunk=4),
]
