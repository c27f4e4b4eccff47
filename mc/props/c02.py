"""C02: configurations and model references survive being written and read back."""
from __future__ import annotations

import itertools
import json

import yaml

from mc.core import Family, Obs, Violation
from mergekit.card import generate_card
from mergekit.common import ModelPath, ModelReference
from mergekit.config import MergeConfiguration

LEVEL = "model_checking"
ASSUMPTIONS = [
    "written configurations are read back the way mergekit-yaml reads them (yaml.safe_load, then validation)",
    "empty paths and revisions, and models literally called union or base, are out of scope",
    "a reference whose parts contain +, @, spaces or quotes need only survive serialisation, not the one-line text form",
]


# --- references as text ------------------------------------------------------------------------
def gen_text(tier):
    n = 6 if tier == "quick" else 7
    for k in range(1, n + 1):
        for s in itertools.product("a/@+", repeat=k):
            yield "".join(s)
    for k in range(1, n - 1):
        for s in itertools.product("ab@+ \"", repeat=k):
            yield "".join(s)


def ref_parse(s):
    parts = s.split("+")
    if len(parts) > 2:
        return None
    res = []
    for p in parts:
        q = p.split("@")
        if len(q) > 2:
            return None
        res.append((q[0], q[1] if len(q) == 2 else None))
    return res


def fields(r):
    return [(p.path, p.revision) for p in ([r.model] + ([r.lora] if r.lora is not None else []))]


def run_text(s):
    exp = ref_parse(s)
    try:
        r = ModelReference.parse(s)
    except Exception:
        if exp is not None and all(p and v != "" for p, v in exp):
            raise Violation(f"valid reference {s!r} is rejected")
        return Obs((s, "rejected"))
    if exp is None:
        raise Violation(f"malformed reference {s!r} is accepted as {fields(r)}")
    if any(not p or v == "" for p, v in exp):
        return Obs((s, "empty part"))
    if fields(r) != exp or r.override_architecture is not None:
        raise Violation(f"{s!r} parses as {fields(r)}, expected {exp}")
    if ModelReference.model_validate(s) != r:
        raise Violation(f"{s!r}: parse and model_validate disagree")
    if str(r) != s or ModelReference.parse(str(r)) != r or hash(ModelReference.parse(str(r))) != hash(r):
        raise Violation(f"{s!r} becomes {str(r)!r} as text")
    roundtrip_ref(r, s)
    return Obs((s, exp), states=2, transitions=4)


def roundtrip_ref(r, what):
    for mode in ("python", "json"):
        d = r.model_dump(mode=mode)
        if ModelReference.model_validate(d) != r:
            raise Violation(f"{what}: dumped ({mode}) as {d!r}, which reads back as something else")
    j = r.model_dump_json()
    if ModelReference.model_validate(json.loads(j)) != r or ModelReference.model_validate_json(j) != r:
        raise Violation(f"{what}: JSON {j} reads back as something else")
    d = yaml.safe_load(yaml.dump(r.model_dump(mode="json")))
    if ModelReference.model_validate(d) != r:
        raise Violation(f"{what}: through YAML it becomes {d!r}")


PATHS = ["a", "org/model", "/abs/path", "./rel", "~/x", "a b", 'a"b', "a'b", "a+b", "a@b", "1", "null", "true", "1.5", "2024-01-01", "a: b", "#x", "é",
         "- x", "{x}", "x\\y", "*", "a,b", "yes", "0x10", "1e5", " lead", "trail ", "a\tb", "%a", "&a", "!a"]


def refs(tier):
    for p in PATHS:
        yield ModelReference(model=ModelPath(path=p))
        for v in ["main", "v1.0", "1", "a b", "x+y", "abc@d"]:
            yield ModelReference(model=ModelPath(path=p, revision=v))
        for q in PATHS:
            yield ModelReference(model=ModelPath(path=p), lora=ModelPath(path=q))
            yield ModelReference(model=ModelPath(path=p), lora=ModelPath(path=q), override_architecture="Arch")
            for v, w in itertools.product([None, "r1"], repeat=2):
                yield ModelReference(model=ModelPath(path=p, revision=v), lora=ModelPath(path=q, revision=w))
        for o in ["LlamaForCausalLM", "1", "null", "x y"]:
            yield ModelReference(model=ModelPath(path=p), override_architecture=o)
            yield ModelReference(model=ModelPath(path=p, revision="r"), override_architecture=o)


def enc(r):
    return [r.model.path, r.model.revision, r.lora.path if r.lora else None, r.lora.revision if r.lora else None, r.override_architecture]


def dec(x):
    p, v, q, w, o = x
    return ModelReference(model=ModelPath(path=p, revision=v), lora=ModelPath(path=q, revision=w) if q is not None else None, override_architecture=o)


def gen_refs(tier):
    seen = set()
    for r in refs(tier):
        e = tuple(enc(r))
        if e not in seen:
            seen.add(e)
            yield list(e)


def run_refs(x):
    r = dec(x)
    roundtrip_ref(r, str(x))
    if not any(c in (s or "") for s in x[:4] for c in '+@') and x[4] is None:
        if ModelReference.parse(str(r)) != r:
            raise Violation(f"{x}: text form {str(r)!r} reads back as something else")
    # in a configuration, at every place a reference can stand
    for cfg in (
        dict(merge_method="m", models=[dict(model=r), dict(model="other")], base_model=r),
        dict(merge_method="m", slices=[dict(sources=[dict(model=r, layer_range=[0, 1])], base_model=r)], tokenizer_source=r),
        dict(merge_method="m", modules=dict(default=dict(models=[dict(model=r)])), tokenizer=dict(
            source=r, tokens={"t": dict(source=r), "u": dict(source=dict(kind="model_token", model=r, token_id=0), force=True)})),
        dict(merge_method="m", modules=dict(default=dict(slices=[dict(sources=[dict(model=r, layer_range=[2, 9])])]))),
    ):
        roundtrip(MergeConfiguration.model_validate(cfg), str(x))
    return Obs(x, states=5, transitions=20)


# --- whole configurations ----------------------------------------------------------------------
def roundtrip(cfg, what):
    before = cfg.model_dump()
    y = cfg.to_yaml()
    if cfg.model_dump() != before:
        raise Violation(f"{what}: to_yaml changed the configuration")
    back = MergeConfiguration.model_validate(yaml.safe_load(y))
    if back != cfg:
        raise Violation(f"{what}: written as\n{y}\nit reads back as {back!r}, not {cfg!r}")
    if back.to_yaml() != y:
        raise Violation(f"{what}: writing it again gives other text")
    if {str(m) for m in back.referenced_models()} != {str(m) for m in cfg.referenced_models()}:
        raise Violation(f"{what}: other referenced models after reading back")
    return y


SETTINGS = [None, 0, False, True, 1, 0.5, -2.5, 1e-7, 1e22, 3, [0.1, 0.9], [0], [], [1, 0, 0.25], [{"value": 0}], [{"filter": "", "value": 1}],
            [{"filter": "mlp", "value": [0, 1]}, {"value": 0.3}], [{"filter": "*", "value": 2}, {"filter": "null", "value": 3}],
            {"filter": "x", "value": [1, 2]}, {"value": False}]
POSITIONS = ["source", "slice", "module", "global"]


def with_settings(style, vals, name="w"):
    s, sl, mo, gl = [({} if v is None else {name: v, "n": 1.0}) if i % 2 == 0 else (None if v is None else {name: v}) for i, v in enumerate(vals)]
    src = [dict(model="a", parameters=s), dict(model="b")]
    cfg = dict(merge_method="linear", parameters=gl)
    if style == "models":
        cfg["models"] = src
    elif style == "slices":
        cfg["slices"] = [dict(sources=[dict(x, layer_range=[i, i + 4]) for i, x in enumerate(src)], parameters=sl)]
    elif style == "modmodels":
        cfg["modules"] = dict(default=dict(models=src, parameters=mo), other=dict(models=src))
    else:
        cfg["modules"] = dict(default=dict(slices=[dict(sources=[dict(x, layer_range=[i, i + 4]) for i, x in enumerate(src)], parameters=sl),
                                                   dict(sources=[dict(model="c", layer_range=[0, 1])], residual_weight=0.0)], parameters=mo))
    return cfg


def gen_settings(tier):
    n = range(len(SETTINGS))
    sub = [0, 1, 2, 5, 10, 16] if tier == "quick" else n
    for style in ("models", "slices", "modmodels", "modslices"):
        for c in itertools.product(*(sub if (style == "modslices" or (p in dict(models=["source", "global"], slices=["source", "slice", "global"],
                                     modmodels=["source", "module", "global"])[style])) else [0] for p in POSITIONS)):
            yield [style] + list(c)
        for i in n:
            for p in range(4):
                c = [0, 0, 0, 0]
                c[p] = i
                yield [style] + c


def run_settings(case):
    style, idx = case[0], case[1:]
    cfg = MergeConfiguration.model_validate(with_settings(style, [SETTINGS[i] for i in idx]))
    y = roundtrip(cfg, str(case))
    return Obs((case, y))


TEXTS = ["chatml", "auto", "{% for m in messages %}\n  {{ m['content'] }}\n{% endfor %}", "x: {{ y }} # z\n\n  indented\n", "{{ 'é\\t\"q\"' }}", "  {{x}}  ",
         "{{a}}\r\n{{b}}", "{{'''}}", "null", "1", "{{a}}\t\n ", "{{" + "long " * 60 + "}}"]
TOKENS = ["<s>", "a b", "", "null", "1", ": ", "é", "'", "\"", "\n", "#"]
OPT = {
    "base_model": ["base", "org/b@main+l"], "dtype": ["float16"], "out_dtype": ["bfloat16"], "chat_template": TEXTS[:4],
    "tok": ["union", "base", "m/x", dict(), dict(source="base"), dict(source="m+l"), dict(pad_to_multiple_of=8), dict(tokens={}),
            dict(source="union", tokens={t: {} for t in TOKENS}, pad_to_multiple_of=1),
            dict(tokens={"a": dict(source="m", force=True), "b": dict(source=dict(kind="zero")), "c": dict(force=True),
                         "d": dict(source=dict(kind="model_token", model="q@r", token="x y")),
                         "e": dict(source=dict(kind="model_token", model="q", token_id=0), force=False)})],
    "parameters": [dict(t=0.5), {}, dict(normalize=False, lambda_=[0, 1])],
    "name": ["ties", "null", "1"],
}


def gen_options(tier):
    keys = list(OPT)
    for style in ("models", "slices", "modules"):
        for c in itertools.product(*([None] + list(range(len(OPT[k]))) for k in keys)):
            if tier == "quick" and sum(x is not None for x in c) > 4:
                continue
            yield [style] + list(c)
    for i in range(len(TEXTS)):
        yield ["text", i]


def run_options(case):
    if case[0] == "text":
        cfg = MergeConfiguration(merge_method="m", models=[dict(model="a")], chat_template=TEXTS[case[1]])
        return Obs(roundtrip(cfg, str(case)))
    cfg = dict(merge_method="linear")
    cfg[case[0]] = dict(models=[dict(model="a"), dict(model="b@1")], slices=[dict(sources=[dict(model="a", layer_range=[0, 0])])],
                        modules={"default": dict(models=[dict(model="x+y")])})[case[0]]
    for k, i in zip(OPT, case[1:]):
        if i is None:
            continue
        v = OPT[k][i]
        if k == "tok":
            cfg["tokenizer_source" if isinstance(v, str) else "tokenizer"] = v
        elif k == "name":
            cfg["merge_method"] = v
        else:
            cfg[k] = v
    c = MergeConfiguration.model_validate(cfg)
    y = roundtrip(c, str(case))
    return Obs((case, y))


def gen_card(tier):
    for style in ("models", "slices", "modules"):
        for base in (None, "org/base", "org/a"):
            for method in ("linear", "slerp", "ties", "unknown_method"):
                for second in ("org/b", "/local/b", "org/b+org/lora", "org/b@rev"):
                    yield [style, base, method, second]


def run_card(case):
    """The card shows the configuration verbatim and names every merged model."""
    style, base, method, second = case
    cfg = dict(merge_method=method)
    if base:
        cfg["base_model"] = base
    ms = [dict(model="org/a"), dict(model=second)]
    cfg[style] = dict(models=ms, slices=[dict(sources=[dict(m, layer_range=[0, 2]) for m in ms])], modules={"default": dict(models=ms)})[style]
    c = MergeConfiguration.model_validate(cfg)
    y = c.to_yaml()
    card = generate_card(c, y, name="some-name")
    block = card.split("```yaml\n", 1)[1].split("\n```", 1)[0]
    if MergeConfiguration.model_validate(yaml.safe_load(block)) != c:
        raise Violation(f"{case}: the configuration shown in the card reads back differently")
    meta = yaml.safe_load(card.split("---\n")[1])
    head = card.split("### Configuration")[0]
    for r in c.referenced_models():
        for p in [r.model] + ([r.lora] if r.lora else []):
            if p.path not in head.split("### Merge Method")[1]:
                raise Violation(f"{case}: {p.path} is not named in the card")
            if not p.path.startswith("/") and p.path not in meta["base_model"]:
                raise Violation(f"{case}: {p.path} is not in the card's base_model list {meta['base_model']}")
    if any(p.startswith("/") for p in meta["base_model"]) or len(set(meta["base_model"])) != len(meta["base_model"]):
        raise Violation(f"{case}: card's base_model list is {meta['base_model']}")
    if "# some-name" not in card or "mergekit" not in meta["tags"]:
        raise Violation(f"{case}: card lacks name or tags")
    return Obs((case, card))


# --- rejected configurations -------------------------------------------------------------------
def gen_reject(tier):
    for c in itertools.product([None, "empty", "full"], repeat=3):
        for t1 in (None, "union", "m"):
            for t2 in (None, "empty", "full"):
                yield ["top", *c, t1, t2]
    for c in itertools.product([None, "empty", "full"], repeat=2):
        yield ["module", *c]
    for c in itertools.product([None, 0, 3], [None, "", "x"], ["model_token", "zero", "other", None], [None, "m"]):
        yield ["token", *c]
    for k in ("merge_method", "model", "sources", "layer_range"):
        yield ["missing", k]
    for r in ("a+b+c", "a@b@c", "a@1@2+b", "a+b@1@2", "+++", "a++b"):
        for pos in ("model", "base_model", "tokenizer_source", "slice_base", "tokenizer"):
            yield ["ref", r, pos]


def run_reject(case):
    kind = case[0]
    m = [dict(model="a")]
    s = [dict(sources=[dict(model="a", layer_range=[0, 1])])]
    mod = {"d": dict(models=m)}
    cfg = dict(merge_method="m")
    ok = True
    if kind == "top":
        for k, v, full in zip(("models", "slices", "modules"), case[1:4], (m, s, mod)):
            if v:
                cfg[k] = full if v == "full" else type(full)()
        if case[4]:
            cfg["tokenizer_source"] = case[4]
        if case[5]:
            cfg["tokenizer"] = {} if case[5] == "empty" else dict(source="base")
        ok = sum(v == "full" for v in case[1:4]) == 1 and not (case[4] and case[5])
    elif kind == "module":
        d = {}
        for k, v, full in zip(("models", "slices"), case[1:3], (m, s)):
            if v:
                d[k] = full if v == "full" else []
        cfg["modules"] = {"d": d}
        ok = sum(v == "full" for v in case[1:3]) == 1
    elif kind == "token":
        d = {}
        for k, v in zip(("token_id", "token", "kind", "model"), case[1:]):
            if v is not None:
                d[k] = v
        cfg.update(models=m, tokenizer=dict(tokens={"t": dict(source=d)}))
        tid, tok, kd, md = case[1:]
        if kd == "zero":
            return Obs(case)  # extra keys beside kind: zero are not the property's business
        if kd != "model_token":
            return Obs(case)
        ok = md is not None and (tid is None) != (tok is None)
        if not ok and md is not None:
            # {kind: model_token, model: m} could also be read as a plain model reference; only both/neither counts
            try:
                c = MergeConfiguration.model_validate(cfg)
            except Exception:
                return Obs((case, "rejected"))
            src = c.tokenizer.tokens["t"].source
            if isinstance(src, ModelReference):
                return Obs((case, "reference"))
            raise Violation(f"{case}: accepted as {src!r}")
    elif kind == "missing":
        cfg.update(slices=s)
        import copy
        cfg = copy.deepcopy(cfg)
        if case[1] == "merge_method":
            del cfg["merge_method"]
        elif case[1] == "sources":
            del cfg["slices"][0]["sources"]
        else:
            del cfg["slices"][0]["sources"][0][case[1]]
        ok = False
    else:
        cfg["models"] = [dict(model=case[1] if case[2] == "model" else "a")]
        if case[2] in ("base_model", "tokenizer_source"):
            cfg[case[2]] = case[1]
        elif case[2] == "tokenizer":
            cfg["tokenizer"] = dict(source=case[1])
        elif case[2] == "slice_base":
            del cfg["models"]
            cfg["slices"] = [dict(sources=[dict(model="a", layer_range=[0, 1])], base_model=case[1])]
        ok = False
    try:
        c = MergeConfiguration.model_validate(cfg)
    except Exception as e:
        if ok:
            raise Violation(f"{case}: valid configuration {cfg} rejected: {e}")
        return Obs((case, "rejected"))
    if not ok:
        raise Violation(f"{case}: invalid configuration {cfg} accepted")
    roundtrip(c, str(case))
    return Obs((case, "accepted"))


FAMILIES = [
    Family("text", gen_text, run_text, chunk=200, rule="all strings up to length 6 (7) over {a / @ +} and up to 4 (5) over {a b @ + space quote}"),
    Family("references", gen_refs, run_refs, chunk=50, rule="32 paths x revisions x 32 adapters x override, at every position of a configuration"),
    Family("settings", gen_settings, run_settings, chunk=100, rule="20 parameter settings at 4 levels, 4 styles (quick: all pairs over 6)"),
    Family("options", gen_options, run_options, chunk=200, rule="all combinations of optional fields (quick: at most 4 set)"),
    Family("cards", gen_card, run_card, rule="styles x base x method x kinds of paths"),
    Family("rejected", gen_reject, run_reject, rule="all presence combinations of exclusive fields; malformed references at every position"),
]
