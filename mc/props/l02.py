"""L02: lazily opening hostile pickle checkpoints: every placement, opcode and foreign global."""
from __future__ import annotations

import copyreg
import io
import itertools
import os
import pickle
import struct
import subprocess
import sys
import types
import zipfile

import torch
import transformers  # noqa: F401

from mc import ckpt, core
from mc.core import Family, HarnessError, Obs, Violation, drop, scratch
from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex
from mergekit.io.lazy_unpickle import torch_lazy_load
from mergekit.io.loader import TensorLoader

LEVEL = "model_checking"
ASSUMPTIONS = [
    "dangerous callables are stand-ins that only record that they were called",
    "hand-assembled pickles: 9 ways to reference a global x 13 positions x 20 globals; torch's own zip container",
]

HITS = []


def _hit(*a, **k):
    HITS.append(("hit", repr(a)[:60]))
    return 1


class _Cls:
    def __new__(cls, *a, **k):
        HITS.append("new")
        return object.__new__(cls)

    def __init__(self, *a, **k):
        HITS.append("init")

    def __setstate__(self, s):
        HITS.append("setstate")


evil = types.ModuleType("mc_evil")
evil.hit = _hit
evil.Cls = _Cls
_Cls.__module__ = "mc_evil"
_Cls.__qualname__ = "Cls"


def install(tier=None):
    sys.modules["mc_evil"] = evil
    os.system = _hit
    sys.modules["posix"].system = _hit
    subprocess.Popen = _hit
    d = os.path.join(core._scratch_root, "evilpath")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "mc_evil_import.py"), "w") as f:
        f.write("import mc_evil\nmc_evil.hit('import')\ndef f(*a):\n    mc_evil.hit('f')\n")
    if d not in sys.path:
        sys.path.insert(0, d)
    if ("mc_evil", "hit") not in copyreg._extension_registry:
        copyreg.add_extension("mc_evil", "hit", 241)


GLOBALS = [
    ("mc_evil", "hit"), ("mc_evil", "Cls"), ("mc_evil_import", "f"), ("os", "system"), ("posix", "system"), ("subprocess", "Popen"),
    ("builtins", "eval"), ("builtins", "exec"), ("builtins", "__import__"), ("builtins", "getattr"), ("__builtin__", "eval"),
    ("torch", "load"), ("torch.hub", "load"), ("torch.storage", "_load_from_bytes"), ("collections", "OrderedDict.fromkeys"),
    ("torch", "serialization.os.system"), ("torch._utils", "_rebuild_tensor_v2.__globals__"), ("numpy", "load"), ("_codecs", "lookup"),
    ("pickle", "loads"), ("torch._utils", "mc_no_such_name"), ("mc_no_such_module", "OrderedDict"), ("", "eval"), ("mc_evil.hit", "_rebuild_tensor_v2"),
    ("codecs", "encode"), ("torch.serialization", "load"), ("collections", "namedtuple"), ("torch", "DoubleStorage.from_file"),
]
ARG = "__import__('mc_evil').hit('eval')"


def s(x):
    b = x.encode()
    return b"X" + struct.pack("<I", len(b)) + b


def i(n):
    return b"J" + struct.pack("<i", n)


def g(mod, name):
    return b"c" + mod.encode() + b"\n" + name.encode() + b"\n"


def sg(mod, name):
    return s(mod) + s(name) + b"\x93"


def tup(*xs):
    return b"(" + b"".join(xs) + b"t"


WAYS = ["ref", "stackref", "reduce", "stackreduce", "inst", "obj", "newobj", "newobj_ex", "build", "reduce_memo", "ext"]


def attack(way, mod, name):
    a = s(ARG)
    if way == "ref":
        return g(mod, name)
    if way == "stackref":
        return sg(mod, name)
    if way == "reduce":
        return g(mod, name) + tup(a) + b"R"
    if way == "stackreduce":
        return sg(mod, name) + tup(a) + b"R"
    if way == "inst":
        return b"(" + a + b"i" + mod.encode() + b"\n" + name.encode() + b"\n"
    if way == "obj":
        return b"(" + g(mod, name) + a + b"o"
    if way == "newobj":
        return g(mod, name) + tup(a) + b"\x81"
    if way == "newobj_ex":
        return g(mod, name) + tup(a) + b"}" + b"\x92"
    if way == "build":
        return g(mod, name) + b"}" + s("x") + i(1) + b"s" + b"b"
    if way == "reduce_memo":
        return g(mod, name) + b"q\x63" + b"0" + b"h\x63" + tup(a) + b"R"
    if way == "ext":
        return b"\x82\xf1" + tup(a) + b"R"
    raise KeyError(way)


def tensor(storage=None, key=None, offset=None, size=None, hooks=None, fn=None, extra=b""):
    pid = tup(s("storage"), storage or g("torch", "FloatStorage"), key or s("0"), s("cpu"), i(3)) + b"Q"
    return (fn or g("torch._utils", "_rebuild_tensor_v2")) + tup(pid, offset or i(0), size or tup(i(3)), tup(i(1)), b"\x89",
                                                                   hooks or (g("collections", "OrderedDict") + b")R")) + b"R" + extra


def doc(items, tail=b""):
    return b"\x80\x02" + b"}" + b"(" + b"".join(k + v for k, v in items) + b"u" + tail + b"."


PLACES = {
    "none": lambda x: doc([(s("a"), tensor())]),
    "top": lambda x: b"\x80\x02" + x + b".",
    "value": lambda x: doc([(s("a"), tensor()), (s("b"), x)]),
    "value_first": lambda x: doc([(s("b"), x), (s("a"), tensor())]),
    "key": lambda x: doc([(x, tensor()), (s("a"), tensor())]),
    "storage_type": lambda x: doc([(s("a"), tensor(storage=x))]),
    "storage_key": lambda x: doc([(s("a"), tensor(key=x))]),
    "offset": lambda x: doc([(s("a"), tensor(offset=x))]),
    "size": lambda x: doc([(s("a"), tensor(size=x))]),
    "hooks": lambda x: doc([(s("a"), tensor(hooks=x))]),
    "callable": lambda x: doc([(s("a"), tensor(fn=x))]),
    "state": lambda x: doc([(s("a"), tensor(extra=b"}" + s("requires_grad") + x + b"s" + b"b"))]),
    "popped": lambda x: b"\x80\x02" + x + b"0" + doc([(s("a"), tensor())])[2:],
    "nested": lambda x: doc([(s("a"), tensor()), (s("m"), g("collections", "OrderedDict") + tup(b"](" + tup(s("k"), x) + b"e") + b"R")]),
    "tail": lambda x: doc([(s("a"), tensor())], tail=x + b"0"),
    "proto": lambda x: b"\x80\x04" + doc([(s("a"), tensor()), (s("b"), x)])[2:],
}


def build_zip(path, pkl, extra=()):
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("archive/data.pkl", pkl)
        z.writestr("archive/byteorder", "little")
        z.writestr("archive/data/0", torch.tensor([1.0, 2.0, 3.0]).numpy().tobytes())
        z.writestr("archive/version", "3\n")
        for n, b in extra:
            z.writestr("archive/" + n, b)


ORIG = {}


def patched_surface():
    return {
        "pickle.Unpickler": pickle.Unpickler, "pickle.load": pickle.load, "pickle.loads": pickle.loads,
        "torch._utils._rebuild_tensor": torch._utils._rebuild_tensor, "torch._utils._rebuild_tensor_v2": torch._utils._rebuild_tensor_v2,
        "register_parameter": torch.nn.Module.register_parameter, "register_buffer": torch.nn.Module.register_buffer,
        "torch.empty": torch.empty, "torch.zeros": torch.zeros, "torch.load": torch.load,
    }


class Plain:
    def __init__(self, v):
        self.v = v


ORDINARY = pickle.dumps({"x": Plain(3), "t": (1, 2)})
_tb = io.BytesIO()
torch.save({"x": torch.arange(3.0)}, _tb)
TENSOR_FILE = _tb.getvalue()
SURFACE = patched_surface()


def world_as_before(what):
    now = patched_surface()
    for k, v in SURFACE.items():
        if now[k] is not v:
            raise Violation(f"{what}: {k} is left replaced")
    o = pickle.load(io.BytesIO(ORDINARY))
    if not isinstance(o["x"], Plain) or o["x"].v != 3:
        raise Violation(f"{what}: ordinary unpickling gives {o}")
    o = pickle.Unpickler(io.BytesIO(ORDINARY)).load()
    if not isinstance(o["x"], Plain):
        raise Violation(f"{what}: ordinary unpickling gives {o}")
    t = torch.load(io.BytesIO(TENSOR_FILE))["x"]
    if not isinstance(t, torch.Tensor) or t.tolist() != [0.0, 1.0, 2.0]:
        raise Violation(f"{what}: torch.load gives {t!r}")
    if torch.nn.Linear(2, 2).weight.device.type != "cpu":
        raise Violation(f"{what}: new parameters are made on {torch.nn.Linear(2, 2).weight.device}")


ENTRIES = {
    "loader": lambda d: TensorLoader.get(os.path.join(d, "s.bin"), use_lazy_unpickle=True).get_tensor("a"),
    "index": lambda d: LazyTensorLoader.from_disk(d, lazy_unpickle=True).get_tensor("a"),
    "file": lambda d: LazyTensorLoader(ShardedTensorIndex.from_file(os.path.join(d, "s.bin")), lazy_unpickle=True).get_tensor("a"),
}


def gen_attacks(tier):
    for pl in PLACES:
        for mod, name in GLOBALS if pl != "none" else [("-", "-")]:
            yield [pl, mod, name]


def run_attack(case):
    pl, mod, name = case
    d = scratch("e")
    try:
        with open(os.path.join(d, "pytorch_model.bin.index.json"), "w") as f:
            f.write('{"weight_map": {"a": "s.bin"}}')
        outs, n = [], 0
        for way in WAYS:
            if way == "ext" and (mod, name) != ("mc_evil", "hit"):
                continue
            build_zip(os.path.join(d, "s.bin"), PLACES[pl](attack(way, mod, name)))
            for en, entry in ENTRIES.items():
                if pl == "none" and way != "ref":
                    continue
                del HITS[:]
                sys.modules.pop("mc_evil_import", None)
                what = f"{mod}.{name} referenced by {way} at {pl}, opened via {en}"
                try:
                    t = entry(d)
                    err = None
                except Exception as e:
                    t, err = None, e
                n += 1
                if HITS or "mc_evil_import" in sys.modules:
                    raise Violation(f"{what}: executed {HITS or 'module import'}")
                if pl == "none":
                    if err is not None or t.tolist() != [1.0, 2.0, 3.0]:
                        raise Violation(f"a benign hand-made file is not read: {err!r} {t}")
                elif err is None:
                    raise Violation(f"{what}: the file is accepted")
                world_as_before(what)
                outs.append((way, en, type(err).__name__))
        return Obs((case, outs), states=len(set(outs)), transitions=n, execs=n)
    finally:
        drop(d)


# --- histories of good and bad loads, and errors inside the context manager ---
STEPS = ["good", "foreign", "truncated", "notzip", "badpid", "missingkey", "ctx_ok", "ctx_raise", "ctx_nested", "baddata"]


def do_step(st, d):
    good = os.path.join(d, "good.bin")
    if st == "good":
        t = TensorLoader.get(good, use_lazy_unpickle=True).get_tensor("a")
        if t.tolist() != [1.0, 2.0, 3.0]:
            raise Violation(f"a benign file reads {t.tolist()}")
        return "ok"
    if st == "ctx_ok":
        with torch_lazy_load():
            pass
        return "ok"
    if st == "ctx_raise":
        try:
            with torch_lazy_load():
                raise ZeroDivisionError()
        except ZeroDivisionError:
            return "ok"
        raise Violation("an error raised under lazy loading disappears")
    if st == "ctx_nested":
        with torch_lazy_load():
            with torch_lazy_load():
                pass
        return "ok"
    fn = {"foreign": "foreign.bin", "truncated": "trunc.bin", "notzip": "notzip.bin", "badpid": "badpid.bin", "baddata": "baddata.bin"}.get(st, "good.bin")
    try:
        TensorLoader.get(os.path.join(d, fn), use_lazy_unpickle=True).get_tensor("zzz" if st == "missingkey" else "a")
    except Exception as e:
        return type(e).__name__
    raise Violation(f"{st}: no error")


def gen_hist(tier):
    k = 2 if tier == "quick" else 3
    for n in range(1, k + 1):
        for h in itertools.product(STEPS, repeat=n):
            yield list(h)


_hd = {}


def hist_dir():
    if os.getpid() not in _hd:
        d = _hd[os.getpid()] = scratch("h")
        build_zip(os.path.join(d, "good.bin"), PLACES["none"](b""))
        build_zip(os.path.join(d, "foreign.bin"), PLACES["value"](attack("reduce", "mc_evil", "hit")))
        build_zip(os.path.join(d, "badpid.bin"), doc([(s("a"), tup(s("module"), i(1)) + b"Q")]))
        build_zip(os.path.join(d, "baddata.bin"), doc([(s("a"), tensor(key=s("77")))]))
        data = open(os.path.join(d, "good.bin"), "rb").read()
        open(os.path.join(d, "trunc.bin"), "wb").write(data[: len(data) // 2])
        torch.save({"a": torch.ones(2)}, os.path.join(d, "notzip.bin"), _use_new_zipfile_serialization=False)
    return _hd[os.getpid()]


def run_hist(h):
    d = hist_dir()
    del HITS[:]
    out = []
    for st in h:
        out.append(do_step(st, d))
        world_as_before(f"after {h}")
    if HITS:
        raise Violation(f"{h}: executed {HITS}")
    return Obs((h, out), states=len(out), transitions=len(out))


FAMILIES = [
    Family("attacks", gen_attacks, run_attack, setup=install, rule="15 places x 28 globals x 10-11 opcode forms x 3 entry points"),
    Family("histories", gen_hist, run_hist, setup=install, rule="all sequences of <=2 (3) of 10 successful and failing loads; process state compared after each"),
]
