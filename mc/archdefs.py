"""Independent expansion of the shipped architecture definitions into tensor names."""
from __future__ import annotations

import json
import os
import re

from mc.core import REPO

DIR = os.path.join(REPO, "mergekit", "_data", "architectures")


def load(name):
    with open(os.path.join(DIR, name + ".json")) as f:
        return json.load(f)


def modules(d):
    """-> [(module name, prefix, definition)]"""
    if d.get("kind") == "modular":
        return [(k, m.get("weight_prefix") or "", m["architecture"]) for k, m in d["modules"].items()]
    return [("default", "", d)]


def subst(s, n, i):
    def f(m):
        base = {"num_layers": n, "layer_index": i}[m.group(1)]
        return str(base + int(m.group(2) or 0))

    return re.sub(r"\$\{(num_layers|layer_index)([+-]1)?\}", f, s)


def weight(w, prefix, n, i=None):
    r = dict(w)
    r["name"] = prefix + subst(w["name"], n, i)
    for k in ("aliases", "tied_names"):
        r[k] = [prefix + subst(x, n, i) for x in w.get(k) or []]
    return r


def expand(prefix, a, n):
    """-> (pre, [layers], post) lists of weight dicts for n layers"""
    return ([weight(w, prefix, n) for w in a["pre_weights"]],
            [[weight(w, prefix, n, i) for w in a["layer_templates"]["weights"]] for i in range(n)],
            [weight(w, prefix, n) for w in a["post_weights"]])
