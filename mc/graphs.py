"""Synthetic tasks and small-DAG enumeration shared by the executor properties."""
from __future__ import annotations

import itertools
import threading
import weakref
from typing import Any, Dict, Optional, Tuple

from mergekit.graph import Task


class Val:
    """A task result: unique, weak-referenceable, remembers which task made it from what."""

    __slots__ = ("node", "args", "serial", "__weakref__")

    def __init__(self, node, args, serial):
        self.node = node
        self.args = args  # {argname: (node, serial)}
        self.serial = serial


class Log:
    def __init__(self):
        self.lock = threading.Lock()
        self.events = []  # (node, args, serial, thread ident)
        self.alive = {}  # serial -> weakref
        self.fail = None
        self.hook = None

    def execute(self, node, kwargs):
        if self.hook:
            self.hook(node, kwargs)
        args = {}
        for k, v in kwargs.items():
            if not isinstance(v, Val):
                args[k] = ("BAD", repr(v))
            else:
                args[k] = (v.node, v.serial)
        with self.lock:
            serial = len(self.events)
            self.events.append((node, args, serial, threading.get_ident()))
        if self.fail == node:
            raise NodeFailed(node)
        v = Val(node, args, serial)
        self.alive[serial] = weakref.ref(v)
        return v


class NodeFailed(Exception):
    pass


LOG: Log = Log()


def reset():
    global LOG
    LOG = Log()
    return LOG


class Node(Task[Any]):
    idx: int
    deps: Tuple[Tuple[str, "Node"], ...] = ()
    prio: int = 0
    label: Optional[str] = None
    acc: bool = False
    main_only: bool = False
    per_gpu: bool = False

    def arguments(self) -> Dict[str, Task]:
        return dict(self.deps)

    def execute(self, **kwargs):
        return LOG.execute(self.idx, kwargs)

    def priority(self) -> int:
        return self.prio

    def group_label(self) -> Optional[str]:
        return self.label

    def uses_accelerator(self) -> bool:
        return self.acc

    def main_thread_only(self) -> bool:
        return self.main_only

    def duplicate_per_gpu(self) -> bool:
        return self.per_gpu


Node.model_rebuild()


def all_edge_sets(n):
    pairs = [(i, j) for j in range(n) for i in range(j)]
    for r in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, r):
            yield [list(e) for e in es]


def build(n, edges, attrs, copies=False):
    """attrs[i] -> kwargs for Node i. copies: every reference is a distinct, equal object."""
    deps = {j: [i for (i, jj) in edges if jj == j] for j in range(n)}

    def make(i):
        return Node(idx=i, deps=tuple((f"a{d}", get(d)) for d in deps[i]), **attrs[i])

    cache = {}

    def get(i):
        if copies:
            return make(i)
        if i not in cache:
            cache[i] = make(i)
        return cache[i]

    return [get(i) for i in range(n)], deps


def needed(n, deps, targets, cached=()):
    """Nodes that must run: reachable from the targets, not going through cached nodes."""
    res, todo = set(), list(targets)
    while todo:
        x = todo.pop()
        if x in res or x in cached:
            continue
        res.add(x)
        todo.extend(deps[x])
    return res
