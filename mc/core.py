"""Runner: enumerates every case of every family of a property, on the real code in /repo.

A property module defines FAMILIES, a list of Family(name, gen, run).
  gen(tier)  yields JSON-able cases, simplest first; the enumeration is finite and complete
             within the bounds the family states.
  run(case)  drives the real code on that case, compares with the oracle, and returns an Obs;
             it raises Violation if the property does not hold.  Any other exception that comes
             out of the code under test is a violation too: every case is one on which the
             oracle says what must happen.
"""
from __future__ import annotations

import argparse
import collections
import hashlib
import importlib
import itertools
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    """The property does not hold on this case. `key` identifies a listed finding, if any."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class HarnessError(Exception):
    """Something is wrong with the machinery itself (never reported as a violation)."""


class Obs:
    """What one case covered: distinct observation, states and transitions of the real code."""

    __slots__ = ("outcome", "states", "transitions", "execs", "known")

    def __init__(self, outcome=None, states=1, transitions=1, execs=1, known=()):
        self.outcome = outcome
        self.states = states
        self.transitions = transitions
        self.execs = execs
        self.known = tuple(known)


class Family:
    def __init__(self, name, gen, run, rule="", timeout=180, workers=8, chunk=None, setup=None):
        self.name = name
        self.gen = gen
        self.run = run
        self.rule = rule
        self.timeout = timeout
        self.workers = workers
        self.chunk = chunk
        self.setup = setup


class CaseTimeout(BaseException):
    pass


_scratch_root = None
_scratch_n = itertools.count()


def scratch(prefix="d"):
    """A fresh scratch directory; everything below the run's root is removed at the end."""
    d = os.path.join(_scratch_root, f"{prefix}-{os.getpid()}-{next(_scratch_n)}")
    os.makedirs(d)
    return d


def drop(path):
    assert os.path.abspath(path).startswith(_scratch_root + os.sep), path
    shutil.rmtree(path, ignore_errors=True)


def setup_scratch():
    global _scratch_root
    base = None
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 2 << 30 and os.access("/dev/shm", os.W_OK):
            base = "/dev/shm"
    except OSError:
        pass
    _scratch_root = tempfile.mkdtemp(prefix="mc-", dir=base)
    return _scratch_root


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


def _alarm(_sig, _frm):
    raise CaseTimeout()


def in_repo(tb):
    return any(fs.filename.startswith(REPO + "/") for fs in traceback.extract_tb(tb))


def run_case(fam, case):
    """-> dict(outcome, states, transitions, execs, viol, known)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.timeout)
    try:
        obs = fam.run(case)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if obs is None:
            obs = Obs()
        return dict(
            o=digest(obs.outcome), s=obs.states, t=obs.transitions, e=obs.execs,
            v=None, k=list(obs.known),
        )
    except CaseTimeout:
        return dict(o="timeout", s=1, t=1, e=1, k=[],
                    v=dict(msg=f"no answer within {fam.timeout} s (hang or livelock)", key=None, tb=""))
    except Violation as e:
        return dict(o="viol", s=1, t=1, e=1, k=[], v=dict(msg=e.msg, key=e.key, tb=traceback.format_exc()))
    except HarnessError as e:
        return dict(o="err", s=0, t=0, e=0, k=[], v=None, err=traceback.format_exc())
    except BaseException as e:  # the code under test failed where the oracle says it must not
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(o="exc", s=1, t=1, e=1, k=[],
                    v=dict(msg=f"unexpected {type(e).__name__}: {str(e)[:300]}", key=None,
                           tb=traceback.format_exc()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_FAM = None


def _worker(batch):
    return [(c, run_case(_FAM, c)) for c in batch]


def _batches(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


def _polled(pool, it):
    """Results in order; a worker process that dies (the pool would wait for it forever) is an error."""
    pids = {p.pid for p in pool._pool}
    while True:
        try:
            yield it.next(timeout=5)
        except StopIteration:
            return
        except multiprocessing.TimeoutError:
            if {p.pid for p in pool._pool} != pids:
                raise HarnessError("a worker process died")


def _init_worker():
    import torch
    torch.set_num_threads(1)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_findings(prop):
    """lines:  finding: property=ID key=KEY text   |   fixed: property=ID COMMIT text"""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].strip().split(None, 2)
                if parts[0] == f"property={prop}":
                    res[parts[1][len("key="):]] = parts[2]
    return res


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--max-viol", type=int, default=3)
    args = ap.parse_args(argv)
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    tier = "thorough" if args.thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args.property
    t0 = time.time()
    root = setup_scratch()
    main_pid = os.getpid()
    try:
        return _main(args, prop, tier, seed, t0)
    finally:
        if os.getpid() == main_pid:
            shutil.rmtree(root, ignore_errors=True)


def write_replay(prop, famname, case, v):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{digest((famname, case))}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(dict(property=prop, family=famname, case=case, message=v["msg"], traceback=v["tb"],
                       how=f"{VERIF}/check.sh {prop} --replay {path}"), f, indent=1)
    return path


def _main(args, prop, tier, seed, t0):
    global _FAM
    sys.path.insert(0, REPO)
    try:
        import torch
        torch.set_num_threads(1)
        mod = importlib.import_module(f"mc.props.{prop.lower()}")
        import mergekit
        if os.path.dirname(os.path.dirname(os.path.abspath(mergekit.__file__))) != os.path.realpath(REPO):
            raise HarnessError(f"mergekit imported from {mergekit.__file__}, not {REPO}")
    except HarnessError:
        raise
    except Exception as e:
        if in_repo(e.__traceback__):
            traceback.print_exc()
            v = dict(msg=f"code under test cannot be loaded: {e}", tb=traceback.format_exc())
            path = write_replay(prop, "import", None, v)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        raise
    findings = load_findings(prop)
    families = [f for f in mod.FAMILIES if not args.family or f.name == args.family]

    if args.replay:
        rep = json.load(open(args.replay))
        fam = next(f for f in mod.FAMILIES if f.name == rep["family"])
        if fam.setup:
            fam.setup(tier)
        r = run_case(fam, rep["case"])
        if r.get("err"):
            print(r["err"])
            return 2
        if r["v"]:
            print(r["v"]["tb"])
            print(r["v"]["msg"])
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("replay: property holds on this case")
        return 0

    tot = collections.Counter()
    per_family = {}
    outcomes = set()
    samples = []
    viols = []
    known_hit = collections.Counter()
    errs = []
    for fam in families:
        if fam.setup:
            fam.setup(tier)
        _FAM = fam
        ft0 = time.time()
        fc = collections.Counter()
        fo = set()
        cases = fam.gen(tier)
        if args.count:
            print(fam.name, sum(1 for _ in cases))
            continue
        first_case = None
        nworkers = min(fam.workers, os.cpu_count() or 1)
        chunk = fam.chunk or 8
        stop = False
        pool = None
        if nworkers > 1:
            pool = multiprocessing.get_context("fork").Pool(nworkers, initializer=_init_worker)
            results = _polled(pool, pool.imap(_worker, _batches(cases, chunk)))
        else:
            results = map(_worker, _batches(cases, chunk))
        try:
            for batch in results:
                for case, r in batch:
                    if first_case is None or fc["cases"] in (7, 101):
                        first_case = case
                        if len(samples) < 12:
                            samples.append({"family": fam.name, "case": case, "outcome": r["o"]})
                    if r.get("err"):
                        errs.append(r["err"])
                        stop = True
                        continue
                    fc["cases"] += 1
                    fc["states"] += r["s"]
                    fc["transitions"] += r["t"]
                    fc["execs"] += r["e"]
                    fo.add(r["o"])
                    for k in r["k"]:
                        known_hit[k] += 1
                    if r["v"]:
                        k = r["v"]["key"]
                        if k is not None and k in findings:
                            known_hit[k] += 1
                        else:
                            viols.append((fam.name, case, r["v"]))
                            if len(viols) >= args.max_viol:
                                stop = True
                if stop:
                    break
        finally:
            if pool is not None:
                pool.terminate()
                pool.join()
        per_family[fam.name] = dict(cases=fc["cases"], states=fc["states"], transitions=fc["transitions"],
                                    executions=fc["execs"], distinct_outcomes=len(fo),
                                    wall_s=round(time.time() - ft0, 1), bound=fam.rule)
        print(f"[{prop}] {fam.name}: cases={fc['cases']} states={fc['states']} transitions={fc['transitions']} "
              f"executions={fc['execs']} outcomes={len(fo)} {time.time()-ft0:.1f}s", flush=True)
        tot.update(fc)
        outcomes |= {(fam.name, o) for o in fo}
        if stop:
            break
    if args.count:
        return 0
    if errs:
        print(errs[0], file=sys.stderr)
        return 2
    unknown = [k for k in known_hit if k not in findings]
    if unknown:
        print(f"harness: cases report unlisted finding keys {unknown}", file=sys.stderr)
        return 2
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=tot["states"], transitions=tot["transitions"],
            traces_validated_against_impl=tot["execs"], evaluations=tot["cases"],
            distinct_nontrivial=len(outcomes),
            rule=getattr(mod, "RULE", "every case of every family below; distinct = distinct observed outcomes"),
            exhaustive=not viols, families=per_family, samples=samples,
            known_findings_hit=dict(known_hit),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(viols),
    )
    tmp = os.path.join(EVIDENCE, f".{prop}.{os.getpid()}")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    for k, text in findings.items():
        if known_hit[k] or args.family is None:
            print(f"KNOWN-FINDING: property={prop} {text}" + ("" if known_hit[k] else " (not reproduced in this run)"))
    for famname, case, v in viols:
        path = write_replay(prop, famname, case, v)
        print(f"--- {famname} {json.dumps(case)[:600]}\n{v['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"[{prop}] {tier}: cases={tot['cases']} states={tot['states']} transitions={tot['transitions']} "
          f"outcomes={len(outcomes)} violations={len(viols)} wall={time.time()-t0:.1f}s")
    return 1 if viols else 0
