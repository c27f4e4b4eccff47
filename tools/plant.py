#!/usr/bin/env python3
"""Create seeded/<id>/ from a spec, and confirm it.

usage: plant.py SPEC.py [--no-tests]     create and confirm
       plant.py --check ID               which check catches it (applies, runs, undoes)

A spec is a python file with ID, PROPERTY, EDITS=[(file, old, new)], NEEDS,
BREAKS and DEMO (python source, run with `common.py` next to it).
"""
import json, os, runpy, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


ENV = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", HF_HUB_OFFLINE="1")
CHECK = os.environ.get("VP_CHECK", f"{V}/check.sh")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def undo():
    sh(f"git -C {REPO} checkout -- .")


def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300, env=ENV)


def create(spec, tests=True):
    s = runpy.run_path(spec)
    d = f"{V}/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "repo dirty"
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip())
    shutil.copy(f"{V}/tools/demo_common.py", d + "/common.py")
    for e in s.get("EXTRA", []):
        shutil.copy(f"{V}/{e}", d)
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\ncd "$(dirname "$0")" && exec /opt/venv/bin/python -B demo.py\n'
    )
    json.dump(
        {"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
        open(d + "/meta.json", "w"), indent=1)
    r = demo(d)
    if r.returncode:
        print(s["ID"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:], r.stderr[-1500:])
        return False
    try:
        for f, a, b in s["EDITS"]:
            p = f"{REPO}/{f}"
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        own = sh(f"git -C {REPO} log --format=%H --author-date-order --reverse").stdout.split()[0]
        for f in {e[0] for e in s["EDITS"]}:
            for h in [x for x in sh(f"git -C {REPO} diff -U0 {f}").stdout.splitlines() if x.startswith("@@")]:
                a, _, n = h.split()[1][1:].partition(",")
                n = int(n or 1)
                if n:
                    bl = sh(f"git -C {REPO} blame -l -s HEAD -L {a},+{n} -- {f}").stdout.splitlines()
                    mine = [b for b in bl if not b.lstrip("^").startswith(own[:38]) ]
                    if mine:
                        print("   NOT ORIGINAL:", mine[0][41:120])
        open(d + "/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
        r = demo(d)
        ok = r.returncode != 0
        print(s["ID"], "demo with bug:", r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:])
        if tests:
            r = sh("/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3", cwd=REPO, env=ENV)
            print("   tests:", r.stdout.strip().splitlines()[-1:])
        return ok
    finally:
        undo()
        sh("find /verif/seeded -name __pycache__ -type d -exec rm -r {} +")


def check(i, prop=None, extra=""):
    d = f"{V}/seeded/{i}"
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "repo dirty"
    try:
        r = sh(f"git -C {REPO} apply {d}/patch.diff")
        assert r.returncode == 0, r.stderr
        r = sh(f"bash {CHECK} {prop} {extra}", timeout=1200)
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(i, prop, "rc", r.returncode, len(lines), (lines or (r.stdout + r.stderr).splitlines()[-3:])[0][:200])
        return r.returncode == 1
    finally:
        undo()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        bad = [i for i in a[1:] if not check(i)]
        print("MISSED:", bad, flush=True)
    else:
        tests = "--no-tests" not in a
        for sp in a:
            if sp.endswith(".py"):
                create(sp, tests)
