#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, the checks' own bounds and assumptions, the findings and the planted bugs."""
import ast, glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
exec(open(f"{V}/tools/techniques.py").read())
exec(open(f"{V}/tools/design_texts.py").read())
CAUGHT = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}


def module(i):
    t = ast.parse(open(f"{V}/mc/props/{i.lower()}.py").read())
    fams, ass = [], []
    for n in t.body:
        if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
            continue
        if n.targets[0].id == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
        if n.targets[0].id == "FAMILIES":
            for c in n.value.elts:
                kw = {k.arg: k.value for k in c.keywords}
                r = kw.get("rule") or (c.args[3] if len(c.args) > 3 else None)
                fams.append((ast.literal_eval(c.args[0]), ast.literal_eval(r) if r is not None else ""))
    return ast.get_docstring(t), ass, fams


out = [HEAD.strip(), ""]
out += ["## Properties", ""]
for p in PROPS:
    i = p["id"]
    doc, ass, fams = module(i)
    out += [f"### {i} {p['title']}", "", f"*Decided by*: {TECH[i][0]}. {HOW[i].strip()}", ""]
    out += [f"*Why tests cannot settle it*: {p['why_tests_cant']}.", ""]
    out += ["*Explored (quick; thorough in brackets)*:", ""] + [f"- `{n}`: {r}" for n, r in fams] + [""]
    out += ["*Assumptions and limits*:", ""] + [f"- {a}" for a in ass + MORE.get(i, [])] + [""]
    if COST.get(i):
        out += [f"*Cost*: {COST[i]}", ""]
out += [AFTER.strip(), "", "## Genuine defects", "", DEFECTS.strip(), "", "Recorded, not repaired:", ""]
fixed = {}
for l in open(f"{V}/KNOWN_FINDINGS.txt"):
    k, _, r = l.strip().partition(": ")
    if k == "finding":
        a, b, t = r.split(" ", 2)
        out.append(f"- {a[9:]} `{b[4:]}`: {t}")
    elif k == "fixed":
        a, b, t = r.split(" ", 2)
        fixed.setdefault(a[9:], []).append(f"{t} ({b[:8]})")
out += ["", WHYNOT.strip(), "", f"Repaired by a `fix:` commit each ({sum(map(len, fixed.values()))}):", ""]
for k in sorted(fixed):
    out += [f"- {k}:"] + [f"  - {t}" for t in fixed[k]]
out += ["", "## Planted bugs", "", PLANTED.strip(), "", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(f))
    n = f.split("/")[-2]
    out.append(f"| {n} | {d['property']} | {d['needs']} | {CAUGHT.get(n, '?')} |")
out.append("")
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
print(len(out), "blocks")
