#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design/head.md, one section per property (from spec.py and the check modules), tools/design/tail.md."""
import ast
import glob
import importlib.util
import json
import os

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
spec = importlib.util.spec_from_file_location("spec", os.path.join(H, "spec.py"))
src = open(os.path.join(H, "spec.py")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
kf = json.load(open(os.path.join(V, "KNOWN_FINDINGS.json")))
notes = json.load(open(os.path.join(H, "design", "notes.json")))
seeds = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")))}


def families(pid):
    t = ast.parse(open(os.path.join(V, "spmon", "checks", pid.lower() + ".py")).read())
    doc = {n.name: (ast.get_docstring(n) or "").split("\n")[0] for n in t.body if isinstance(n, ast.FunctionDef)}
    const = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                const[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Family":
            k = {x.arg: getattr(x.value, "value", None) for x in n.keywords}
            a = [x.value if isinstance(x, ast.Constant) else x for x in n.args]
            name = a[0] if isinstance(a[0], str) else "one per model family"
            fn = getattr(a[1], "id", "") if len(a) > 1 else ""
            q = a[2] if len(a) > 2 else k.get("quick")
            th = a[3] if len(a) > 3 else k.get("thorough")
            num = lambda v: str(v) if isinstance(v, int) else "per model"  # noqa: E731
            out.append(f"`{name}` ({num(q)}/{num(th)})" + (f": {doc[fn]}" if doc.get(fn) else "") + (" (probe of a recorded finding)" if k.get("probe") else ""))
    return out, const


out = [open(os.path.join(H, "design", "head.md")).read()]
for p in props:
    pid = p["id"]
    fam, const = families(pid)
    c = man[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Specified.* {p['statement']}\n")
    out.append(f"*Quantified over.* {p['quantifier'].get('text', '') if isinstance(p.get('quantifier'), dict) else ''}\n")
    out.append(f"*Oracle and method.* {c['technique']}. {c['level_note']}\n".replace("..", "."))
    out.append("*Workloads (cases quick/thorough).* " + "; ".join(fam) + ".\n")
    if const.get("ASSUMPTIONS"):
        out.append("*Assumptions and bounds.* " + "; ".join(const["ASSUMPTIONS"]) + f". Counted as {const.get('RULE', '')}.\n")
    why = p.get("why_tests_cant", "")
    if why:
        out.append(f"*Why tests cannot settle it.* {why}\n")
    if notes.get(pid):
        out.append(f"*Remarks.* {notes[pid]}\n")
    fs = [f for f in kf["findings"] if f["property"] == pid]
    if fs:
        out.append("*Known findings.* " + "; ".join(f"`{f['id']}`: {f['what']}" for f in fs) + ".\n")
    sd = [f"`{k}` ({v['needs']})" for k, v in seeds.items() if v["property"] == pid]
    if sd:
        out.append("*Planted bugs caught.* " + "; ".join(sd) + ".\n")
out.append(open(os.path.join(H, "design", "tail.md")).read().replace("@FIXED@", "\n".join("- " + f for f in kf["fixed"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len("\n".join(out)), "characters")
