"""Regenerates DESIGN.md."""
import ast
import glob
import json
import os
import sys

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props  # noqa: E402


def const(n):
    try:
        return ast.literal_eval(n)
    except Exception:
        return ast.unparse(n)


out = [open(os.path.join(H, "design_head.md")).read()]
out.append("## 5. Properties\n")
NA = getattr(props, "NA", {})
for p in props.P:
    i = p["id"]
    out.append(f"### {i} - {p['title']}\n\n{p['statement']}\n")
    out.append("*Anchors:* " + "; ".join(f"{m['name']} ({m['where']})" for m in p["anchors"]["mechanism"]) + ".\n")
    if i in NA:
        out.append(f"*Not applicable:* {NA[i]}\n")
        continue
    tree = ast.parse(open(os.path.join(V, "checks", i.lower() + ".py")).read())
    vals, docs = {}, {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            vals[n.targets[0].id] = n.value
        if isinstance(n, ast.FunctionDef):
            docs[n.name] = (ast.get_docstring(n) or "").replace("\n", " ")
    rows = []
    for c in ast.walk(tree):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "Ob":
            kw = {k.arg: k.value for k in c.keywords if k.arg}
            nm = const(c.args[0])
            fn = ast.unparse(c.args[1]) if len(c.args) > 1 else ""
            rows.append((c.lineno, nm, docs.get(fn, ""), const(kw["bounds"]) if "bounds" in kw else "",
                         "thorough only" if "quick" in kw and const(kw["quick"]) is False else ""))
    out.append("*Decided by* symbolic execution of the functions above; units (what is symbolic, bounds):\n")
    for _, nm, d, b, t in sorted(rows):
        nm = str(nm).replace("`", "")
        out.append(f"- `{nm}`{' (' + t + ')' if t else ''}: {d + ' - ' if d else ''}{b}")
    a = vals.get("ASSUMPTIONS")
    a = ast.literal_eval(a) if a is not None else []
    out.append("\n*Assumes:* " + ("; ".join(a) or "nothing further") + ".")
    if "OUTSIDE" in vals:
        out.append("*Outside:* " + ast.literal_eval(vals["OUTSIDE"]) + ".\n")
out.append("## 6. Planted bugs\n\nEach patch applies to /repo's HEAD, passes the stable tests, and its demo passes without and fails with it "
           "(`bash tools/tryseed.sh ID`).\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
rf = os.path.join(H, "seed_results.json")
res = json.load(open(rf)) if os.path.exists(rf) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    s = os.path.basename(os.path.dirname(f))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(s, '')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
