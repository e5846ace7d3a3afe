"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks/."""
import ast
import json
import os
import sys

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props  # noqa: E402

NA = getattr(props, "NA", {})
claimed, lines = [], []
for p in props.P:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps(p))
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if p["id"] not in NA:
        assert os.path.exists(f), f
        claimed.append(p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
checks = []
for i in claimed:
    src = open(os.path.join(V, "checks", i.lower() + ".py")).read()
    vals = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("OUTSIDE", "ASSUMPTIONS"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    a = "; ".join(vals.get("ASSUMPTIONS", []))
    checks.append(dict(
        property=i,
        quick_cmd=f"bash run.sh {i} quick",
        thorough_cmd=f"bash run.sh {i} thorough",
        technique="symbolic execution of the real Python/torch code, z3/cvc5 decide every assertion on every path within stated bounds; counterexamples replayed on the unpatched code",
        level="model_checking",
        level_note=("Holds for every value within the bounds in evidence (floats read as real numbers). Assumes: " + (a or "nothing further") + ". Outside: " + vals.get("OUTSIDE", "") + "."),
    ))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo. run.sh --replay <file> re-runs a recorded counterexample on the unpatched code.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(claimed), "claimed", len(NA), "not applicable")
