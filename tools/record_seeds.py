"""record_seeds.py LOG...: notes which units caught each planted bug (from tryseed logs) in tools/seed_results.json"""
import json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(H, "seed_results.json")
res = json.load(open(f)) if os.path.exists(f) else {}
for p in sys.argv[1:]:
    t = open(p).read()
    s = os.path.basename(p)[:-4]
    if not os.path.isdir(os.path.join(os.path.dirname(H), "seeded", s)):
        continue
    got = []
    for m in re.finditer(r"^check (C\d+) rc=(\d)\n((?:(?!check C).*\n?)*)", t, re.M):
        if m.group(2) == "1":
            u = re.findall(r"^  ([a-z_0-9]+)(?:\[|:)", m.group(3), re.M)
            got.append(m.group(1) + (" (" + ", ".join(sorted(set(u))) + ")" if u else ""))
    res[s] = "; ".join(got) or "missed"
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(os.path.dirname(H), "seeded", k))}
json.dump(res, open(f, "w"), indent=1, sort_keys=True)
