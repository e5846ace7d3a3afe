"""Orchestrates one check: symbolic exploration, replay, verdict, evidence."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))


def main():
    if sys.argv[1] == "--replay":
        sys.exit(subprocess.call([sys.executable, "-m", "vsym.concserver", "--replay", sys.argv[2]], cwd=ROOT))
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 800 if tier == "quick" else 6 * 3600
    work = tempfile.mkdtemp(prefix="vsym-run-")
    env = dict(os.environ, VSYM_TMP=work, TQDM_DISABLE="1")
    workers = str(os.environ.get("VSYM_WORKERS") or max(1, min(8, os.cpu_count() or 8)))
    try:
        ps = []
        for m in ("vsym.symserver", "vsym.concserver"):
            ps.append(subprocess.Popen([sys.executable, "-m", m, prop, tier, work, workers],
                                       cwd=ROOT, env=env, stdout=subprocess.DEVNULL,
                                       stderr=None if os.environ.get("VSYM_VERBOSE") else open(os.path.join(work, m + ".err"), "w")))
        try:
            ps[0].wait(timeout=limit)
        except subprocess.TimeoutExpired:
            ps[0].kill()
        if not os.path.exists(os.path.join(work, "sym.json")):
            open(os.path.join(work, "sym.failed"), "w").close()
        try:
            ps[1].wait(timeout=max(30, limit + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            ps[1].kill()
        sym = _load(os.path.join(work, "sym.json")) or {}
        conc = _load(os.path.join(work, "conc.json")) or {"seeded": {}, "replay": {}}
        errs = []
        for m in ("vsym.symserver", "vsym.concserver"):
            p = os.path.join(work, m + ".err")
            if os.path.exists(p):
                txt = open(p).read()
                if "Traceback" in txt:
                    errs.append(m + ": " + txt[-1500:])
        code = verdict(prop, tier, seed, sym, conc, errs, time.time() - t0)
    finally:
        shutil.rmtree(work, True)
    sys.exit(code)


def _load(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None


def _static(prop):
    """bounds/known of the obligations without importing the product."""
    p = os.path.join(ROOT, "checks", prop.lower() + ".py")
    return p


def verdict(prop, tier, seed, sym, conc, errs, wall):
    known = [k for k in (_load(os.path.join(ROOT, "known_findings.json")) or {}).get("findings", [])
             if k["property"] == prop and k.get("status") == "open"]
    viol, knownhit, incon = [], [], []
    replays = reproduced = seeded_runs = spurious = 0
    rdir = os.path.join(ROOT, "evidence", "replay")
    for uid in sorted(set(sym) | set(conc["seeded"]) | set(conc["replay"])):
        fails = []
        for r in (conc["replay"].get(uid) or {}).get("runs", []):
            replays += 1
            if r["msg"]:
                src = sym[uid]["cex"] if r["tag"] == "cex" else sym[uid]["samples"]
                idx = [x for x in conc["replay"][uid]["runs"] if x["tag"] == r["tag"]].index(r)
                fails.append((r["tag"], src[idx]["values"] if r["tag"] == "cex" else src[idx], None, r["msg"]))
                reproduced += 1
            elif r["tag"] == "cex":
                spurious += 1
        for i, r in enumerate((conc["seeded"].get(uid) or {}).get("runs", [])):
            seeded_runs += 1
            if r["msg"]:
                fails.append(("seed", r["log"], None, r["msg"]))
        s = sym.get(uid) or dict(status="error", notes=["no symbolic result"])
        if fails:
            tag, values, rs, msg = fails[0]
            k = [k for k in known if re.search(k["unit"], uid) and all(re.search(k["message"], f[3]) for f in fails)]
            if k:
                knownhit.append((k[0], uid, msg))
                continue
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(uid.encode()).hexdigest()[:8]
            rp = os.path.join(rdir, f"{prop}-{h}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=prop, unit=uid, source=tag, message=msg, values=values, seed=rs,
                               solver_message=(s.get("cex") or [{}])[0].get("message")), f, indent=1)
            viol.append((uid, rp, msg))
        elif s["status"] != "holds":
            incon.append((uid, s["status"], (s.get("notes") or [])[:3],
                          [c["message"] for c in s.get("cex") or []][:2]))
    if not sym and not viol:
        incon.append(("all", "error", errs[:2] or ["symbolic stage produced nothing"], []))
    tot = dict(paths=0, queries=0, branch_queries=0, assert_queries=0, solver_s=0.0, asserts=0,
               trivially_true_asserts=0, unknown=0)
    fns, ops = set(), set()
    held = 0
    samples = []
    per = {}
    reach = 0
    for uid, r in sorted(sym.items()):
        for k in tot:
            tot[k] += r.get("stats", {}).get(k, 0)
        fns |= set(r.get("functions") or [])
        ops |= set(r.get("aten_ops") or [])
        held += r["status"] == "holds"
        reach += r.get("reached_paths", 0)
        per[uid] = dict(status=r["status"], paths=r.get("stats", {}).get("paths"), wall_s=r.get("wall_s"))
        for c in (r.get("samples") or [])[:1]:
            if len(samples) < 3:
                samples.append({"unit": uid, "inputs": _short(c)})
    mod = {}
    try:
        mod = _meta(prop)
    except Exception:
        pass
    cov = dict(
        explanation="bounded symbolic execution of the real code; every assertion decided by SMT over all inputs within the bounds",
        states=tot["paths"], transitions=tot["branch_queries"],
        traces_validated_against_impl=replays, seeded_validation_runs=seeded_runs,
        samples=samples or ["none"],
        units=len(sym), units_holding=held, paths_reaching_assertions=reach,
        queries_discharged=tot["queries"], assertions_checked=tot["asserts"],
        assertion_queries=tot["assert_queries"], closed_by_rewriting=tot["trivially_true_asserts"],
        solver_unknown=tot["unknown"], solver_time_s=round(tot["solver_s"], 2),
        solver="z3 5.3.2 (portfolio default/QF_NRA, then cvc5 1.1.2)",
        functions_encoded=sorted(fns), aten_ops_modelled=sorted(ops),
        bounds=mod.get("bounds", {}), outside_bounds=mod.get("outside", ""),
        per_unit=per, inconclusive=[dict(unit=u, status=st, notes=n, unreproduced=c) for u, st, n, c in incon],
        counterexamples_not_reproduced=spurious, exhaustive=not incon and not viol,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=mod.get("assumptions", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, uid, msg in knownhit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u, st, n, c in incon:
        print(f"INCONCLUSIVE unit={u} status={st} {n} {c}")
    print(f"{prop} {tier}: {held}/{len(sym)} units hold, {tot['paths']} paths, {tot['queries']} queries, "
          f"solver {tot['solver_s']:.1f}s, {replays} replays, {seeded_runs} seeded runs, wall {wall:.1f}s")
    for uid, rp, msg in viol:
        print(f"  {uid}: {msg[:600]}")
        print(f"VIOLATION property={prop} replay={rp}")
    return 1 if viol else 0


def _short(c):
    out = {}
    for k, v in list(c.items())[:12]:
        d = v.get("data") if isinstance(v, dict) else v
        out[k] = d if not isinstance(d, list) else d[:8]
    return out


def _meta(prop):
    """Obligation texts, read in a product-free subprocess-less way."""
    import ast

    src = open(os.path.join(ROOT, "checks", prop.lower() + ".py")).read()
    tree = ast.parse(src)
    out = {"bounds": {}}
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Ob":
            name = ast.literal_eval(n.args[0])
            for k in n.keywords:
                if k.arg == "bounds":
                    out["bounds"][name] = ast.literal_eval(k.value)
    out["assumptions"] = consts.get("ASSUMPTIONS", []) + COMMON
    out["outside"] = consts.get("OUTSIDE", "")
    return out


COMMON = [
    "tensor elements are exact reals: floating-point rounding, overflow and reduced precision are outside the symbolic claim (NaN/inf from 0/0, x/0 and sqrt/log of negatives is modelled); replays run in torch float arithmetic",
    "transcendental functions are uninterpreted with axioms; sqrt is the exact non-negative root",
    "random draws (bernoulli, rand, randn) return arbitrary values of their documented range",
    "trusted: z3/cvc5, the aten operator models in vsym/tensor.py (cross-checked by replaying path models on the unpatched code), CPython",
]

if __name__ == "__main__":
    main()
