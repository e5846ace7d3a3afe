"""Concrete side of a check: the unpatched code, on solver models and seeds.

Phase 1 (while the solver works): seeded validation runs of every harness.
Phase 2: replays of the solver's path models and counterexamples.
"""
import json
import logging
import os
import random
import sys
import time
import zlib


def main():
    prop, tier, out, workers = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    import torch

    torch.set_num_threads(1)
    from vsym import obl
    from vsym.harness import run_concrete
    from vsym.pool import run_units

    logging.disable(logging.CRITICAL)
    mod = obl.load(prop)
    for m in getattr(mod, "IMPORTS", []):
        __import__(m)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VSYM_ONLY")
    us = [(u, f, o) for u, f, o in obl.units(mod, tier) if not only or only in u]
    fns = {u: f for u, f, o in us}

    def one(uid, values, rseed):
        rng = random.Random(rseed) if rseed is not None else None
        torch.manual_seed(rseed or 0)
        random.seed(rseed or 0)
        t0 = time.time()
        msg, ctx, kind = run_concrete(fns[uid], values, rng)
        return dict(msg=msg, kind=kind, reached=ctx.reached, t=round(time.time() - t0, 3),
                    log=ctx.log if msg else None)

    def batch(uid, items):
        def thunk():
            res = []
            for tag, values, rs in items:
                r = one(uid, values, rs)
                r["tag"] = tag
                res.append(r)
                if r["msg"] and tag != "sample":
                    break
            return dict(status="ok", runs=res)

        return thunk

    jobs = []
    for uid, fn, ob in us:
        k = ob.rand * (4 if tier == "thorough" else 1)
        if k:
            items = [("seed", None, zlib.crc32(uid.encode()) % 100000 + 1000 * seed + i) for i in range(k)]
            jobs.append((uid, batch(uid, items), 120))
    res = {"seeded": {}, "replay": {}}
    for uid, r in run_units(jobs, max(1, workers // 2), out):
        res["seeded"][uid] = r
    # phase 2
    p = os.path.join(out, "sym.json")
    while not os.path.exists(p):
        if os.path.exists(os.path.join(out, "sym.failed")):
            break
        time.sleep(0.05)
    else:
        time.sleep(0.05)
        with open(p) as f:
            sym = json.load(f)
        jobs = []
        for uid, r in sym.items():
            items = [("cex", c["values"], None) for c in r.get("cex") or []]
            items += [("sample", v, None) for v in (r.get("samples") or [])]
            if items:
                jobs.append((uid, batch(uid, items), 120))
        for uid, r in run_units(jobs, workers, out):
            res["replay"][uid] = r
    with open(os.path.join(out, "conc.json.t"), "w") as f:
        json.dump(res, f)
    os.rename(os.path.join(out, "conc.json.t"), os.path.join(out, "conc.json"))


def replay_file(path):
    """Re-runs a recorded counterexample; exit 1 when it still violates."""
    import torch

    with open(path) as f:
        d = json.load(f)
    from vsym import obl
    from vsym.harness import run_concrete

    logging.disable(logging.CRITICAL)
    mod = obl.load(d["property"])
    for u, f, o in obl.units(mod, "thorough"):
        if u == d["unit"]:
            rs = d.get("seed")
            torch.manual_seed(rs or 0)
            random.seed(rs or 0)
            msg, ctx, kind = run_concrete(f, d["values"], random.Random(rs) if rs is not None else None)
            print(f"{d['property']} {u}: {msg or 'holds'}")
            return 1 if msg else 0
    print("unknown unit")
    return 2


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    main()
