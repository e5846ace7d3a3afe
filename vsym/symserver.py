"""Symbolic side of a check: explores every unit, writes sym.json."""
import json
import logging
import os
import sys
import time


def main():
    prop, tier, out, workers = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    from vsym import patches

    patches.install_pydantic()
    import torch

    torch.set_num_threads(1)
    from vsym import obl
    from vsym.harness import explore

    logging.disable(logging.CRITICAL)
    mod = obl.load(prop)
    for m in getattr(mod, "IMPORTS", []):
        __import__(m)
    patches.install_modules()
    import vsym.trace as trace

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VSYM_ONLY")
    jobs = []
    meta = {}
    for uid, fn, ob in obl.units(mod, tier):
        if only and only not in uid:
            continue
        opts = dict(getattr(mod, "OPTS", {}))
        opts.update(ob.opts)
        if tier == "thorough":
            opts["time_s"] = opts.get("thorough_time_s", opts.get("time_s", 120) * 3)
        opts["seed"] = seed
        meta[uid] = ob

        def thunk(fn=fn, opts=opts):
            trace.start()
            r = explore(fn, opts)
            r["functions"] = trace.stop()
            from vsym.tensor import OPS_SEEN

            r["aten_ops"] = sorted(OPS_SEEN)
            return r

        jobs.append((uid, thunk, opts.get("time_s", 120)))
    from vsym.pool import run_units

    res = {}
    for uid, r in run_units(jobs, workers, out):
        res[uid] = r
        if os.environ.get("VSYM_VERBOSE"):
            print(f"[sym] {uid}: {r['status']} {r.get('wall_s')} {r.get('stats', {}).get('paths')} paths "
                  f"{r.get('notes', [])[:3]} {[(c['message'], c.get('tb')) for c in r.get('cex', [])][:2]}", file=sys.stderr)
    with open(os.path.join(out, "sym.json.tmp"), "w") as f:
        json.dump(res, f)
    os.replace(os.path.join(out, "sym.json.tmp"), os.path.join(out, "sym.json"))


if __name__ == "__main__":
    main()
