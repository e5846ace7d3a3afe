"""mergekit-pytorch: merging of plain checkpoint files tensor by tensor."""
import os

from .c12 import ev, first, setting
from .lib import *

IMPORTS = ["mergekit.scripts.merge_raw_pytorch", "mergekit.merge_methods"]
OUTSIDE = "more than 3 files or 3 tensors, sharded inputs, base models with tensors of their own"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store"]

NAMES = ["enc.weight", "mlp.fc.weight", "head.bias"]
SHAPES = {"enc.weight": (2, 1), "mlp.fc.weight": (2,), "head.bias": (1,)}
T0 = (0, 1)


def run(ctx, w, cfg, union=False, inter=False):
    from mergekit.graph import Executor
    from mergekit.options import MergeOptions
    from mergekit.scripts.merge_raw_pytorch import RawPyTorchMergeConfig, plan_flat_merge

    out = os.path.join(w.root, f"out{len(os.listdir(w.root))}")
    tasks = plan_flat_merge(RawPyTorchMergeConfig.model_validate(cfg), out, union, inter, MergeOptions(quiet=True, lazy_unpickle=False))
    Executor(tasks).execute()
    return w.load_output(out)[0]


def files(ctx, w, names, present=None, ext="safetensors"):
    t, p = {}, {}
    for m in names:
        t[m] = {n: ctx.tensor(f"{m}:{n}", SHAPES[n]) for n in NAMES if present is None or n in present[m]}
        e = ext if isinstance(ext, str) else ext[m]
        p[m] = w.add_file(f"{m} model.{e}", t[m])
    return t, p


def params(kind, v):
    return {} if v is None else {kind: v}


def linear(ctx, case):
    """own weight, else the global one; filters by tensor name; zero is a weight"""
    ka, kb, kg, ext = case
    with mk.SymWorld(ctx) as w:
        t, p = files(ctx, w, "AB", ext=dict(zip("AB", ext)))
        s = {"A": setting(ctx, "a", ka), "B": setting(ctx, "b", kb), "g": setting(ctx, "g", kg)}
        models = [dict(model=p[m], **({} if s[m] is None else {"parameters": {"weight": s[m]}})) for m in "AB"]
        cfg = dict(merge_method="linear", models=models, parameters=dict(normalize=False, **params("weight", s["g"])))
        wt = {(m, n): first([s[m], s["g"]], n, T0, None) for m in "AB" for n in NAMES}
        if any(v is None for v in wt.values()):
            ctx.check(ctx.raises(lambda: run(ctx, w, cfg)) is not None, "a missing required weight is refused")
            return
        got = run(ctx, w, cfg)
        ctx.check(set(got) == set(NAMES), f"tensors {sorted(got)}")
        for n in NAMES:
            ex = [sum_ for sum_ in (wt["A", n] * a + wt["B", n] * b for a, b in zip(ctx.elems(t["A"][n]), ctx.elems(t["B"][n])))]
            expect(ctx, got[n], SHAPES[n], ex, n, F32)


def flag_param(ctx):
    """a false global switch is kept, a missing one takes its default"""
    with mk.SymWorld(ctx) as w:
        t, p = files(ctx, w, "AB")
        norm = ctx.choice("normalize", [None, True, False])
        g = {} if norm is None else {"normalize": norm}
        cfg = dict(merge_method="linear", models=[dict(model=p["A"], parameters=dict(weight=0.5)), dict(model=p["B"], parameters=dict(weight=1.5))])
        if g:
            cfg["parameters"] = g
        got = run(ctx, w, cfg)
        k = 1.0 if norm is False else 2.0
        for n in NAMES:
            expect(ctx, got[n], SHAPES[n], [ctx.quot(0.5 * a + 1.5 * b, k) for a, b in zip(ctx.elems(t["A"][n]), ctx.elems(t["B"][n]))], n, F32)


def task_arithmetic(ctx, case):
    """the base file is only the reference, listed among the models or not"""
    listed, nm = case
    with mk.SymWorld(ctx) as w:
        ms = "ABC"[:nm]
        t, p = files(ctx, w, ms + "Z", ext={"A": "pt", "B": "safetensors", "C": "bin", "Z": "safetensors"})
        order = list(ms)
        if listed:
            order.insert(ctx.choice("base position", list(range(nm + 1))), "Z")
        wt = {m: ctx.real(f"w{m}", -3, 3) for m in ms}
        lam = ctx.real("lambda", -3, 3) if ctx.flag("lambda given") else None
        cfg = dict(merge_method="task_arithmetic", base_model=p["Z"],
                   models=[dict(model=p[m], parameters=dict(weight=wt.get(m, 0.0))) for m in order])
        if lam is not None:
            cfg["parameters"] = {"lambda": lam}
        got = run(ctx, w, cfg)
        for n in NAMES:
            b = ctx.elems(t["Z"][n])
            ex = [b[i] + (1.0 if lam is None else lam) * ssum(wt[m] * (ctx.elems(t[m][n])[i] - b[i]) for m in ms) for i in range(len(b))]
            expect(ctx, got[n], SHAPES[n], ex, n, F32)


def missing(ctx, case):
    """tensors that some files lack: an error, left out, or merged from the files that have them"""
    nm = case
    with mk.SymWorld(ctx) as w:
        ms = "ABC"[:nm]
        names = NAMES if nm == 2 else NAMES[1:]
        present = {m: [n for n in names if ctx.flag(f"{n} in {m}")] for m in ms}
        mode = ctx.choice("mode", ["plain", "union", "intersection"])
        t, p = files(ctx, w, ms, present)
        cfg = dict(merge_method="linear", models=[dict(model=p[m], parameters=dict(weight=x)) for m, x in zip(ms, (1.0, 3.0, 0.5))], parameters=dict(normalize=False))
        every = [n for n in names if any(n in present[m] for m in ms)]
        common = [n for n in every if all(n in present[m] for m in ms)]
        if mode == "plain" and every != common:
            ctx.check(ctx.raises(lambda: run(ctx, w, cfg)) is not None, "missing tensors are refused by default")
            return
        got = run(ctx, w, cfg, union=mode == "union", inter=mode == "intersection")
        want = common if mode == "intersection" else every
        ctx.check(set(got) == set(want), f"{mode}: tensors {sorted(got)} expected {sorted(want)}")
        for n in want:
            has = [(m, x) for m, x in zip(ms, (1.0, 3.0, 0.5)) if n in present[m]]
            expect(ctx, got[n], SHAPES[n], [ssum(x * ctx.elems(t[m][n])[i] for m, x in has) for i in range(t[has[0][0]][n].numel())], f"{mode} {n}", F32)


def missing_base(ctx, listed):
    """the same with a separate base file: it has to have the tensor too"""
    with mk.SymWorld(ctx) as w:
        names = NAMES[1:]
        present = {m: [n for n in names if ctx.flag(f"{n} in {m}")] for m in "ABZ"}
        mode = ctx.choice("mode", ["plain", "union", "intersection"])
        ctx.assume(all(n in present["A"] + present["B"] for n in present["Z"]))
        if mode == "union":
            ctx.assume(all(n in present["Z"] for n in present["A"] + present["B"]))
        t, p = files(ctx, w, "ABZ", present)
        wt = {"A": 1.0, "B": 3.0, "Z": 0.0}
        cfg = dict(merge_method="task_arithmetic", base_model=p["Z"], models=[dict(model=p[m], parameters=dict(weight=wt[m])) for m in ("AZB" if listed else "AB")])
        every = [n for n in names if n in present["A"] + present["B"]]
        common = [n for n in every if all(n in present[m] for m in "ABZ")]
        if mode == "plain" and every != common:
            ctx.check(ctx.raises(lambda: run(ctx, w, cfg)) is not None, "missing tensors are refused by default")
            return
        got = run(ctx, w, cfg, union=mode == "union", inter=mode == "intersection")
        want = common if mode == "intersection" else every
        ctx.check(set(got) == set(want), f"{mode}: tensors {sorted(got)} expected {sorted(want)}")
        for n in want:
            b = ctx.elems(t["Z"][n])
            ex = [b[i] + ssum(wt[m] * (ctx.elems(t[m][n])[i] - b[i]) for m in "AB" if n in present[m]) for i in range(len(b))]
            expect(ctx, got[n], SHAPES[n], ex, f"{mode} {n}", F32)


def dtype(ctx):
    """the configured type is that of the output"""
    with mk.SymWorld(ctx) as w:
        t, p = files(ctx, w, "AB")
        dt = ctx.choice("dtype", [None, "float32", "float16", "bfloat16"])
        cfg = dict(merge_method="linear", models=[dict(model=p[m], parameters=dict(weight=1.0)) for m in "AB"])
        if dt:
            cfg["dtype"] = dt
        got = run(ctx, w, cfg)
        for n in NAMES:
            ctx.check(got[n].dtype == getattr(torch, dt or "float32"), f"{n} is {got[n].dtype}, asked for {dt}")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=200, keep_samples=2, ite="fork")
OBLIGATIONS = [
    Ob("linear", linear, cases=[("scalar", "scalar", "none", ("pt", "safetensors")), ("none", "scalar", "scalar", ("safetensors", "bin")), ("attn", "both", "scalar", ("pt", "pt")),
                                ("int", "one", "star", ("safetensors", "pt")), ("g2", "none", "both", ("bin", "safetensors")), ("none", "scalar", "none", ("pt", "pt")), ("one", "scalar", "none", ("pt", "pt"))],
       bounds="2 files of 3 tensors, weights: none, scalar, zero, filtered, lists, per model and global"),
    Ob("switch", flag_param, bounds="global switch absent, true, false"),
    Ob("task_arithmetic", task_arithmetic, cases=[(True, 1), (False, 2), (True, 2)], tcases=[(True, 3), (False, 3)], bounds="1-3 files and a base, listed at any position or not at all, any weights and lambda"),
    Ob("missing", missing, cases=[2, 3], bounds="2-3 files with any subset of 2-3 tensors, three modes"),
    Ob("missing_base", missing_base, cases=[False, True], bounds="2 files and a base, any subset of 2 tensors each, three modes (union: tensors the base has)"),
    Ob("dtype", dtype, bounds="4 types"),
]
