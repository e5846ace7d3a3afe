"""Data types: dtype, out_dtype, mandated types, and the type the configuration names."""
from .lib import *

IMPORTS = ["mergekit.merge_methods", "mergekit.merge"]
OUTSIDE = "rounding of low-precision arithmetic (values are real numbers here); dtypes other than float16, bfloat16, float32 and int64"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store"]

DT = {"float32": torch.float32, "float16": torch.float16, "bfloat16": torch.bfloat16}
NAMES = [None, "float32", "float16", "bfloat16"]

METHODS = {  # method -> (base?, params, per-model params)
    "linear": (False, {}, {"weight": 1.0}), "slerp": (True, {"t": 0.5}, {}), "nuslerp": (False, {}, {"weight": 1.0}), "passthrough": (None, {}, {}),
    "task_arithmetic": (True, {}, {"weight": 0.5}), "ties": (True, {}, {"weight": 0.5, "density": 0.5}), "breadcrumbs": (True, {}, {"weight": 0.5, "density": 0.5}),
    "nearswap": (True, {"t": 0.5}, {}), "sce": (True, {}, {}), "ram": (True, {}, {}), "model_stock": (True, {}, {}), "arcee_fusion": (True, {}, {}), "karcher": (False, {"max_iter": 1}, {}),
    "multislerp": (False, {}, {"weight": 1.0}), "della": (True, {}, {"weight": 0.5}), "dare_ties": (True, {}, {"weight": 0.5}),
}


def conf(r, key="dtype"):
    return r.config.get("dtype", r.config.get("torch_dtype"))


def wanted(dtype, out_dtype, src):
    return DT[out_dtype or dtype or src]


def vals(ctx, name, shape, dt, free):
    if free:
        return ctx.tensor(name, shape, dt, lo=-4, hi=4)
    n = shape[0] * shape[-1] if len(shape) > 1 else shape[0]
    seed = sum(map(ord, name)) % 7
    return torch.tensor([((seed + 3 * i) % 5 - 2) * 0.5 + 0.25 for i in range(n)], dtype=dt).reshape(shape)


SAME = ("karcher", "multislerp")  # identical models (the type does not depend on the values)
FREE = ("linear", "passthrough", "task_arithmetic")


def stored(ctx, meth):
    """type of every tensor on disk, for every combination of settings"""
    base, params, tp = METHODS[meth]
    dtype, out_dtype, src = ctx.choice("dtype", NAMES), ctx.choice("out_dtype", NAMES), ctx.choice("source", NAMES[1:])
    free = meth in FREE
    with mk.SymWorld(ctx) as w:
        sh = {"h": 2, "i": 1}
        ts, ps = {}, {}
        for k in "A" if meth == "passthrough" else "ABC" if meth == "model_stock" else "AB":
            q = "" if meth in SAME else k
            ts[k] = {"model.embed_tokens.weight": vals(ctx, q + "e", (1, 2), DT[src], free), "model.norm.weight": vals(ctx, q + "n", (2,), DT[src], free)}
            c = mk.llama_config(0, 2, 1, 1, 1, tie=True)
            c.dtype = DT[src]
            ps[k] = w.add_model(k, c, ts[k])
        cfg = {"merge_method": meth, "models": [{"model": ps[k], "parameters": dict(tp)} for k in ps], "parameters": dict(params)}
        if dtype:
            cfg["dtype"] = dtype
        if out_dtype:
            cfg["out_dtype"] = out_dtype
        if base:
            cfg["base_model"] = ps["A"]
        r = mk.do_merge(w, cfg)
        want = wanted(dtype, out_dtype, src)
        ctx.check(set(r.tensors) == set(ts["A"]), "tensor names")
        for n, t in r.tensors.items():
            ctx.check(t.dtype == want, f"{n} stored as {t.dtype}, expected {want}")
            ctx.check(tuple(t.shape) == tuple(ts["A"][n].shape), f"{n} shape")
            if meth == "passthrough":
                ctx.eq(t.reshape(-1), ctx.elems(ts["A"][n]), n)
            elif meth in FREE:
                a, b = (ctx.elems(ts[k][n]) for k in "AB")
                ctx.eq(t.reshape(-1), [0.5 * (x + y) for x, y in zip(a, b)], n)
        ctx.check(conf(r) == str(want).replace("torch.", ""), f"configuration says {conf(r)}, tensors are {want}")


def mixed(ctx, case):
    """inputs of different types are brought to `dtype` before they are merged"""
    meth, = case
    base, params, tp = METHODS[meth]
    dtype = ctx.choice("dtype", NAMES[1:])
    src = {k: ctx.choice("src" + k, NAMES[1:]) for k in "AB"}
    with mk.SymWorld(ctx) as w:
        ts, ps = {}, {}
        for k in "AB":
            ts[k] = {"model.embed_tokens.weight": vals(ctx, k + "e", (1, 2), DT[src[k]], True), "model.norm.weight": vals(ctx, k + "n", (2,), DT[src[k]], True)}
            ps[k] = w.add_model(k, mk.llama_config(0, 2, 1, 1, 1, tie=True), ts[k])
        cfg = {"merge_method": meth, "dtype": dtype, "models": [{"model": ps[k], "parameters": dict(tp)} for k in ps], "parameters": dict(params)}
        if base:
            cfg["base_model"] = ps["A"]
        r = mk.do_merge(w, cfg)
        ctx.check(set(r.tensors) == set(ts["A"]), "tensor names")
        for n, t in r.tensors.items():
            ctx.check(t.dtype == DT[dtype], f"{n} stored as {t.dtype}")
            a, b = (ctx.elems(ts[k][n]) for k in "AB")
            ctx.eq(t.reshape(-1), [0.5 * (x + y) for x, y in zip(a, b)], n)


def mandated(ctx, cls_name):
    """tensors with a mandated type keep it whatever dtype / out_dtype say"""
    dtype, out_dtype = ctx.choice("dtype", NAMES), ctx.choice("out_dtype", NAMES)
    from . import c14

    cfg, names, tied, emb, nd = c14.truth(cls_name, 1, {})
    names = [n for n in names if n not in tied]
    pos = {"BertModel": "embeddings.position_ids", "RobertaForMaskedLM": "roberta.embeddings.position_ids"}.get(cls_name, "bert.embeddings.position_ids")
    with mk.SymWorld(ctx) as w:
        ts = {n: torch.tensor([0.5]) for n in names}
        ts[pos] = torch.tensor([[0, 1, 511]])
        p = w.add_model("m", cfg, ts)
        c = {"merge_method": "passthrough", "models": [{"model": p}]}
        if dtype:
            c["dtype"] = dtype
        if out_dtype:
            c["out_dtype"] = out_dtype
        r = mk.do_merge(w, c)
        ctx.check(r.tensors[pos].dtype == torch.int64, f"position ids stored as {r.tensors[pos].dtype}")
        ctx.eq(r.tensors[pos].reshape(-1), [0, 1, 511], "position ids")
        for n in names:
            ctx.check(r.tensors[n].dtype == wanted(dtype, out_dtype, "float32"), f"{n} stored as {r.tensors[n].dtype}")


def in_memory(ctx):
    """in-memory merges (plan_in_memory) return the same types"""
    from mergekit.architecture import get_architecture_info
    from mergekit.config import MergeConfiguration
    from mergekit.graph import Executor
    from mergekit.io.tasks import LoaderCache, ReturnTensor
    from mergekit.options import MergeOptions
    from mergekit.plan import MergePlanner

    dtype, out_dtype = ctx.choice("dtype", NAMES), ctx.choice("out_dtype", NAMES)
    with mk.SymWorld(ctx) as w:
        ts = {"model.embed_tokens.weight": ctx.tensor("e", (1, 2)), "model.norm.weight": ctx.tensor("n", (2,)), "lm_head.weight": ctx.tensor("h", (1, 2))}
        p = w.add_model("A", mk.llama_config(0, 2, 1, 1, 1), ts)
        c = {"merge_method": "passthrough", "models": [{"model": p}], "dtype": dtype, "out_dtype": out_dtype}
        mc = MergeConfiguration.model_validate(c)
        o = MergeOptions(quiet=True)
        arch = get_architecture_info(mc, o)
        LoaderCache().setup(o)
        tasks = MergePlanner(mc, arch, options=o, out_model_config=mk.llama_config(0, 2, 1, 1, 1)).plan_in_memory()
        got = {t.weight_info.name: v for t, v in Executor(tasks).run(quiet=True) if isinstance(t, ReturnTensor)}
        ctx.check(set(got) == set(ts), "tensor names")
        for n, t in got.items():
            ctx.check(t.dtype == wanted(dtype, out_dtype, "float32"), f"{n} returned as {t.dtype}")
            ctx.eq(t.reshape(-1), ctx.elems(ts[n]), n)


def names(ctx):
    """type names, with and without the torch prefix; unknown names are refused"""
    from mergekit.common import dtype_from_name

    pre = ctx.choice("prefix", ["", "torch."])
    n = ctx.choice("name", ["float32", "float16", "bfloat16", "int64", "float64x", "half", "int8x"])
    d = {**DT, "int64": torch.int64}
    if n in d:
        ctx.check(dtype_from_name(pre + n) == d[n], f"{pre + n}")
    else:
        ctx.check(ctx.raises(lambda: dtype_from_name(pre + n)) is not None, "unknown type names are refused")
    ctx.check(dtype_from_name(None) is None, "no name, no type")


OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=200, keep_samples=2)
OBLIGATIONS = [
    Ob("stored", stored, cases=list(METHODS), bounds="16 merge methods, every combination of source type, dtype and out_dtype"),
    Ob("mixed", mixed, cases=[("linear",), ("task_arithmetic",)], bounds="two models, every pair of source types and every dtype, every value"),
    Ob("mandated", mandated, cases=["BertModel", "BertForSequenceClassification", "RobertaForMaskedLM"], bounds="position ids of Bert and Roberta, every dtype and out_dtype"),
    Ob("in_memory", in_memory, bounds="every dtype and out_dtype"),
    Ob("names", names, bounds="listed names"),
]
