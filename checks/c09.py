"""Embedding-like tensors of different sizes."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "more than 3 models, sizes above 3x2; in the task-arithmetic family other models smaller than the base"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup"]

SIZES = [(2, 1), (3, 1), (1, 2), (2, 2), (3, 2)]


def crop(ctx, t, r, c):
    e = ctx.elems(t)
    w = t.shape[1]
    return ctx.mk_tensor([e[i * w + j] for i in range(r) for j in range(c)]).reshape(r, c)


CFG = {
    "linear": (False, {}, lambda i: {"weight": [0.5, 2.0, 1.0][i]}),
    "slerp": (True, {"t": 0.25}, lambda i: {}),
    "nuslerp": (None, {}, lambda i: {"weight": [1.0, 2.0][i]}),
    "nuslerp_base": (True, {}, lambda i: {"weight": [1.0, 2.0, 1.0][i]}),
    "model_stock": (True, {}, lambda i: {}),
    "arcee_fusion": (True, {}, lambda i: {}),
    "karcher0": (None, {"max_iter": 0}, lambda i: {}),
    "karcher": (None, {"max_iter": 1}, lambda i: {}),
}


def fixed(i, shape):
    """concrete tensors (relational units for the nonlinear methods)"""
    n = shape[0] * shape[1]
    seq = [[3.0, 1.0, -2.0, 0.5, 4.0, -1.0], [4.0, -1.0, 1.5, 2.0, -3.0, 1.0], [-1.0, 2.0, 5.0, -0.5, 1.0, 2.5]][i]
    return seq[:n]


def common(ctx, case):
    """merging different sizes equals merging the common top-left submatrix"""
    meth, sizes = case
    m = meth.split("_base")[0].rstrip("0")
    base, params, tp = CFG[meth]
    ts = {}
    for i, s in enumerate(sizes):
        if meth == "linear":
            ts[f"m{i}"] = ctx.tensor(f"m{i}", s)
        else:
            ts[f"m{i}"] = ctx.mk_tensor(fixed(i, s)).reshape(s)
            if i == 0 and meth in ("slerp", "nuslerp", "model_stock"):
                k = ctx.real("k", 0.5, 3)
                ts["m0"] = ctx.mk_tensor([k * x for x in fixed(0, s)]).reshape(s)
    r, c = min(s[0] for s in sizes), min(s[1] for s in sizes)
    bk = None if base is None else list(ts)[-1] if base else None
    kw = dict(params=params, tensor_params={k: tp(i) for i, k in enumerate(ts)}, base=bk)
    got = mk.run_method(m, dict(ts), is_embed=True, **kw)
    ref = mk.run_method(m, {k: crop(ctx, t, r, c) for k, t in ts.items()}, is_embed=True, **kw)
    ctx.check(shape_of(ref) == (r, c), "shape of the submatrix merge")
    expect(ctx, got, (r, c), ctx.elems(ref), f"{meth} on sizes {sizes}", F32, tol=4)


def sizes(ctx, case):
    """every combination of matrix sizes: the merge equals the merge of the common submatrix"""
    meth, n, hi = case
    m = meth.split("_base")[0].rstrip("0")
    base, params, tp = CFG[meth]
    sz = [(ctx.choice(f"r{i}", list(range(1, hi + 1))), ctx.choice(f"c{i}", list(range(1, hi + 1)))) for i in range(n)]
    ts = {}
    for i, s in enumerate(sz):
        ts[f"m{i}"] = ctx.tensor(f"m{i}", s) if meth == "linear" else ctx.mk_tensor(fixed(i, s)).reshape(s)
    r, c = min(s[0] for s in sz), min(s[1] for s in sz)
    bk = None if base is None else list(ts)[-1] if base else None
    kw = dict(params=params, tensor_params={k: tp(i) for i, k in enumerate(ts)}, base=bk)
    got = mk.run_method(m, dict(ts), is_embed=True, **kw)
    if meth == "linear":
        ws = [tp(i)["weight"] for i in range(n)]
        els = [ctx.elems(t) for t in ts.values()]
        ex = [sum(w * e[i * s[1] + j] for w, e, s in zip(ws, els, sz)) / sum(ws) for i in range(r) for j in range(c)]
    else:
        ex = ctx.elems(mk.run_method(m, {k: crop(ctx, t, r, c) for k, t in ts.items()}, is_embed=True, **kw))
    expect(ctx, got, (r, c), ex, f"{meth} on sizes {sz}", F32, tol=4)


def tobase(ctx, case):
    """task-arithmetic methods crop larger models to the base's size"""
    meth, bs, sizes = case
    b = ctx.tensor("b", bs)
    ts = {f"m{i}": ctx.tensor(f"m{i}", s) for i, s in enumerate(sizes)}
    tp = {k: {"weight": w} for k, w in zip(ts, (0.5, 2.0))}
    first = ctx.flag("first")
    pack = lambda d: {"b": b, **d} if first else {**d, "b": b}
    kw = dict(tensor_params=tp, base="b", params={"normalize": False})
    got = mk.run_method(meth, pack(ts), is_embed=True, **kw)
    ref = mk.run_method(meth, pack({k: crop(ctx, t, *bs) for k, t in ts.items()}), is_embed=True, **kw)
    expect(ctx, got, bs, ctx.elems(ref), f"{meth} base {bs} others {sizes}", F32)


def notembed(ctx, case):
    """the same sizes in an ordinary weight: never cropped"""
    meth, sizes = case
    ts = {f"m{i}": ctx.tensor(f"m{i}", s) for i, s in enumerate(sizes)}
    tp = {k: {"weight": w} for k, w in zip(ts, (0.5, 2.0))}
    base = None if meth == "linear" else "m1"
    kw = dict(tensor_params=tp, base=base)
    if meth == "linear":
        e = ctx.raises(lambda: mk.run_method(meth, ts, **kw))
        ctx.check(e is not None, "mismatching ordinary weights are refused")
    else:
        expect(ctx, mk.run_method(meth, dict(ts), **kw), sizes[1], ctx.elems(ts["m1"]), "mismatching ordinary weight leaves the base unchanged")


def endtoend(ctx, case):
    meth, rows_ = case
    with mk.SymWorld(ctx) as w:
        names = "AB"
        ts = {k: mk.llama_tensors(ctx, k, 1, vocab_rows=v) for k, v in zip(names, rows_)}
        ps = {k: w.add_model(k, mk.llama_config(1, 1, v, 1, 1), ts[k]) for k, v in zip(names, rows_)}
        cfg = dict(merge_method=meth, dtype="float32", models=[dict(model=ps[k], parameters=dict(weight=wt)) for k, wt in zip(names, (0.5, 2.0))])
        cfg["parameters"] = dict(normalize=False)
        if meth != "linear":
            cfg["base_model"] = ps["A"]
            cfg["models"] = cfg["models"][1:]
        r = mk.do_merge(w, cfg)
        n = min(rows_) if meth == "linear" else rows_[0]
        for k in ("model.embed_tokens.weight", "lm_head.weight"):
            a, b = ctx.elems(ts["A"][k]), ctx.elems(ts["B"][k])
            if meth == "linear":
                ex = [0.5 * x + 2.0 * y for x, y in zip(a[:n], b[:n])]
            else:
                ex = [x + 2.0 * (y - x) for x, y in zip(a[:n], b[:n])]
            expect(ctx, r.tensors[k], (n, 1), ex, k, F32)


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=100, keep_samples=2, ite="fork", abstract=4)
OBLIGATIONS = [
    Ob("common", common, cases=[("linear", ((2, 1), (3, 1))), ("linear", ((3, 2), (2, 2), (1, 2))), ("linear", ((1, 2), (3, 1))), ("slerp", ((2, 1), (3, 1))), ("slerp", ((3, 2), (2, 2))),
                                ("nuslerp", ((3, 1), (2, 1))), ("nuslerp", ((2, 2), (3, 1))), ("nuslerp_base", ((3, 1), (2, 1), (3, 1))),
                                ("model_stock", ((3, 1), (2, 1), (3, 1))), ("model_stock", ((2, 3), (2, 2), (2, 2))), ("nuslerp", ((2, 3), (2, 2))), ("karcher0", ((2, 2), (2, 3))), ("arcee_fusion", ((2, 3), (2, 2))), ("arcee_fusion", ((3, 2), (2, 2))), ("karcher", ((3, 1), (2, 1))), ("karcher0", ((2, 2), (3, 1), (3, 2)))],
       bounds="2-3 models, matrix sizes up to 3x2 in every listing order given; linear with every value, the nonlinear methods with fixed values and one symbolic scale (slerp, nuslerp, model_stock) or fixed values"),
    Ob("sizes", sizes, cases=[("linear", 2, 3), ("linear", 3, 2), ("slerp", 2, 2), ("nuslerp", 2, 2), ("nuslerp_base", 3, 2), ("model_stock", 3, 2), ("arcee_fusion", 2, 2), ("karcher0", 2, 2)], tcases=[("karcher", 2, 2), ("karcher0", 3, 2)],
       bounds="2 matrices of every size up to 3x3 (linear) or 2x2, 3 of every size up to 2x2; linear with every value, the others with fixed values"),
    Ob("tobase", tobase, cases=[("task_arithmetic", (2, 1), ((3, 1), (2, 1))), ("ties", (2, 1), ((3, 1),)), ("dare_linear", (1, 2), ((2, 2), (3, 2))), ("breadcrumbs", (2, 1), ((2, 2),)), ("della", (2, 1), ((3, 1),))],
       bounds="base up to 2x2, 1-2 larger models, every value, base listed first or last"),
    Ob("notembed", notembed, cases=[("linear", ((3, 1), (2, 1))), ("linear", ((1, 2), (2, 2))), ("task_arithmetic", ((3, 1), (2, 1))), ("ties", ((2, 2), (2, 1)))], bounds="two mismatching 2-d weights"),
    Ob("endtoend", endtoend, cases=[("linear", (2, 3)), ("linear", (3, 1)), ("task_arithmetic", (2, 3)), ("task_arithmetic", (2, 2))],
       bounds="two llama checkpoints with 1-3 vocabulary rows, complete merge"),
]
