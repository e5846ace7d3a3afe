"""Multi-SLERP and Karcher mean: barycentres on the hypersphere."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "more than 3 models, vectors above 4 elements (two of them symbolic), more than 2 Karcher iterations from symbolic inputs"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup", "acos/sin/cos are uninterpreted functions with range and special-value axioms"]


def norm(ctx, v):
    return ctx.sqrt(dot(v, v))


FIX = [[3.0, 4.0], [4.0, -3.0], [-5.0, 12.0]]


def inputs(ctx, n, shape, free, lo=-4, hi=4):
    """n vectors; `free` of them symbolic, the others fixed with rational norms"""
    out = {}
    ne = 1
    for d in shape:
        ne *= d
    for i in range(n):
        if i in free:
            v = ctx.tensor(f"m{i}", (2,), lo=lo, hi=hi)
            e = ctx.elems(v)
            ctx.assume(dot(e, e) >= 0.25)
        else:
            e = FIX[i]
        e = list(e) + [0.0] * (ne - 2)
        out[f"m{i}"] = ctx.mk_tensor(e).reshape(shape)
    return out


def ms_ref(ctx, vs, ws, eps=1e-8):
    ns = [norm(ctx, v) for v in vs]
    us = [[ctx.quot(x, n + eps) for x in v] for v, n in zip(vs, ns)]
    k = range(len(vs[0]))
    mean = [ssum(w * u[i] for w, u in zip(ws, us)) for i in k]
    mn = norm(ctx, mean)
    ctx.assume(mn >= 0.01)
    mean = [ctx.quot(x, mn) for x in mean]
    tang = []
    for u in us:
        d = ssum(x * y for x, y in zip(u, mean))
        tang.append([x - d * y for x, y in zip(u, mean)])
    tr = [ssum(w * t[i] for w, t in zip(ws, tang)) for i in k]
    tn = norm(ctx, tr) + eps
    avg = ssum(n * w for n, w in zip(ns, ws))
    c, s = ctx.fn("cos", tn), ctx.fn("sin", tn)
    return [(m * c + t * ctx.quot(s, tn)) * avg for m, t in zip(mean, tr)]


def multislerp(ctx, case):
    n, shape, free, normalize, base = case
    ts = inputs(ctx, n, shape, free)
    ws = {k: (ctx.real("w_" + k, 0, 2) if i == 0 else [None, 1.0, 0.5][i]) for i, k in enumerate(ts)}
    es = {k: ctx.elems(t) for k, t in ts.items()}
    bz = [0.0] * len(es["m0"])
    allt = dict(ts)
    tp = {k: {"weight": w} for k, w in ws.items()}
    if base:
        b = ctx.mk_tensor([0.5, -1.0] + [0.0] * (len(bz) - 2)).reshape(shape)
        bz = ctx.elems(b)
        allt = {"b": b, **ts} if base == 1 else {**ts, "b": b}
        tp["b"] = {"weight": 7.0}
    tot = ssum(ws.values())
    w = [ctx.quot(x, tot) for x in ws.values()] if normalize is not False else list(ws.values())
    vs = [[x - y for x, y in zip(es[k], bz)] for k in ts]
    exp = ms_ref(ctx, vs, w)
    r = mk.run_method("multislerp", allt, params={} if normalize is None else {"normalize_weights": normalize},
                      tensor_params=tp, base="b" if base else None)
    expect(ctx, r, shape, [x + y for x, y in zip(exp, bz)], "multislerp", F32, tol=16)


def ms_single(ctx):
    based = ctx.flag("based")
    a, b = ctx.tensor("a", (2, 2)), ctx.tensor("b", (2, 2))
    ts = {"a": a, "b": b} if based else {"a": a}
    r = mk.run_method("multislerp", ts, tensor_params={"a": {"weight": ctx.real("w", 0, 3)}, "b": {"weight": 1.0}},
                      base="b" if based else None)
    expect(ctx, r, (2, 2), ctx.elems(a), "single model is returned unchanged")


def ms_antipodal(ctx):
    """balanced opposite vectors: two models interpolate linearly, more are refused"""
    a = ctx.tensor("a", (2,), lo=-4, hi=4)
    e = ctx.elems(a)
    ctx.assume(dot(e, e) >= 1)
    k = 1.0
    based = ctx.flag("based")
    b = [0.5, 2.0] if based else [0.0, 0.0]
    p = ctx.mk_tensor([x + y for x, y in zip(e, b)])
    q = ctx.mk_tensor([-k * x + y for x, y in zip(e, b)])
    ts = {"p": p, "q": q}
    w = ctx.choice("w", [1.0, 0.25])
    norm_w = ctx.flag("nw")
    if based:
        ts["b"] = ctx.mk_tensor(b)
    r = mk.run_method("multislerp", ts, params={"normalize_weights": norm_w},
                      tensor_params={x: {"weight": w} for x in ts}, base="b" if based else None)
    expect(ctx, r, (2,), b, "opposite vectors with equal weights meet in the origin", tol=4)


def kar_ref(ctx, vs, iters, tol=1e-5):
    ns = [norm(ctx, v) for v in vs]
    us = [[ctx.quot(x, n) for x in v] for v, n in zip(vs, ns)]
    k = range(len(vs[0]))
    w = 1.0 / len(vs)
    u = [ssum(w * q[i] for q in us) for i in k]
    nu = norm(ctx, u)
    ctx.assume(nu >= 0.01)
    u = [ctx.quot(x, nu) for x in u]
    for _ in range(iters):
        T = [0.0] * len(u)
        for q in us:
            d = clamp(ctx, ssum(x * y for x, y in zip(u, q)), -1.0, 1.0)
            th = ctx.fn("acos", d)
            if th < tol:
                continue
            c = w * ctx.quot(th, ctx.fn("sin", th))
            T = [t + c * (y - d * x) for t, x, y in zip(T, u, q)]
        nt = norm(ctx, T)
        if nt < tol:
            break
        cs, sn = ctx.fn("cos", nt), ctx.fn("sin", nt)
        u = [cs * x + sn * ctx.quot(t, nt) for x, t in zip(u, T)]
        m = norm(ctx, u)
        if m > tol:
            u = [ctx.quot(x, m) for x in u]
    s = ssum(w * n for n in ns)
    return [s * x for x in u]


def karcher0(ctx, case):
    """no iteration: normalised mean direction scaled by the mean norm"""
    n, shape, free = case
    ts = inputs(ctx, n, shape, free)
    es = [ctx.elems(t) for t in ts.values()]
    exp = kar_ref(ctx, es, 0)
    r = mk.run_method("karcher", ts, params={"max_iter": 0})
    expect(ctx, r, shape, exp, "karcher starting point", F32, tol=8)


def karcher_same(ctx, case):
    """identical models are a fixed point, for any number of models"""
    n, shape = case
    v = ctx.tensor("v", (2,), lo=-4, hi=4)
    e = ctx.elems(v)
    ctx.assume(dot(e, e) >= 0.25)
    ne = 1
    for d in shape:
        ne *= d
    e = list(e) + [1.0] * (ne - 2)
    ts = {f"m{i}": ctx.mk_tensor(e).reshape(shape) for i in range(n)}
    r = mk.run_method("karcher", ts)
    expect(ctx, r, shape, e, "mean of identical tensors", F32, tol=4)


def karcher_zero(ctx, case):
    """zero tensors only lower the scale; all-zero input gives zero"""
    nz, n = case
    v = ctx.tensor("v", (2,), lo=-4, hi=4)
    e = ctx.elems(v)
    ctx.assume(dot(e, e) >= 0.25)
    ts = {}
    for i in range(nz):
        ts[f"z{i}"] = ctx.mk_tensor([0.0, 0.0])
    for i in range(n - nz):
        ts[f"m{i}"] = ctx.mk_tensor(e)
    r = mk.run_method("karcher", ts)
    expect(ctx, r, (2,), [x * (n - nz) / n for x in e], "zero tensors", F32, tol=4)


def karcher_iter(ctx, case):
    iters, vs = case
    k = [ctx.real(f"k{i}", 0.5, 4) for i in range(len(vs))]
    es = [[k[i] * x for x in v] for i, v in enumerate(vs)]
    ts = {f"m{i}": ctx.mk_tensor(e) for i, e in enumerate(es)}
    exp = kar_ref(ctx, es, iters)
    r = mk.run_method("karcher", ts, params={"max_iter": iters})
    expect(ctx, r, (len(vs[0]),), exp, f"karcher after {iters} iterations", F32, tol=16)


DIRS = [(2.0, 1.0, 2.0), (0.0, 3.0, 4.0), (1.0, -2.0, 2.0), (-2.0, 0.5, 0.0)]


def karcher_spread(ctx, n):
    """asymmetric arrangements, where every iteration moves the mean"""
    iters = ctx.choice("iters", [1, 2, 3, 10])
    es = [list(ctx.choice(f"d{i}", DIRS)) for i in range(n)]
    ts = {f"m{i}": ctx.mk_tensor(e) for i, e in enumerate(es)}
    exp = kar_ref(ctx, es, iters)
    r = mk.run_method("karcher", ts, params={"max_iter": iters})
    expect(ctx, r, (3,), exp, f"karcher after {iters} iterations", F32, tol=64)


def karcher_single(ctx):
    a = ctx.tensor("a", (2, 2))
    expect(ctx, mk.run_method("karcher", {"a": a}), (2, 2), ctx.elems(a), "single model is returned unchanged")


OPTS = dict(branch_timeout_ms=300, prove_timeout_ms=10000, time_s=240, lazy_assume=True, keep_samples=2, ite="fork", abstract=4)
OBLIGATIONS = [
    Ob("multislerp", multislerp, cases=[(2, (2,), (0,), None, 0), (2, (1, 2), (0,), True, 1), (2, (2,), (), False, 2), (3, (2,), (), None, 1), (2, (2,), (0, 1), False, 0)], tcases=[(2, (2, 2), (1,), None, 0)],
       bounds="2-3 models, one vector symbolic (2 free elements in [-4,4], norm >= 1/2) and the others fixed or both symbolic, first weight symbolic in [0,2], with/without base and weight normalisation, weighted mean not near zero"),
    Ob("ms_single", ms_single, bounds="one model, 2x2, with/without base"),
    Ob("ms_antipodal", ms_antipodal, bounds="x and -x with equal weights, any 2-vector of norm >= 1"),
    Ob("karcher0", karcher0, cases=[(2, (2,), (0,)), (3, (2,), (1,)), (2, (2, 1), (0, 1)), (2, (2, 2), (0,))],
       bounds="2-3 models, zero iterations, symbolic 2-vectors"),
    Ob("karcher_same", karcher_same, cases=[(2, (2,)), (3, (2,)), (4, (2, 2)), (5, (1, 2))], bounds="2-5 identical tensors, default iterations"),
    Ob("karcher_zero", karcher_zero, cases=[(1, 2), (1, 3), (2, 3), (2, 2)], bounds="mix of zero and identical tensors"),
    Ob("karcher_iter", karcher_iter, cases=[(1, ((3.0, 4.0), (4.0, -3.0))), (2, ((3.0, 4.0), (4.0, -3.0)))],
       bounds="fixed directions, symbolic lengths in [1/2,4], 1-2 iterations"),
    Ob("karcher_spread", karcher_spread, cases=[3], tcases=[4], bounds="3 (4) vectors picked by the solver from 4 directions in space, repetition allowed; 1, 2, 3 or 10 iterations", approx=True),
    Ob("karcher_single", karcher_single, bounds="one 2x2 tensor"),
]
