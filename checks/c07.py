"""SCE and Reinforced Agent Merging."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "more than 3 models, tensors above 3 elements; elements tied in variance at the selection boundary"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup", "non-zero task vector elements have magnitude >= 1/16 in the SCE units (its 1e-6 guards are not hit)"]


def deltas(ctx, n, m, base, lo=-4, hi=4, gap=None):
    ds, ts = [], {}
    for i in range(n):
        e = ctx.elems(ctx.tensor(f"d{i}", (m,), lo=lo, hi=hi))
        if gap:
            for x in e:
                ctx.assume(ctx.Or(x == 0, x >= gap, x <= -gap))
        ds.append(e)
        ts[f"m{i}"] = ctx.mk_tensor([x + y for x, y in zip(e, base)])
    return ds, ts


def sce_ref(ctx, ds, topk):
    n, m = len(ds), len(ds[0])
    if topk < 1:
        var = []
        for j in range(m):
            mu = ctx.quot(ssum(d[j] for d in ds), float(n))
            var.append(ssum((d[j] - mu) * (d[j] - mu) for d in ds))
        nz = [not bool(v == 0) for v in var]
        k = int(sum(nz) * topk)
        keep = []
        for j in range(m):
            for i in range(j):
                ctx.assume(ctx.Or(ctx.And(var[i] == 0, var[j] == 0), var[i] - var[j] >= 0.01, var[j] - var[i] >= 0.01))
        for j in range(m):
            above = sum(1 for i in range(m) if i != j and bool(var[i] > var[j]))
            keep.append(nz[j] and above < k)
        ds = [[x if keep[j] else 0.0 for j, x in enumerate(d)] for d in ds]
    sq = [ctx.quot(ssum(x * x for x in d), float(m)) for d in ds]
    tot = ssum(sq)
    if tot < 1e-6:
        w = [1.0 / n] * n
    else:
        w = [ctx.quot(s, tot) for s in sq]
    out = []
    for j in range(m):
        maj = ssum(d[j] for d in ds) >= 0
        num, den = 0.0, 0.0
        for d, wi in zip(ds, w):
            x = d[j]
            if (x > 0) if maj else (x < 0):
                num = num + x * wi
                den = den + wi
        if den < 1e-6:
            den = 1e-6
        out.append(ctx.quot(num, den))
    return out


def sce(ctx, case):
    n, m, topk, shape = case
    be = [1.0, -2.0, 0.5][:m]
    ds, ts = deltas(ctx, n, m, be, gap=0.0625)
    p = {}
    if topk is not None:
        p["select_topk"] = topk
    if ctx.flag("int8"):
        p["int8_mask"] = True
    ex = sce_ref(ctx, ds, 1.0 if topk is None else topk)
    items = [(k, t.reshape(shape)) for k, t in ts.items()]
    items.insert(1, ("b", ctx.mk_tensor(be).reshape(shape)))
    r = mk.run_method("sce", dict(items), params=p, base="b")
    expect(ctx, r, shape, [x + y for x, y in zip(ex, be)], "sce", F32, tol=8)


def sce_degenerate(ctx):
    """nothing selected / nothing changed: base is returned in its own shape"""
    mode = ctx.choice("mode", ["topk0", "same", "tiny", "none"])
    shape = ctx.choice("shape", [(2,), (1, 2), (2, 1)])
    b = ctx.tensor("b", shape)
    n = ctx.choice("n", [1, 2, 3])
    be = ctx.elems(b)
    p = {}
    if mode == "none":
        ts = {}
    elif mode == "same":
        ts = {f"m{i}": ctx.mk_tensor(be).reshape(shape) for i in range(n)}
        if ctx.flag("topk"):
            p["select_topk"] = 0.5
    else:
        ts = {f"m{i}": ctx.tensor(f"m{i}", shape) for i in range(n)}
        p["select_topk"] = 0.0 if mode == "topk0" else 0.1
    r = mk.run_method("sce", {"b": b, **ts}, params=p, base="b")
    expect(ctx, r, shape, be, f"sce {mode}", F32)


def ram_ref(ctx, ds, eps, plus=None):
    n, m = len(ds), len(ds[0])
    act = [[bool(ctx.Or(x > eps, x < -eps)) for x in d] for d in ds]
    cnt = [sum(a[j] for a in act) for j in range(m)]
    out = []
    lam = [1.0] * n
    if plus is not None:
        r, alpha = plus
        for i in range(n):
            sh = sum(1 for j in range(m) if act[i][j] and cnt[j] > 1)
            un = sum(1 for j in range(m) if act[i][j] and cnt[j] == 1)
            rho = sh / max(un, eps)
            lam[i] = 1 + r * vmin(ctx, rho, alpha)
    for j in range(m):
        s = 0.0
        for i in range(n):
            if act[i][j]:
                s = s + (ds[i][j] * lam[i] if cnt[j] == 1 else ctx.quot(ds[i][j], float(cnt[j])))
        out.append(s)
    return out


def ram(ctx, case):
    n, m, shape = case
    be = [1.0, -2.0, 0.5][:m]
    ds, ts = deltas(ctx, n, m, be)
    eps = ctx.choice("eps", [None, 0.5])
    for d in ds:
        for x in d:
            e = eps or 1e-5
            ctx.assume(ctx.Or(x > e + 1e-3, x < -e - 1e-3, ctx.And(x < e * 0.5, x > -e * 0.5)))
    ex = ram_ref(ctx, ds, eps or 1e-5)
    r = mk.run_method("ram", {"b": ctx.mk_tensor(be).reshape(shape), **{k: t.reshape(shape) for k, t in ts.items()}},
                      params={} if eps is None else {"epsilon": eps}, base="b")
    expect(ctx, r, shape, [x + y for x, y in zip(ex, be)], "ram", F32, tol=4)


def ramplus(ctx, case):
    n, m, shape = case
    be = [1.0, -2.0, 0.5][:m]
    ds, ts = deltas(ctx, n, m, be)
    p, eps = {}, 1e-5
    dflt = ctx.flag("defaults")
    r_, al = 0.1, 0.2
    if not dflt:
        r_, al = ctx.real("r", 0, 2), ctx.real("alpha", 0, 2)
        eps = 0.25
        p = {"r": r_, "alpha": al, "epsilon": eps}
    for d in ds:
        for x in d:
            ctx.assume(ctx.Or(x > eps + 1e-3, x < -eps - 1e-3, ctx.And(x < eps * 0.5, x > -eps * 0.5)))
    ex = ram_ref(ctx, ds, eps, (r_, al))
    r = mk.run_method("ramplus_tl", {**{k: t.reshape(shape) for k, t in ts.items()}, "b": ctx.mk_tensor(be).reshape(shape)}, params=p, base="b")
    expect(ctx, r, shape, [x + y for x, y in zip(ex, be)], "ram+", F32, tol=4)


def ramplus3(ctx, case):
    """which of three models change which of two elements, in every combination"""
    n, m = case
    be = [1.0, -2.0, 0.5][:m]
    ds = [[ctx.real(f"d{i}{j}", 0.5, 4) if ctx.flag(f"on{i}{j}") else 0.0 for j in range(m)] for i in range(n)]
    r_, al = ctx.real("r", 0, 2), ctx.real("alpha", 0, 2)
    eps = 0.25
    ts = {f"m{i}": ctx.mk_tensor([be[j] + ds[i][j] for j in range(m)]) for i in range(n)}
    ex = ram_ref(ctx, ds, eps, (r_, al))
    r = mk.run_method("ramplus_tl", {**ts, "b": ctx.mk_tensor(be)}, params={"r": r_, "alpha": al, "epsilon": eps}, base="b")
    expect(ctx, r, (m,), [x + y for x, y in zip(ex, be)], "ram+", F32, tol=4)
    q = mk.run_method("ram", {**ts, "b": ctx.mk_tensor(be)}, params={"epsilon": eps}, base="b")
    expect(ctx, q, (m,), [x + y for x, y in zip(ram_ref(ctx, ds, eps), be)], "ram", F32, tol=4)


def ram_none(ctx):
    meth = ctx.choice("meth", ["ram", "ramplus_tl", "sce", "nearswap"])
    b = ctx.tensor("b", (2, 1))
    r = mk.run_method(meth, {"b": b}, params={"t": 0.5} if meth == "nearswap" else {}, base="b")
    expect(ctx, r, (2, 1), ctx.elems(b), "base alone is returned")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=200, keep_samples=2, ite="fork")
OBLIGATIONS = [
    Ob("sce", sce, cases=[(1, 2, None, (2,)), (2, 2, None, (1, 2)), (2, 2, 0.5, (2, 1)), (3, 1, None, (1,)), (2, 1, 0.9, (1,))], tcases=[(3, 2, None, (2,)), (2, 3, 0.7, (3,)), (2, 3, 0.4, (3,)), (3, 2, 0.5, (2,))],
       bounds="1-3 models, 1-3 elements, task vector elements 0 or 1/16..4 in magnitude, selection fractions 0.4..1, distinct variances when selecting"),
    Ob("sce_degenerate", sce_degenerate, bounds="selection fraction 0 or below one element, unchanged models, no models; 3 shapes"),
    Ob("ram", ram, cases=[(1, 2, (2,)), (2, 2, (2, 1)), (3, 1, (1, 1))], tcases=[(3, 2, (1, 2)), (2, 3, (3,))], bounds="1-3 models, 1-3 elements, activity threshold default and 0.5"),
    Ob("ramplus", ramplus, cases=[(1, 2, (2,)), (2, 2, (1, 2)), (3, 1, (1,))], tcases=[(2, 3, (3,)), (3, 2, (2,))], bounds="1-3 models, 1-3 elements, r and alpha in [0,2] or default"),
    Ob("ramplus3", ramplus3, cases=[(3, 2)], tcases=[(3, 3), (4, 2)], max_paths=20000, bounds="3 models, 2 elements, every pattern of changed elements, positive changes, r and alpha in [0,2]"),
    Ob("ram_none", ram_none, bounds="only the base model has the tensor"),
]
