"""SLERP and NuSLERP: two-model spherical interpolation."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "tensors above 4 elements, vectors shorter than 1/4, exactly or nearly antiparallel vectors in float arithmetic (slerp is singular there)"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup", "acos/sin are uninterpreted functions with range, sign and special-value axioms"]


def norm(ctx, v):
    return ctx.sqrt(dot(v, v))


def cosine(ctx, a, b):
    na, nb = norm(ctx, a), norm(ctx, b)
    ctx.assume(ctx.And(na >= 0.25, nb >= 0.25))
    return ssum((x / na) * (y / nb) for x, y in zip(a, b))


def slerp_ref(ctx, t, a, b, thr):
    """reference: formula unless (nearly) colinear, then straight interpolation"""
    c = cosine(ctx, a, b)
    lin = [(1 - t) * x + t * y for x, y in zip(a, b)]
    if thr is not None:
        if ctx.Or(c > thr, c < -thr):
            return lin
        th = ctx.fn("acos", c)
        s = ctx.fn("sin", th)
        return [(ctx.fn("sin", th - th * t) * x + ctx.fn("sin", th * t) * y) / s for x, y in zip(a, b)]
    c = clamp(ctx, c, -1.0, 1.0)
    th = ctx.fn("acos", c)
    s = ctx.fn("sin", th)
    if ctx.And(s < 1e-8, s > -1e-8):
        return lin
    return [(ctx.fn("sin", th - th * t) * x + ctx.fn("sin", th * t) * y) / s for x, y in zip(a, b)]


def part(ctx, name, shape, at, rest):
    """two symbolic elements (positions `at`), the others fixed"""
    n = 1
    for d in shape:
        n *= d
    if n == 2:
        return ctx.tensor(name, shape, lo=-8, hi=8)
    v = ctx.elems(ctx.tensor(name, (2,), lo=-8, hi=8))
    e = list(rest[:n])
    for k, i in enumerate(at):
        e[i] = v[k]
    return ctx.mk_tensor(e).reshape(shape)


def slerp(ctx, case):
    shape, order, t = case
    a, b = part(ctx, "a", shape, (0, 1), [1.0, 2.0, -1.0, 0.5]), part(ctx, "b", shape, (1, 2), [0.5, 1.0, 2.0, -2.0])
    t = ctx.real("t", 0, 1) if t is None else t
    ea, eb = ctx.elems(a), ctx.elems(b)
    c = cosine(ctx, ea, eb)
    # stay clear of the switch-over point so that rounding cannot flip it
    ctx.assume(ctx.Or(ctx.And(c < 0.9994, c > -0.9994), c > 0.9996, c < -0.9996))
    ts = {"a": a, "b": b} if order == 0 else {"b": b, "a": a}
    r = mk.run_method("slerp", ts, params={"t": t}, base="a")
    expect(ctx, r, shape, slerp_ref(ctx, t, ea, eb, 0.9995), f"slerp base order {order}", F32, tol=8)


def slerp_zero(ctx, case):
    """a zero tensor on either side is interpolated, never NaN"""
    shape, which = case
    z = ctx.mk_tensor([0.0] * shape[0])
    v = ctx.tensor("v", shape, lo=-8, hi=8)
    t = ctx.real("t", 0, 1)
    a, b = (z, v) if which else (v, z)
    r = mk.run_method("slerp", {"a": a, "b": b}, params={"t": t}, base="a")
    ctx.defined(r, "slerp with a zero tensor")
    ctx.check(tuple(r.shape) == tuple(shape), "shape")


def slerp_ends(ctx, case):
    shape, order = case
    a, b = part(ctx, "a", shape, (0, 3), [1.0, 2.0, -1.0, 0.5]), part(ctx, "b", shape, (1, 2), [0.5, 1.0, 2.0, -2.0])
    end = ctx.choice("end", [0.0, 1.0])
    c = cosine(ctx, ctx.elems(a), ctx.elems(b))
    ctx.assume(ctx.And(c < 0.999, c > -0.999))
    ts = {"a": a, "b": b} if order == 0 else {"b": b, "a": a}
    r = mk.run_method("slerp", ts, params={"t": end}, base="a")
    expect(ctx, r, shape, ctx.elems(b if end else a), f"slerp end point t={end}", F32, tol=8)


def slerp_refuse(ctx):
    n = ctx.choice("n", [1, 2, 3])
    hasbase = ctx.flag("base_in")
    ts = models(ctx, n, (2,))
    base = "m0" if hasbase else "other"
    e = ctx.raises(lambda: mk.run_method("slerp", ts, params={"t": 0.5}, base=base))
    ctx.check((e is not None) == (n == 3 or (n == 2 and not hasbase)), "slerp needs two models, one the base")
    if n == 1:
        r = mk.run_method("slerp", ts, params={"t": 0.5}, base=base)
        expect(ctx, r, (2,), ctx.elems(ts["m0"]), "single model passes through")


def nuslerp(ctx, case):
    shape, mode, based, same = case[:4]
    free = case[4] if len(case) > 4 else None
    a, b = ctx.tensor("a", shape, lo=-4, hi=4), ctx.tensor("b", shape, lo=-4, hi=4)
    wa, wb = ctx.real("wa", 0, 4), ctx.real("wb", 0, 4)
    tot = wa + wb
    ctx.assume(tot >= 0.25)
    p = {"default": {}, "flat": {"nuslerp_flatten": True, "nuslerp_row_wise": True},
         "col": {"nuslerp_flatten": False}, "row": {"nuslerp_flatten": False, "nuslerp_row_wise": True}}[mode]
    if mode in ("row", "col") and len(shape) > 1 and free is not None:
        a, b = _fix_lanes(ctx, a, b, shape, mode, free)
    ts = {"a": a, "b": b}
    tp = {"a": {"weight": wa}, "b": {"weight": wb}, "z": {"weight": 3.0}}
    ea, eb = ctx.elems(a), ctx.elems(b)
    ez = [0] * len(ea)
    if based:
        z = ctx.tensor("z", shape, lo=-4, hi=4)
        ez = ctx.elems(z)
        ts = {"z": z, "a": a, "b": b} if based == 1 else {"a": a, "z": z, "b": b}
    t = wb / tot
    da = [x - y for x, y in zip(ea, ez)]
    db = [x - y for x, y in zip(eb, ez)]
    idx = list(range(len(ea)))
    if mode in ("default", "flat"):
        lanes = [idx]
    else:
        ax = 0 if mode == "row" else len(shape) - 1
        lanes = _lanes(shape, ax)
    for ln in lanes:
        c = cosine(ctx, [da[i] for i in ln], [db[i] for i in ln])
        ctx.assume(c > -0.99)
        if same:
            ctx.assume(c < 0.999)
    r = mk.run_method("nuslerp", ts, params=p, tensor_params=tp, base="z" if based else None)
    exp = [None] * len(ea)
    for ln in lanes:
        v = slerp_ref(ctx, t, [da[i] for i in ln], [db[i] for i in ln], None)
        for i, x in zip(ln, v):
            exp[i] = x + ez[i]
    expect(ctx, r, shape, exp, f"nuslerp {mode}", F32, tol=16)


def _lanes(shape, ax):
    import numpy as np

    ids = np.arange(int(np.prod(shape))).reshape(shape)
    ids = np.swapaxes(ids, ax, -1)
    return [[int(i) for i in row] for row in ids.reshape(-1, ids.shape[-1])]


def _fix_lanes(ctx, a, b, shape, mode, free):
    """keep one vector symbolic, give the others fixed directions"""
    ea, eb = ctx.elems(a), ctx.elems(b)
    fa, fb = [3.0, 4.0], [4.0, -3.0]
    for j, ln in enumerate(_lanes(shape, 0 if mode == "row" else len(shape) - 1)):
        if j != free:
            for k, i in enumerate(ln):
                ea[i], eb[i] = fa[k] + j, fb[k] + j
    return ctx.mk_tensor(ea).reshape(shape), ctx.mk_tensor(eb).reshape(shape)


def nuslerp_colinear(ctx, case):
    """parallel tensors: the result is the straight interpolation, per vector"""
    shape, mode = case
    a = ctx.tensor("a", shape, lo=1, hi=4)
    k = ctx.real("k", 0.5, 2)
    b = ctx.mk_tensor([k * x for x in ctx.elems(a)]).reshape(shape)
    wb = ctx.real("wb", 0, 1)
    p = {"flat": {}, "col": {"nuslerp_flatten": False},
         "row": {"nuslerp_flatten": False, "nuslerp_row_wise": True}}[mode]
    r = mk.run_method("nuslerp", {"a": a, "b": b}, params=p, tensor_params={"a": {"weight": 1 - wb}, "b": {"weight": wb}})
    expect(ctx, r, shape, [(1 - wb) * x + wb * k * x for x in ctx.elems(a)], "parallel tensors", F32, tol=16)


def nuslerp_zero_weights(ctx):
    """weights summing to (about) zero mean an even blend"""
    a, b = ctx.tensor("a", (2,), lo=1, hi=2), ctx.tensor("b", (2,), lo=-1, hi=1)
    w = ctx.real("w", -2, 2)
    args = dict(params={})
    r = mk.run_method("nuslerp", {"a": a, "b": b}, tensor_params={"a": {"weight": w}, "b": {"weight": -w}})
    q = mk.run_method("nuslerp", {"a": a, "b": b}, tensor_params={"a": {"weight": 1.0}, "b": {"weight": 1.0}})
    expect(ctx, r, (2,), ctx.elems(q), "cancelling weights give the midpoint", F32, tol=8)


def nuslerp_refuse(ctx):
    n = ctx.choice("n", [1, 2, 3, 4])
    based = ctx.flag("based")
    base_in = ctx.flag("base_in")
    ctx.assume(based or not base_in)
    ts = models(ctx, n, (2,))
    base = None if not based else ("m1" if base_in and n > 1 else "m0" if base_in else "other")
    f = lambda: mk.run_method("nuslerp", ts, tensor_params={k: {"weight": 1.0} for k in ts}, base=base)
    ok = n == 1 or (n == 2 and not based) or (n == 3 and based and base_in)
    if ok and n > 1:
        es = [ctx.elems(t) for t in ts.values()]
        b = ctx.elems(ts[base]) if based else [0, 0]
        for k, t in ts.items():
            if k != base:
                d = [x - y for x, y in zip(ctx.elems(t), b)]
                ctx.assume(dot(d, d) >= 0.25)
    e = ctx.raises(f)
    ctx.check((e is None) == ok, f"nuslerp with {n} models, base {base}: accepted iff two models plus the base")


OPTS = dict(branch_timeout_ms=300, prove_timeout_ms=10000, time_s=100, ite="fork", lazy_assume=True, keep_samples=2)
OBLIGATIONS = [
    Ob("slerp", slerp, cases=[((2,), 0, None), ((2,), 1, None), ((1, 2), 0, 0.25), ((3,), 0, 0.5), ((2, 2), 1, 0.75)],
       bounds="two tensors of up to 4 elements, two of them symbolic in [-8,8] per tensor, norms >= 1/4, t in [0,1] symbolic or fixed, both listing orders"),
    Ob("slerp_zero", slerp_zero, cases=[((2,), 0), ((2,), 1)], bounds="one side all zero, other side any real 2-vector in [-8,8]"),
    Ob("slerp_ends", slerp_ends, cases=[((2,), 0), ((2,), 1), ((2, 2), 0)], bounds="t=0 and t=1, up to 4 elements"),
    Ob("slerp_refuse", slerp_refuse, bounds="1-3 models, base present or absent"),
    Ob("nuslerp", nuslerp, cases=[((2,), "default", 0, 1), ((2, 2), "col", 0, 1, 0), ((2, 2), "col", 0, 1, 1), ((2, 2), "row", 0, 1, 0), ((2, 2), "row", 0, 1, 1), ((2,), "flat", 1, 1), ((2,), "default", 2, 1),
                                  ((1, 2), "col", 1, 1), ((2, 1), "row", 2, 1), ((1, 2, 2), "col", 0, 1, 0), ((1, 2), "default", 0, 0)],
       tcases=[((2, 2), "default", 0, 1), ((2, 2), "col", 1, 1, 1), ((2, 2), "row", 1, 1, 0)],
       bounds="two tensors (plus base) of up to 4 elements in [-4,4], weights in [0,4] with sum >= 1/4, flatten / last-dim / first-dim vectors, norms >= 1/4"),
    Ob("nuslerp_colinear", nuslerp_colinear, cases=[((2,), "flat"), ((2, 2), "col"), ((2, 2), "row"), ((1, 2, 2), "col"), ((2, 1, 2), "col")],
       bounds="b = k*a with k in [1/2,2], elements of a in [1,4]"),
    Ob("nuslerp_zero_weights", nuslerp_zero_weights, bounds="weights w and -w"),
    Ob("nuslerp_refuse", nuslerp_refuse, bounds="1-4 models, with/without base"),
]
