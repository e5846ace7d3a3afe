"""Laws every merge method obeys: identical inputs, listing order, lone model."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "tensors above 3 elements, more than 3 models; DARE/DELLA at densities below 1; order independence of the angle based methods beyond the tested directions"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup"]

W = [0.5, 2.0, 1.25]
# method -> (needs base, number of non-base models allowed, params, per model params)
M = {
    "linear": (False, (2, 3), {}, lambda i: {"weight": W[i]}),
    "slerp": (True, (1,), {"t": 0.3}, lambda i: {}),
    "nuslerp": (False, (2,), {}, lambda i: {"weight": [0.5, 1.5][i]}),
    "model_stock": (True, (2, 3), {}, lambda i: {}),
    "arcee_fusion": (True, (1,), {}, lambda i: {}),
    "karcher": (False, (2, 3), {}, lambda i: {}),
    "multislerp": (False, (2, 3), {}, lambda i: {"weight": W[i]}),
    "task_arithmetic": (True, (1, 2, 3), {}, lambda i: {"weight": W[i]}),
    "ties": (True, (1, 2, 3), {}, lambda i: {"weight": W[i], "density": 0.6}),
    "dare_ties": (True, (2,), {}, lambda i: {"weight": W[i]}),
    "dare_linear": (True, (2,), {}, lambda i: {"weight": W[i]}),
    "breadcrumbs": (True, (2,), {}, lambda i: {"weight": W[i], "density": 0.6}),
    "breadcrumbs_ties": (True, (2,), {}, lambda i: {"weight": W[i], "density": 0.6}),
    "della": (True, (2,), {}, lambda i: {"weight": W[i]}),
    "della_linear": (True, (2,), {}, lambda i: {"weight": W[i]}),
    "sce": (True, (1, 2, 3), {}, lambda i: {}),
    "ram": (True, (1, 2, 3), {}, lambda i: {}),
    "ramplus_tl": (True, (1, 2, 3), {}, lambda i: {}),
    "nearswap": (True, (1,), {"t": 0.5}, lambda i: {}),
}


def fixpoint(ctx, case):
    """merging copies of one model (base included) returns that model"""
    meth, n, shape = case
    base, _, params, tp = M[meth]
    v = ctx.tensor("v", shape, lo=-4, hi=4)
    e = ctx.elems(v)
    if meth in ("karcher", "slerp", "nuslerp"):
        ctx.assume(dot(e, e) >= 0.25)
    ts = {f"m{i}": ctx.mk_tensor(e).reshape(shape) for i in range(n)}
    t_p = {k: tp(i) for i, k in enumerate(ts)}
    if base:
        ts = {"b": v, **ts} if n % 2 else {**ts, "b": v}
    r = mk.run_method(meth, ts, params=params, tensor_params=t_p, base="b" if base else None)
    expect(ctx, r, shape, e, f"{meth}: merge of identical models", F32, tol=8)


def order(ctx, case):
    """the order in which models are listed does not matter"""
    meth, n, perm = case
    base, _, params, tp = M[meth]
    ts, t_p = {}, {}
    # angle based methods: fixed directions, symbolic lengths
    dirs = [(3.0, 4.0), (4.0, -3.0), (-5.0, 12.0)]
    angle = meth in ("slerp", "nuslerp", "model_stock", "karcher", "multislerp", "arcee_fusion")
    for i in range(n):
        if angle:
            k = ctx.real(f"k{i}", 0.5, 2) if meth not in ("multislerp", "arcee_fusion") else 1.0
            ts[f"m{i}"] = ctx.mk_tensor([k * x for x in dirs[i]])
        elif meth in ("sce",) and n == 2:
            ts[f"m{i}"] = ctx.tensor(f"m{i}", (1,))
        else:
            ts[f"m{i}"] = ctx.tensor(f"m{i}", (2,))
        t_p[f"m{i}"] = tp(i)
        t_p[f"m{i}"].pop("density", None)
    if base:
        shape = tuple(ts["m0"].shape)
        ts["b"] = ctx.mk_tensor([0.25, -0.5][: shape[0]])
    p = dict(params)
    if meth == "karcher":
        p["max_iter"] = 1
    names = list(ts)
    ms = [names[i] for i in perm if i < n]
    pos = list(perm).index(n) if base else None
    if base:
        ms.insert(pos, "b")
    kw = dict(params=p, base="b" if base else None)
    a = mk.run_method(meth, dict(ts), tensor_params=t_p, **kw)
    b = mk.run_method(meth, {k: ts[k] for k in ms}, tensor_params=t_p, **kw)
    expect(ctx, b, shape_of(a), ctx.elems(a), f"{meth}: listing order {ms}", F32, tol=8)


def lone(ctx, case):
    """methods that accept a single model return it unchanged"""
    meth = case
    _, _, params, tp = M[meth]
    v = ctx.tensor("v", (1, 2))
    r = mk.run_method(meth, {"m0": v}, params=params, tensor_params={"m0": tp(0)}, base="m0" if M[meth][0] else None)
    expect(ctx, r, (1, 2), ctx.elems(v), f"{meth}: single model", F32)


def _orders():
    out = []
    for m, (base, ns, _, _) in M.items():
        n = 2 if 2 in ns else ns[0]
        tot = n + (1 if base else 0)
        ps = perms(tot)
        out += [(m, n, p) for p in (ps[1:] if tot <= 2 else [ps[2], ps[-1]])]
    for m in ("linear", "task_arithmetic", "ties"):
        out.append((m, 3, (2, 0, 3, 1) if M[m][0] else (2, 0, 1)))
    return out


OPTS = dict(branch_timeout_ms=800, prove_timeout_ms=20000, time_s=100, keep_samples=1, ite="fork", abstract=4, lazy_assume=True)
OBLIGATIONS = [
    Ob("fixpoint", fixpoint, cases=[(m, n, (2,)) for m, v in M.items() for n in v[1] if m != "multislerp"] + [("ties", 2, (2, 1)), ("model_stock", 2, (1, 2)), ("slerp", 1, (2, 1)), ("linear", 2, (1, 1, 2))],
       bounds="every registered method except multislerp (whose norm guard is part of its formula, C03), 1-3 copies of every 2-element tensor in [-4,4] (norm >= 1/2 for the angle based methods)"),
    Ob("order", order, cases=_orders(), bounds="every registered method, 1-3 models plus base, selected permutations; every value for the linear methods, fixed directions with symbolic lengths for the angle based ones"),
    Ob("lone", lone, cases=["linear", "slerp", "nuslerp", "karcher", "model_stock", "task_arithmetic", "ties", "sce", "ram", "ramplus_tl", "nearswap", "arcee_fusion", "multislerp"], bounds="one 1x2 tensor, every value"),
]
