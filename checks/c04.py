"""Task-arithmetic family: base plus a weighted, optionally sparsified and
sign-elected, combination of task vectors."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "more than 3 task vectors, tensors above 3 elements, joint density<1 draws of several models"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup", "Bernoulli draws are arbitrary booleans consistent with their probability"]

# documented behaviour per method: (sign consensus, pruning, normalize by default, rescale by default)
METHODS = {
    "task_arithmetic": (False, None, False, False),
    "ties": (True, "magnitude", True, False),
    "dare_ties": (True, "random", False, True),
    "dare_linear": (False, "random", False, True),
    "breadcrumbs": (False, "outliers", False, False),
    "breadcrumbs_ties": (True, "outliers", False, False),
    "della": (True, "della", True, True),
    "della_linear": (False, "della", False, True),
}


def combine(ctx, base, deltas, ws, ties, normalize, lam):
    """reference combination, element by element"""
    out = []
    for i in range(len(base)):
        terms = [w * d[i] for w, d in zip(ws, deltas)]
        if ties:
            pos = ssum(terms) >= 0
            sel = [ctx.If(pos, t > 0, t < 0) if ctx.symbolic else ((t > 0) if pos else (t < 0)) for t in terms]
            num = ssum(ctx.If(s, t, 0.0) for s, t in zip(sel, terms))
            div = ssum(ctx.If(s, w, 0.0) for s, w in zip(sel, ws))
        else:
            num, div = ssum(terms), ssum(ws)
        if normalize:
            if div == 0:
                div = 1.0
            num = ctx.quot(num, div)
        out.append(base[i] + lam * num)
    return out


def family(ctx, case):
    """density 1: no pruning in any method"""
    meth, n, shape, norm, basepos = case
    ties, _, dnorm, _ = METHODS[meth]
    ts = models(ctx, n, shape)
    b = ctx.tensor("b", shape)
    ws = {k: ctx.real("w_" + k, -2, 2) for k in ts}
    lam = ctx.real("lam", -2, 2) if norm is not None else 1.0
    normalize = dnorm if norm is None else norm
    if normalize and not ties:
        tot = ssum(ws.values())
        ctx.assume(ctx.Or(tot > 0.125, tot < -0.125))
    elif normalize:
        for w in ws.values():
            ctx.assume(w >= 0.125)
    allt = {"b": b, **ts} if basepos == 0 else {**ts, "b": b}
    p = {}
    if norm is not None:
        p = {"normalize": norm, "lambda": lam}
    r = mk.run_method(meth, allt, params=p, tensor_params={k: {"weight": ws[k]} for k in ts}, base="b")
    be = ctx.elems(b)
    ds = [[x - y for x, y in zip(ctx.elems(t), be)] for t in ts.values()]
    expect(ctx, r, shape, combine(ctx, be, ds, list(ws.values()), ties, normalize, lam), meth, F32, tol=4)


def int8(ctx, case):
    meth, norm = case
    ties = METHODS[meth][0]
    ts = models(ctx, 3, (1,))
    b = ctx.tensor("b", (1,))
    ws = [1.0, 0.5, 0.25]
    kw = dict(tensor_params={k: {"weight": w} for k, w in zip(ts, ws)}, base="b")
    r1 = mk.run_method(meth, {"b": b, **ts}, params={"normalize": norm, "int8_mask": True}, **kw)
    be = ctx.elems(b)
    ds = [[x - y for x, y in zip(ctx.elems(t), be)] for t in ts.values()]
    expect(ctx, r1, (1,), combine(ctx, be, ds, ws, ties, norm, 1.0), f"{meth} with int8_mask", F32)


def order(ctx, ab, i):
    """magnitude rank of element i (0 smallest)"""
    return sum(1 for j in range(len(ab)) if j != i and bool(ab[j] < ab[i]))


def pruned(ctx, case):
    """deterministic pruning at per-model densities, then the combination"""
    meth, dens, gammas, norm = case
    ties, kind, dnorm, drs = METHODS[meth]
    n = 3
    ds, ts = [], {}
    b = ctx.mk_tensor([0.5, -1.0, 2.0])
    be = ctx.elems(b)
    for i, d in enumerate(dens):
        t = ctx.tensor(f"d{i}", (n,), lo=-4, hi=4)
        e = ctx.elems(t)
        ds.append(e)
        ts[f"m{i}"] = ctx.mk_tensor([x + y for x, y in zip(e, be)])
    ws = [1.0, 0.5][: len(dens)]
    tp = {}
    for k, w, d, g in zip(ts, ws, dens, gammas):
        tp[k] = {"weight": w, "density": d}
        if g is not None:
            tp[k]["gamma"] = g
    p = {} if norm is None else {"normalize": norm}
    r = mk.run_method(meth, {"b": b, **ts}, params=p, tensor_params=tp, base="b")
    sp = []
    for e, d, g in zip(ds, dens, gammas):
        ab = [absv(ctx, x) for x in e]
        for i in range(n):
            for j in range(i):
                ctx.assume(ctx.Or(ab[i] - ab[j] >= 0.01, ab[j] - ab[i] >= 0.01))
        if d >= 1:
            sp.append(e)
            continue
        tgt = int(d * n)
        top = int((0.01 if g is None else g) * n) if kind == "outliers" else 0
        bot = n - tgt - top
        if bot < 0:
            top, bot = top + bot, 0
        sp.append([x if bot <= order(ctx, ab, i) < n - top else 0.0 for i, x in enumerate(e)])
    expect(ctx, r, (n,), combine(ctx, be, sp, ws, ties, dnorm if norm is None else norm, 1.0), f"{meth} pruned", F32, tol=4)


def stochastic(ctx, case):
    """random pruning applies to the right model, with the default rescaling"""
    meth, rescale = case
    ties, kind, dnorm, drs = METHODS[meth]
    b = ctx.mk_tensor([0.5, -1.0])
    be = ctx.elems(b)
    d = ctx.elems(ctx.tensor("d", (2,), lo=0.25, hi=4))
    o = ctx.elems(ctx.tensor("o", (2,), lo=0.25, hi=4))
    ts = {"full": ctx.mk_tensor([x + y for x, y in zip(o, be)]), "b": b, "pr": ctx.mk_tensor([x + y for x, y in zip(d, be)])}
    dens = ctx.real("density", 0.3, 0.7)
    tp = {"full": {"weight": 0.5}, "pr": {"weight": 2.0, "density": dens}}
    if kind == "della":
        tp["full"]["epsilon"] = 0.05
        tp["pr"]["epsilon"] = 0.25
    p = {"normalize": False}
    if rescale is not None:
        p["rescale"] = rescale
    r = mk.run_method(meth, ts, params=p, tensor_params=tp, base="b")
    ctx.check(shape_of(r) == (2,), "shape")
    res = [(x - y - 0.5 * z) / 2.0 for x, y, z in zip(ctx.elems(r), be, o)]
    live = [not ctx.near(x, 0.0) for x in res]
    sc = drs if rescale is None else rescale
    for i in range(2):
        if not live[i]:
            continue
        if not sc or (live[0] and live[1]):
            ctx.eq(res[i], d[i], f"{meth}: kept entry", tol=8)
        else:
            ctx.eq(res[i], d[0] + d[1], f"{meth}: kept entry rescaled to the original L1 norm", tol=8)
    ps = ctx.probs()
    if ps is not None:
        ctx.check(len(ps) == 2, "only the pruned model draws")
        if kind == "random":
            for q in ps:
                ctx.eq(q, dens, "keep probability is the model's density")
        else:
            ctx.eq(ps[0] + ps[1], 2 * dens, "mean keep probability is the model's density")
            if d[0] < d[1]:
                ctx.eq(ps[1] - ps[0], 0.5, "keep probabilities differ by twice the model's epsilon")


def absent(ctx, case):
    """models without the tensor do not contribute; without any, base is returned"""
    meth, n = case
    ties, _, dnorm, _ = METHODS[meth]
    ts = models(ctx, n, (2,))
    b = ctx.tensor("b", (2,))
    ws = {k: ctx.real("w_" + k, 0.125, 2) for k in ts}
    have = {k: ctx.flag("has_" + k) for k in ts}
    r = mk.run_method(meth, {**{k: (t if have[k] else None) for k, t in ts.items()}, "b": b},
                      tensor_params={k: {"weight": w} for k, w in ws.items()}, base="b")
    be = ctx.elems(b)
    live = [k for k in ts if have[k]]
    ds = [[x - y for x, y in zip(ctx.elems(ts[k]), be)] for k in live]
    ex = combine(ctx, be, ds, [ws[k] for k in live], ties, dnorm, 1.0) if live else be
    expect(ctx, r, (2,), ex, f"{meth} with absent tensors", F32, tol=4)


def skip(ctx, case):
    """a non-embedding tensor of another shape is left out, not mixed in"""
    meth = case
    ties, _, dnorm, _ = METHODS[meth]
    a, c = ctx.tensor("a", (2,)), ctx.tensor("c", (3,))
    b = ctx.tensor("b", (2,))
    r = mk.run_method(meth, {"c": c, "a": a, "b": b}, tensor_params={"a": {"weight": 0.5}, "c": {"weight": 2.0}}, base="b")
    be = ctx.elems(b)
    d = [x - y for x, y in zip(ctx.elems(a), be)]
    expect(ctx, r, (2,), combine(ctx, be, [d], [0.5], ties, dnorm, 1.0), f"{meth} skips mismatching shapes", F32)


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=150, keep_samples=2, ite="fork")
PLAIN = ["task_arithmetic", "dare_linear", "breadcrumbs", "della_linear"]
TIES = ["ties", "dare_ties", "breadcrumbs_ties", "della"]
OBLIGATIONS = [
    Ob("family", family, cases=[(m, n, (2,), nz, bp) for m in PLAIN for n, nz, bp in ((2, None, 0), (3, True, 1), (1, False, 0), (3, False, 1))]
       + [(m, n, (1,), nz, bp) for m in TIES for n, nz, bp in ((2, None, 0), (3, False, 1), (2, True, 1), (1, True, 0), (3, True, 0))]
       + [("task_arithmetic", 2, (1, 2, 1), False, 0), ("ties", 2, (2, 1), None, 1)],
       bounds="1-3 task vectors, 1-2 elements, every real value, weights in [-2,2] (>= 1/8 for sign-elected normalisation; |sum| >= 1/8 otherwise), lambda in [-2,2], density 1, default and explicit normalize"),
    Ob("int8", int8, cases=[(m, nz) for m in TIES for nz in (True, False)], bounds="3 task vectors, every real value, fixed positive weights"),
    Ob("pruned", pruned, cases=[("ties", (0.7,), (None,), None), ("ties", (0.4,), (None,), None), ("ties", (1.0, 0.7), (None, None), None),
                                ("breadcrumbs", (0.4,), (0.4,), None), ("breadcrumbs", (0.7,), (None,), None), ("breadcrumbs_ties", (0.4,), (0.4,), True),
                                ("breadcrumbs", (0.7,), (0.7,), None)],
       tcases=[("ties", (0.4, 0.7), (None, None), None), ("ties", (0.7, 0.4), (None, None), False), ("breadcrumbs", (0.4, 0.7), (0.4, 0.0), None), ("breadcrumbs_ties", (0.7, 0.4), (0.4, 0.4), None)],
       bounds="1-2 task vectors of 3 elements with distinct magnitudes, per-model density and gamma"),
    Ob("stochastic", stochastic, cases=[(m, rs) for m in ("dare_linear", "della_linear", "dare_ties", "della") for rs in (None, True, False)],
       bounds="two task vectors of 2 positive elements, one pruned with density in [0.3,0.7], every draw"),
    Ob("absent", absent, cases=[("task_arithmetic", 3), ("ties", 2), ("dare_linear", 2), ("della", 1)], bounds="every subset of up to 3 models lacks the tensor"),
    Ob("skip", skip, cases=list(METHODS), bounds="one model with a mismatching shape"),
]
