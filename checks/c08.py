"""NearSwap, Arcee Fusion and passthrough."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "tensors above 4 elements, task vector elements closer than 1e-3 to the base in the NearSwap unit"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup", "softmax and log are uninterpreted beyond sign, monotonicity and special values (Arcee Fusion importance)"]


def nearswap(ctx, case):
    """move each base element towards the other model by at most t"""
    shape, first = case
    a, b = ctx.tensor("base", shape), ctx.tensor("other", shape)
    t = ctx.real("t", 0, 2)
    ts = {"b": a, "o": b} if first else {"o": b, "b": a}
    r = mk.run_method("nearswap", ts, params={"t": t}, base="b")
    ex = []
    for x, y in zip(ctx.elems(a), ctx.elems(b)):
        d = y - x
        if d >= 0:
            ctx.assume(ctx.Or(d == 0, d >= 1e-3))
            ex.append(vmin(ctx, y, x + t))
        else:
            ctx.assume(d <= -1e-3)
            ex.append(vmax(ctx, y, x - t))
    expect(ctx, r, shape, ex, "nearswap", F32, tol=4)


def nearswap_many(ctx):
    b = {k: ctx.tensor(k, (1,)) for k in ("b", "x", "y")}
    e = ctx.raises(lambda: mk.run_method("nearswap", b, params={"t": 0.5}, base="b"))
    ctx.check(e is not None, "more than one other model is refused")


def passthrough(ctx, case):
    shape, scaled = case
    a = ctx.tensor("a", shape)
    s = ctx.real("s", -4, 4)
    r = mk.run_method("passthrough", {"a": a}, tensor_params={"a": {"scale": s} if scaled else {}})
    expect(ctx, r, shape, [x * s for x in ctx.elems(a)] if scaled else ctx.elems(a), "passthrough", F32)


def passthrough_many(ctx):
    n = ctx.choice("n", [2, 3])
    e = ctx.raises(lambda: mk.run_method("passthrough", models(ctx, n, (2,))))
    ctx.check(e is not None, "passthrough of several tensors is refused")


def fusion(ctx, case):
    """every element comes from the base or from the other model; elements whose
    importance is at least the threshold are taken, the top one always"""
    shape, first = case
    a, b = ctx.tensor("a", shape, lo=-2, hi=2), ctx.tensor("b", shape, lo=-2, hi=2)
    ts = {"b": a, "o": b} if first else {"o": b, "b": a}
    r = mk.run_method("arcee_fusion", ts, base="b")
    ctx.check(shape_of(r) == tuple(shape) and r.dtype == F32, "shape and dtype")
    for x, y, o in zip(ctx.elems(a), ctx.elems(b), ctx.elems(r)):
        ctx.check(ctx.Or(ctx.near(o, x), ctx.near(o, y)), "each element is the base's or the other model's")


def fusion_pick(ctx, case):
    """importance = |difference| * KL(softmax rows); elements at or above
    median + 1.5 IQR of the importance move, the others keep the base value"""
    nr, first = case
    be = [[0.5, -1.0], [0.25, 1.0]][:nr]
    d = [ctx.elems(ctx.tensor(f"d{r}", (2,), lo=-2 if nr == 1 else 0, hi=2)) for r in range(nr)]
    oe = [[x + y for x, y in zip(dr, br)] for dr, br in zip(d, be)]
    imp = []
    for r in range(nr):
        p, q = [[ctx.fn("exp", x) for x in v] for v in (oe[r], be[r])]
        sp, sq = ssum(p), ssum(q)
        p = [ctx.quot(x, sp) + 1e-8 for x in p]
        q = [ctx.quot(x, sq) + 1e-8 for x in q]
        kl = ssum(x * ctx.fn("log", ctx.quot(x, y)) for x, y in zip(p, q))
        imp += [absv(ctx, (o - b)) * kl for o, b in zip(oe[r], be[r])]
    a, b = ctx.mk_tensor(be), ctx.mk_tensor(oe)
    if nr == 1:
        a, b = a.reshape(2), b.reshape(2)
    ts = {"b": a, "o": b} if first else {"o": b, "b": a}
    r = mk.run_method("arcee_fusion", ts, base="b")
    n = len(imp)
    order = sorted(range(n), key=lambda i: (sum(1 for j in range(n) if j != i and bool(imp[j] < imp[i])), i))
    q = lambda f: imp[order[int(f * (n - 1))]]
    thr = q(0.5) + 1.5 * (q(0.75) - q(0.25))
    out = ctx.elems(r)
    bf = [x for v in be for x in v]
    of = [x for v in oe for x in v]
    for i in range(n):
        if not ctx.symbolic and abs(imp[i] - thr) <= 1e-4 * (1 + abs(thr)):
            continue
        sel = bool(imp[i] >= thr)
        ctx.eq(out[i], of[i] if sel else bf[i], "element %s the threshold" % ("at or above" if sel else "below"))


def fusion_edge(ctx):
    """only one of the two models has the tensor / unchanged models / three models"""
    mode = ctx.choice("mode", ["one", "same", "three"])
    a = ctx.tensor("a", (2,))
    if mode == "one":
        who = ctx.choice("who", ["b", "o"])
        r = mk.run_method("arcee_fusion", {"b": a if who == "b" else None, "o": a if who == "o" else None}, base="b")
        expect(ctx, r, (2,), ctx.elems(a), "single tensor is returned")
    elif mode == "same":
        r = mk.run_method("arcee_fusion", {"b": a, "o": ctx.mk_tensor(ctx.elems(a))}, base="b")
        expect(ctx, r, (2,), ctx.elems(a), "identical models")
    else:
        e = ctx.raises(lambda: mk.run_method("arcee_fusion", {"b": a, "o": a, "p": a}, base="b"))
        ctx.check(e is not None, "three models are refused")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=150, keep_samples=2, ite="fork")
OBLIGATIONS = [
    Ob("nearswap", nearswap, cases=[((2,), True), ((2, 1), False), ((1,), True)], bounds="1-2 elements, every t in [0,2], difference 0 or >= 1e-3"),
    Ob("nearswap_many", nearswap_many, bounds="two other models"),
    Ob("passthrough", passthrough, cases=[(s, k) for s in ((2,), (2, 2), (1, 1, 2)) for k in (False, True)], bounds="up to 4 elements, every scale in [-4,4]"),
    Ob("passthrough_many", passthrough_many, bounds="2-3 models"),
    Ob("fusion", fusion, cases=[((2,), True), ((1, 2), False)], bounds="2 elements in [-2,2]"),
    Ob("fusion_pick", fusion_pick, cases=[(1, True), (1, False), (2, True)], abstract=4, branch_timeout_ms=300, bounds="1-2 rows of 2 elements, fixed base values, every difference in [-2,2]"),
    Ob("fusion_edge", fusion_edge, bounds="one, two identical or three tensors"),
]
