"""Model Stock: interpolation ratio from the average pairwise angle of the task vectors."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "more than 4 fine-tuned models, vectors above 4 elements, the neighbourhood of the pole of the ratio (average cosine near but not at -1/(N-1)), task vectors shorter than 1/2"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup"]

FIX = [(3.0, 4.0), (4.0, -3.0), (12.0, 5.0), (0.0, 2.0)]


def norm(ctx, v):
    return ctx.sqrt(dot(v, v))


def cosine(ctx, a, b, na=None, nb=None):
    c = ctx.quot(dot(a, b), (na or norm(ctx, a)) * (nb or norm(ctx, b)))
    return clamp(ctx, c, -1.0, 1.0)


def ratio(ctx, ds):
    n = len(ds)
    ns = [norm(ctx, d) for d in ds]
    cs = [cosine(ctx, ds[i], ds[j], ns[i], ns[j]) for i in range(n) for j in range(i + 1, n)]
    c = ctx.quot(ssum(cs), float(len(cs)))
    den = 1 + (n - 1) * c
    ctx.assume(ctx.Or(den >= 0.25, den <= -0.25))
    return ctx.quot(n * c, den)


def stock_vec(ctx, base, vecs):
    """one vector: the reference formula"""
    ds = [[x - y for x, y in zip(v, base)] for v in vecs]
    t = ratio(ctx, ds)
    avg = [ctx.quot(ssum(v[i] for v in vecs), float(len(vecs))) for i in range(len(base))]
    return [t * a + (1 - t) * b for a, b in zip(avg, base)]


def run(ctx, ts, base, fw, **kw):
    return mk.run_method("model_stock", ts, params={} if fw is None else {"filter_wise": fw}, base=base, **kw)


def whole(ctx, case):
    """tensor-wise: the whole tensor is one vector"""
    n, shape, fw, basepos, free = case
    be = [1.0, -2.0]
    b = ctx.mk_tensor(be).reshape(shape)
    ts, vecs = {}, []
    for i in range(n):
        if i == free:
            d = ctx.elems(ctx.tensor(f"d{i}", (2,), lo=-4, hi=4))
            ctx.assume(dot(d, d) >= 0.25)
        else:
            d = FIX[i]
        v = [x + y for x, y in zip(d, be)]
        vecs.append(v)
        ts[f"m{i}"] = ctx.mk_tensor(v).reshape(shape)
    items = list(ts.items())
    items.insert(basepos, ("b", b))
    ex = stock_vec(ctx, be, vecs)
    r = run(ctx, dict(items), "b", fw)
    expect(ctx, r, shape, ex, "model stock", F32, tol=8)


def rowwise(ctx, case):
    """filter-wise: every row has its own ratio; 1-d tensors are one row"""
    n, shape = case
    nr = shape[0] if len(shape) > 1 else 1
    base = [[0.5, -1.0] for _ in range(nr)]
    rowsv = []
    for r in range(nr):
        vs = []
        for i in range(n):
            k = ctx.real(f"k{r}_{i}", 0.5, 4)
            d = FIX[(i + r) % 3] if (i + r) % 2 == 0 else FIX[(i + 2 * r) % 4]
            vs.append([k * x + y for x, y in zip(d, base[r])])
        rowsv.append(vs)
    ts = {f"m{i}": ctx.mk_tensor([x for r in range(nr) for x in rowsv[r][i]]).reshape(shape) for i in range(n)}
    b = ctx.mk_tensor([x for r in base for x in r]).reshape(shape)
    ex = []
    for r in range(nr):
        ex += stock_vec(ctx, base[r], rowsv[r])
    res = run(ctx, {"b": b, **ts}, "b", True)
    expect(ctx, res, shape, ex, "filter-wise model stock", F32, tol=8)


def scaled(ctx, case):
    """tensor-wise on a matrix whose rows have different angles: one ratio for all"""
    n = case
    be = [0.0, 1.0, 0.5, -1.0]
    D = [(1.0, 2.0, 2.0, 4.0), (4.0, 2.0, 2.0, -1.0), (1.0, 1.0, 1.0, 1.0)]
    vs = []
    for i in range(n):
        k = ctx.real(f"k{i}", 0.5, 4)
        vs.append([k * x + y for x, y in zip(D[i], be)])
    ts = {f"m{i}": ctx.mk_tensor(v).reshape(2, 2) for i, v in enumerate(vs)}
    ex = stock_vec(ctx, be, vs)
    r = run(ctx, {**ts, "b": ctx.mk_tensor(be).reshape(2, 2)}, "b", ctx.choice("fw", [None, False]))
    expect(ctx, r, (2, 2), ex, "tensor-wise model stock", F32, tol=8)


def identical(ctx):
    """identical fine-tuned models: the result is that model"""
    n = ctx.choice("n", [2, 3, 4])
    fw = ctx.flag("fw")
    d = ctx.elems(ctx.tensor("d", (2,), lo=-4, hi=4))
    ctx.assume(dot(d, d) >= 0.25)
    be = [1.0, 2.0]
    v = [x + y for x, y in zip(d, be)]
    ts = {f"m{i}": ctx.mk_tensor(v).reshape(1, 2) for i in range(n)}
    r = run(ctx, {"b": ctx.mk_tensor(be).reshape(1, 2), **ts}, "b", fw)
    expect(ctx, r, (1, 2), v, "identical fine-tuned models", F32, tol=4)


def nochange(ctx):
    """fine-tuned models that left the tensor unchanged: base is returned"""
    b = ctx.tensor("b", (2, 2))
    be = ctx.elems(b)
    n = ctx.choice("n", [2, 3])
    r = run(ctx, {"b": b, **{f"m{i}": ctx.mk_tensor(be).reshape(2, 2) for i in range(n)}}, "b", ctx.flag("fw"))
    expect(ctx, r, (2, 2), be, "unchanged tensor", F32)


def opposed(ctx, dtype):
    """exactly opposed task vectors, for which no ratio exists, leave the base unchanged"""
    dt = {"f32": F32, "bf16": torch.bfloat16}[dtype]
    n = 2 if ctx.flag("two rows") else 1
    fw = n == 2 or ctx.flag("fw")
    be, va, vb = [], [], []
    for r in range(n):
        b, x, k = ctx.choice(f"b{r}", [0.0, 1.0]), ctx.real(f"x{r}", 0.5, 4) if dtype == "f32" else ctx.choice(f"x{r}", [0.5, 4.0]), ctx.choice(f"k{r}", [1.0, 0.5])
        x = ctx.If(ctx.flag(f"neg{r}"), -x, x)
        be.append(b)
        va.append(b + x)
        vb.append(b - k * x)
    mkt = lambda v: ctx.mk_tensor(v, dt).reshape(n, 1)
    r = run(ctx, {"a": mkt(va), "b": mkt(be), "c": mkt(vb)}, "b", fw)
    expect(ctx, r, (n, 1), be, "opposed task vectors", dt)


def few(ctx):
    """too few models: base alone is returned, one fine-tuned model is refused
    (or the optional tensor dropped)"""
    b, a, c = ctx.tensor("b", (2,)), ctx.tensor("a", (2,)), ctx.tensor("c", (2,))
    ha, hc, hb = ctx.flag("a?"), ctx.flag("c?"), ctx.flag("b?")
    opt = ctx.flag("opt")
    ctx.assume(not (ha and hc and hb))
    ctx.assume(ha or hc or hb)
    ts = {}
    if hb:
        ts["b"] = b
    if ha:
        ts["a"] = a
    if hc:
        ts["c"] = c
    box = {}

    def go():
        box["r"] = run(ctx, ts, "b", None, optional=opt)

    e = ctx.raises(go)
    if hb and not ha and not hc:
        ctx.check(e is None, "base alone is accepted")
        expect(ctx, box["r"], (2,), ctx.elems(b), "base alone")
    elif opt:
        ctx.check(e is None and box["r"] is None, "optional tensor is left out")
    else:
        ctx.check(isinstance(e, ValueError), "too few models are refused")


OPTS = dict(branch_timeout_ms=1000, prove_timeout_ms=20000, time_s=120, keep_samples=3, ite="fork", abstract=4, lazy_assume=True)
OBLIGATIONS = [
    Ob("whole", whole, cases=[(2, (2,), None, 0, 0), (2, (2,), False, 1, 1), (2, (1, 2), True, 2, 0), (3, (2,), None, 3, 9), (2, (2, 1), None, 0, 1), (3, (2,), False, 1, 0), (4, (2,), None, 2, 9)],
       bounds="2-4 fine-tuned models, 2 elements, one task vector symbolic in [-4,4]^2 (norm >= 1/2), the others fixed; base in every listing position"),
    Ob("rowwise", rowwise, cases=[(2, (2, 2)), (3, (2, 2)), (2, (2,)), (3, (1, 2))], bounds="1-2 rows, fixed row directions, symbolic row lengths in [1/2,4]"),
    Ob("scaled", scaled, cases=[2, 3], bounds="2x2 matrices with fixed directions and symbolic lengths"),
    Ob("identical", identical, bounds="2-4 identical models, any task vector of norm >= 1/2"),
    Ob("nochange", nochange, bounds="2-3 models equal to the base, 2x2"),
    Ob("opposed", opposed, cases=["f32", "bf16"], bounds="1-2 rows of one element, any task vector in [1/2,4] and its opposite or half of it"),
    Ob("few", few, bounds="every subset of base and two models that is too small"),
]
