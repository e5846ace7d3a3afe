"""Sparsification of task vectors."""
from .lib import *

IMPORTS = ["mergekit.sparsify"]
OUTSIDE = "tensors above 6 elements; the distribution of the random draws beyond their keep probabilities"
ASSUMPTIONS = ["Bernoulli draws are arbitrary booleans consistent with their probability",
               "non-zero elements have magnitude >= 0.01 so that the 1e-7 norm guard is not hit"]

DENS = [0.25, 0.5, 0.6, 0.75, 1.0]


def call(t, density, method, norm=None, **kw):
    from mergekit.sparsify import RescaleNorm, SparsificationMethod, sparsify

    return sparsify(t, density=density, method=SparsificationMethod(method),
                    rescale_norm=RescaleNorm(norm) if norm else None, **kw)


def inp(ctx, shape, pos=False):
    t = ctx.tensor("x", shape, lo=0.01 if pos else -4, hi=4)
    e = ctx.elems(t)
    if pos:
        return t, e
    for x in e:
        ctx.assume(ctx.Or(x == 0, x >= 0.01, x <= -0.01))
    return t, e


def is0(ctx, o):
    return ctx.near(o, 0.0)


def shape_spec(ctx, x, out, norm, msg):
    """every element is dropped or kept up to one common positive factor; the
    factor is 1 without rescaling and restores the chosen norm with it.
    -> list of bools (kept), decided on this path"""
    kept = []
    for a, o in zip(x, out):
        if norm is None:
            ctx.check(ctx.Or(ctx.near(o, 0.0), ctx.near(o, a)), f"{msg}: element neither dropped nor kept as is")
        k = not (is0(ctx, o))
        kept.append(bool(k))
    if norm is None:
        return kept
    live = [i for i, k in enumerate(kept) if k]
    if not live:
        return kept
    for i in live:
        for j in live:
            if i < j:
                ctx.eq(out[i] * x[j], out[j] * x[i], f"{msg}: kept elements keep their proportions", tol=8)
        ctx.check(out[i] * x[i] >= 0, f"{msg}: sign preserved")
    ab = [absv(ctx, v) for v in x]
    ao = [absv(ctx, v) for v in out]
    if norm == "l1":
        ctx.eq(ssum(ao), ssum(ab), f"{msg}: L1 norm restored", tol=8)
    elif norm == "l2":
        ctx.eq(dot(out, out), dot(x, x), f"{msg}: L2 norm restored", tol=16)
    else:
        m = ab[0]
        for v in ab[1:]:
            m = vmax(ctx, m, v)
        n = ao[0]
        for v in ao[1:]:
            n = vmax(ctx, n, v)
        ctx.eq(n, m, f"{msg}: max norm restored", tol=8)
    return kept


def nonzero(x):
    return [not (v == 0) for v in x]


def magnitude(ctx, case):
    shape, dens, norm = case
    t, x = inp(ctx, shape)
    n = len(x)
    k = int(dens * n)
    r = call(t, dens, "magnitude", norm)
    ctx.check(shape_of(r) == tuple(shape) and r.dtype == F32, "shape and dtype kept")
    out = ctx.elems(r)
    if dens >= 1:
        ctx.eq(out, x, "density 1 keeps everything")
        return
    nz = [bool(v) for v in nonzero(x)]
    kept = shape_spec(ctx, x, out, norm, "magnitude")
    ctx.check(sum(kept) == min(k, sum(nz)), f"keeps {k} elements")
    for i in range(n):
        for j in range(n):
            if kept[i] and nz[j] and not kept[j]:
                ctx.le(absv(ctx, x[j]), absv(ctx, x[i]), "a dropped element is no larger than a kept one")


def outliers(ctx, case):
    shape, dens, gamma, norm = case
    t, x = inp(ctx, shape)
    n = len(x)
    tgt, top = int(dens * n), int(gamma * n)
    bot = n - tgt - top
    if bot < 0:
        top, bot = top + bot, 0
    ctx.assume(tgt > 0)
    r = call(t, dens, "magnitude_outliers", norm, gamma=gamma)
    ctx.check(shape_of(r) == tuple(shape) and r.dtype == F32, "shape and dtype kept")
    out = ctx.elems(r)
    if dens >= 1:
        ctx.eq(out, x, "density 1 keeps everything")
        return
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.Not(absv(ctx, x[i]) == absv(ctx, x[j])))
            ctx.assume(ctx.Or(absv(ctx, x[i]) - absv(ctx, x[j]) >= 0.01, absv(ctx, x[j]) - absv(ctx, x[i]) >= 0.01))
    kept = shape_spec(ctx, x, out, norm, "outliers")
    for i in range(n):
        rank = sum(1 for j in range(n) if j != i and bool(absv(ctx, x[j]) < absv(ctx, x[i])))
        want = bot <= rank < n - top and not bool(x[i] == 0)
        ctx.check(kept[i] == want, f"density {dens} gamma {gamma}: element of magnitude rank {rank} of {n} kept={kept[i]}")


def random(ctx, case):
    shape, norm, dt = case
    t, x = inp(ctx, shape)
    dens = ctx.real("density", 0, 1)
    r = call(t, dens, "random", norm)
    ctx.check(shape_of(r) == tuple(shape) and r.dtype == F32, "shape and dtype kept")
    out = ctx.elems(r)
    if dens >= 1:
        ctx.eq(out, x, "density 1 keeps everything")
        return
    if dens <= 0:
        ctx.eq(out, [0.0] * len(x), "density 0 drops everything")
        return
    shape_spec(ctx, x, out, norm, "random")
    p = ctx.probs()
    if p is not None:
        ctx.check(len(p) == len(x), "one independent draw per element")
        for q in p:
            ctx.eq(q, dens, "keep probability is the density")


def della(ctx, case):
    shape, norm = case
    t, x = inp(ctx, shape, pos=len(shape) == 2 and shape[0] * shape[1] > 3)
    dens, eps = ctx.real("density", 0, 1), ctx.real("epsilon", 0, 0.5)
    e = None
    box = {}

    def go():
        box["r"] = call(t, dens, "della_magprune", norm, epsilon=eps)

    e = ctx.raises(go, ValueError)
    if dens < 1 and dens > 0:
        bad = ctx.Or(dens + eps >= 1, dens - eps <= 0)
        if e is not None:
            ctx.check(bad, "refused only when density +/- epsilon leaves (0, 1)")
            return
        ctx.check(ctx.Not(bad), "density +/- epsilon outside (0, 1) is refused")
    else:
        ctx.check(e is None, "trivial densities are accepted")
    r = box["r"]
    ctx.check(shape_of(r) == tuple(shape) and r.dtype == F32, "shape and dtype kept")
    out = ctx.elems(r)
    if dens >= 1:
        ctx.eq(out, x, "density 1 keeps everything")
        return
    if dens <= 0:
        ctx.eq(out, [0.0] * len(x), "density 0 drops everything")
        return
    shape_spec(ctx, x, out, norm, "della")
    p = ctx.probs()
    if p is None:
        return
    ctx.check(len(p) == len(x), "one independent draw per element")
    for row, prow in zip(rows(x, shape), rows(p, shape)):
        m = len(row)
        for i in range(m):
            ctx.check(ctx.And(prow[i] > dens - eps - 1e-3, prow[i] < dens + eps + 1e-3), "keep probability within density +/- epsilon")
            lo = [bool(absv(ctx, row[j]) < absv(ctx, row[i])) for j in range(m) if j != i]
            hi = [bool(absv(ctx, row[j]) > absv(ctx, row[i])) for j in range(m) if j != i]
            if m > 1 and all(a or b for a, b in zip(lo, hi)):
                k = sum(lo)
                ctx.eq(prow[i], dens - eps + 2 * eps * k / (m - 1), "keep probability grows linearly with the magnitude rank in the row")
        ctx.eq(ssum(prow), dens * m, "mean keep probability of a row is the density")


OPTS = dict(ite="fork", branch_timeout_ms=2000, prove_timeout_ms=20000, time_s=200, keep_samples=3)
OBLIGATIONS = [
    Ob("magnitude", magnitude, cases=[((3,), d, None) for d in DENS if d > 0.3] + [((2, 2), 0.25, None), ((2, 2), 0.75, None), ((3,), 0.75, "l1"), ((2, 2), 0.5, "l1"), ((3,), 0.75, "linf"), ((3,), 0.4, "l2")],
       tcases=[((2, 2), 0.75, "l1"), ((2, 2), 0.75, "linf"), ((3,), 0.75, "l2"), ((2, 2), 0.5, None), ((5,), 0.5, None)],
       bounds="3-4 elements, every real value (0 or magnitude in [0.01,4]) incl. ties and zeros, densities 0.25..1, no/L1/L2/max rescaling"),
    Ob("outliers", outliers, cases=[((3,), 0.7, 0.0, None), ((3,), 0.4, 0.4, None), ((2, 2), 0.5, 0.25, None), ((2, 2), 0.5, 0.01, None), ((4,), 0.75, 0.5, None), ((4,), 0.5, 0.25, "l1"), ((3,), 1.0, 0.2, None), ((4,), 0.25, 0.0, None)],
       bounds="3-4 elements of distinct magnitude, 8 density/gamma pairs incl. gamma too large for the density and gamma that rounds to zero elements"),
    Ob("random", random, cases=[((2,), None, 0), ((2, 2), None, 0), ((2,), "l1", 0), ((1, 3), "l1", 0)], tcases=[((2, 2), "l1", 0), ((2,), "linf", 0)],
       bounds="2-4 elements, every density in [0,1], every outcome of the draws, no/L1 rescaling"),
    Ob("della", della, cases=[((2,), None), ((2, 2), None), ((3,), None), ((2, 1), None), ((1,), None), ((2,), "l1")], tcases=[((1, 3), "l1"), ((2, 2), "l1")],
       bounds="up to 4 elements in 1-2 rows (4 elements: positive values) incl. one-element rows, every density in [0,1] and epsilon in [0,1/2], every outcome of the draws"),
]
