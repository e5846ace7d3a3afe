"""Linear: weighted sum / weighted average over the models that have the tensor."""
from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "more than 4 models, tensors above 6 elements, weight sums that are exactly zero with normalize on"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup with the reader's documented contract"]


def linear(ctx, case):
    n, shape, norm = case
    ts = models(ctx, n, shape)
    ws = {k: ctx.real("w_" + k, -4, 4) for k in ts}
    p = {} if norm is None else {"normalize": norm}
    tot = ssum(ws.values())
    if norm is not False:
        ctx.assume(ctx.Or(tot > 0.125, tot < -0.125))
    r = mk.run_method("linear", ts, params=p, tensor_params={k: {"weight": w} for k, w in ws.items()})
    els = {k: ctx.elems(t) for k, t in ts.items()}
    exp = [ssum(ws[k] * els[k][i] for k in ts) for i in range(len(els["m0"]))]
    if norm is not False:
        exp = [e / tot for e in exp]
    expect(ctx, r, shape, exp, "linear merge", F32)


def missing(ctx, case):
    """an optional tensor absent from some models: those models do not count."""
    n, norm = case
    ts = models(ctx, n, (2,))
    ws = {k: ctx.real("w_" + k, -4, 4) for k in ts}
    have = {k: ctx.flag("has_" + k) for k in ts}
    live = [k for k in ts if have[k]]
    ctx.assume(len(live) > 0)
    tot = ssum(ws[k] for k in live)
    if norm:
        ctx.assume(ctx.Or(tot > 0.125, tot < -0.125))
    r = mk.run_method("linear", {k: (t if have[k] else None) for k, t in ts.items()},
                      params={"normalize": norm}, tensor_params={k: {"weight": w} for k, w in ws.items()})
    els = {k: ctx.elems(t) for k, t in ts.items()}
    exp = [ssum(ws[k] * els[k][i] for k in live) for i in range(2)]
    if norm:
        exp = [e / tot for e in exp]
    expect(ctx, r, (2,), exp, "linear merge with absent tensors", F32)


def mismatch(ctx):
    """non-embedding tensors of different shapes are refused, never silently mixed."""
    sa = ctx.choice("sa", [(2,), (1, 2), (2, 2), (1,)])
    sb = ctx.choice("sb", [(2,), (1, 2), (2, 2), (1,)])
    a, b = ctx.tensor("a", sa), ctx.tensor("b", sb)
    e = ctx.raises(lambda: mk.run_method("linear", {"a": a, "b": b}, params={"normalize": False},
                                         tensor_params={"a": {"weight": 1.0}, "b": {"weight": 2.0}}))
    ctx.check((e is not None) == (sa != sb), f"shapes {sa} {sb}: refused iff different")


def endtoend(ctx, case):
    """the formula through a complete merge of small llama checkpoints."""
    layers, norm = case
    with mk.SymWorld(ctx) as w:
        ts = {k: mk.llama_tensors(ctx, k, layers) for k in "AB"}
        ps = {k: w.add_model(k, mk.llama_config(layers, 1, 1, 1, 1), ts[k]) for k in "AB"}
        wa, wb = ctx.real("wa", -2, 2), ctx.real("wb", -2, 2)
        ctx.assume(ctx.Or(wa + wb > 0.125, wa + wb < -0.125))
        r = mk.do_merge(w, dict(merge_method="linear", dtype="float32",
                                models=[dict(model=ps["A"], parameters=dict(weight=wa)),
                                        dict(model=ps["B"], parameters=dict(weight=wb))],
                                parameters=dict(normalize=norm)))
        ctx.check(set(r.tensors) == set(ts["A"]), "output tensor names")
        for k in ts["A"]:
            ex = [wa * x + wb * y for x, y in zip(ctx.elems(ts["A"][k]), ctx.elems(ts["B"][k]))]
            if norm:
                ex = [e / (wa + wb) for e in ex]
            expect(ctx, r.tensors[k], shape_of(ts["A"][k]), ex, k, F32)


SH = [(2,), (2, 2), (1, 2, 2), (1,)]
OBLIGATIONS = [
    Ob("linear", linear, cases=[(n, s, m) for n in (1, 2, 3) for s in SH for m in (None, True, False)],
       tcases=[(4, (3, 2), m) for m in (None, True, False)] + [(4, (2,), None)],
       bounds="1-3 models (thorough 4), shapes up to 3 dims and 4 elements (thorough 6), all real elements, weights in [-4,4] incl. zero/negative, |sum of weights| >= 1/8 when normalising"),
    Ob("missing", missing, cases=[(n, m) for n in (2, 3) for m in (True, False)],
       bounds="every subset of up to 3 models lacks the optional tensor"),
    Ob("mismatch", mismatch, bounds="all pairs of 4 shapes"),
    Ob("endtoend", endtoend, cases=[(1, True), (2, False)],
       bounds="2 llama checkpoints, 1-2 layers, hidden size 1, all real weights; complete run_merge with in-memory checkpoint files"),
]
