"""Custom merge methods: what the decorated function is handed."""
from typing import List, Optional

from .lib import *

IMPORTS = ["mergekit.merge_methods"]
OUTSIDE = "more than 3 models besides the base; annotations other than the documented ones"
ASSUMPTIONS = ["checkpoint reader replaced by an in-memory lookup"]

_n = [0]


def define(fn):
    from mergekit.merge_methods.easy_define import merge_method

    _n[0] += 1
    name = f"vsym_custom_{_n[0]}"
    merge_method(name=name)(fn)
    return name


def undefine(name):
    from mergekit.merge_methods.registry import REGISTERED_MERGE_METHODS

    REGISTERED_MERGE_METHODS.pop(name, None)


def scenario(ctx, n, base, shape=(2,)):
    """n models in a symbolic-choice listing order, optionally a base, any
    subset of them lacking the tensor"""
    names = [f"m{i}" for i in range(n)] + (["b"] if base else [])
    perm = ctx.choice("order", perms(len(names)))
    have = {k: ctx.flag("has_" + k) for k in names}
    ts = {names[i]: (ctx.tensor(names[i], shape) if have[names[i]] else None) for i in perm}
    return ts, [k for k in ts if ts[k] is not None]


def plain(ctx, case):
    """no base argument: every tensor, base first, then listing order; per-model
    parameters in the same order"""
    n, base = case
    seen = {}

    def fn(tensors: List[torch.Tensor], weight: List[float], bias: List[float] = 0.75, scale: float = 2.0, flip: bool = False) -> torch.Tensor:
        seen.update(weight=list(weight), bias=list(bias), scale=scale, flip=flip, n=len(tensors))
        r = 0
        for i, (t, w) in enumerate(zip(tensors, weight)):
            r = r + t * w * (10 ** i) * scale
        return r

    name = define(fn)
    try:
        ts, live = scenario(ctx, n, base)
        ctx.assume(len(live) > 0)
        ws = {k: ctx.real("w_" + k, -2, 2) for k in ts}
        bs = {k: ctx.real("c_" + k, -2, 2) for k in list(ts)[:1]}
        sc = ctx.choice("scale", [None, 0.5])
        tp = {k: {"weight": ws[k], **({"bias": bs[k]} if k in bs else {})} for k in ts}
        r = mk.run_method(name, ts, params={} if sc is None else {"scale": sc}, tensor_params=tp, base="b" if base else None, optional=True)
        order = [k for k in live if k == "b"] + [k for k in live if k != "b"]
        s = 2.0 if sc is None else sc
        els = {k: ctx.elems(ts[k]) for k in live}
        ex = [ssum(els[k][j] * ws[k] * (10 ** i) * s for i, k in enumerate(order)) for j in range(2)]
        expect(ctx, r, (2,), ex, f"tensors and weights in order {order}", F32, tol=8)
        ctx.check(seen["n"] == len(order), "number of tensors")
        ctx.eq(seen["weight"], [ws[k] for k in order], "weights in tensor order")
        ctx.eq(seen["bias"], [bs.get(k, 0.75) for k in order], "defaulted per-model parameter")
        ctx.check(seen["scale"] == s and seen["flip"] is False, "scalar parameters and their defaults")
    finally:
        undefine(name)


def based(ctx, case):
    """base_tensor argument: the base is passed separately and left out of the list"""
    n, optional = case
    seen = {}
    BT = Optional[torch.Tensor] if optional else torch.Tensor

    def fn(tensors, base_tensor, weight, k):
        seen.update(weight=list(weight), base=base_tensor is not None, k=k, n=len(tensors))
        r = 0 if base_tensor is None else base_tensor
        for i, (t, w) in enumerate(zip(tensors, weight)):
            r = r + t * w * (10 ** (i + 1))
        return r

    fn.__annotations__ = dict(tensors=List[torch.Tensor], base_tensor=BT, weight=List[float], k=int)
    fn.__defaults__ = (3,)
    name = define(fn)
    try:
        withbase = True if not optional else ctx.flag("withbase")
        ts, live = scenario(ctx, n, withbase)
        ctx.assume(len(live) > 0)
        ws = {k: ctx.real("w_" + k, -2, 2) for k in ts}
        box = {}

        def go():
            box["r"] = mk.run_method(name, ts, tensor_params={k: {"weight": ws[k]} for k in ts}, base="b" if withbase else None, optional=True)

        rest = [k for k in live if k != "b"]
        if not optional and "b" not in live:
            e = ctx.raises(go)
            ctx.check(e is not None, "a required base tensor that is absent is an error")
            return
        ctx.assume(len(rest) > 0 or "b" in live)
        go()
        els = {k: ctx.elems(ts[k]) for k in live}
        ex = [(els["b"][j] if "b" in live else 0.0) + ssum(els[k][j] * ws[k] * (10 ** (i + 1)) for i, k in enumerate(rest)) for j in range(2)]
        expect(ctx, box["r"], (2,), ex, f"base and tensors in order {rest}", F32, tol=8)
        ctx.check(seen["base"] == ("b" in live), "base tensor present iff the base model has it")
        ctx.check(seen["n"] == len(rest) and seen["k"] == 3, "base is not in the list, defaults apply")
        ctx.eq(seen["weight"], [ws[k] for k in rest], "weights in tensor order")
    finally:
        undefine(name)


def standard(ctx):
    """output_weight / base_model are handed over on request"""
    seen = {}

    def fn(tensors: List[torch.Tensor], output_weight, base_model) -> torch.Tensor:
        seen.update(ow=output_weight, bm=base_model)
        return tensors[0]

    name = define(fn)
    try:
        base = ctx.flag("base")
        ts = {"a": ctx.tensor("a", (2,)), "b": ctx.tensor("b", (2,))}
        r = mk.run_method(name, ts, base="b" if base else None, name="some.weight")
        expect(ctx, r, (2,), ctx.elems(ts["b" if base else "a"]), "base model first in the list")
        ctx.check(seen["ow"].name == "some.weight", "output weight")
        ctx.check((seen["bm"] == mk.mref("b")) if base else seen["bm"] is None, "base model")
    finally:
        undefine(name)


def declared(ctx):
    """parameters without a default are required, the others optional; bad signatures are refused"""
    from mergekit.merge_methods import get

    def fn(tensors: List[torch.Tensor], a: float, b: List[int], c: int = 4, d: List[float] = 1.5, e: bool = True) -> torch.Tensor:
        return tensors[0]

    name = define(fn)
    try:
        m = get(name)
        ctx.check({p.name: (p.required, p.default_value) for p in m.parameters()} == {"a": (True, None), "c": (False, 4), "e": (False, True)}, "scalar parameter definitions")
        ctx.check({p.name: (p.required, p.default_value) for p in m.tensor_parameters()} == {"b": (True, None), "d": (False, 1.5)}, "per-model parameter definitions")
        ctx.check(m.name() == name, "registered under its name")
    finally:
        undefine(name)

    def nolist(tensors) -> torch.Tensor:
        return tensors[0]

    def nope(x: List[torch.Tensor]) -> torch.Tensor:
        return x[0]

    def badbase(tensors: List[torch.Tensor], base_tensor: float) -> torch.Tensor:
        return tensors[0]

    for f in (nope, badbase, nolist):
        e = ctx.raises(lambda: define(f))
        ctx.check(e is not None, f"signature of {f.__name__} is refused")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=100, keep_samples=2)
OBLIGATIONS = [
    Ob("plain", plain, cases=[(1, False), (2, False), (2, True), (1, True)], tcases=[(3, False), (3, True)], bounds="1-2 models (thorough 3) plus base, every listing order, every subset lacking the tensor, every value and weight"),
    Ob("based", based, cases=[(1, False), (2, False), (1, True), (2, True)], tcases=[(3, False)], bounds="1-2 models plus base, every listing order, every subset lacking the tensor"),
    Ob("standard", standard, bounds="two models, with and without base"),
    Ob("declared", declared, bounds="one signature with every documented parameter kind, three malformed ones"),
]
