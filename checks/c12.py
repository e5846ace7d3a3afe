"""Parameter resolution: precedence, filters, layer gradients, per-model values."""
from .lib import *

IMPORTS = ["mergekit.merge_methods", "mergekit.merge"]
OUTSIDE = "gradients longer than 4 values, more than 5 layers or 2 slices, gradients for the final norm and head"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store"]


# ------------------------------------------------------------- reference
def ev(s, name, t):
    if s is None:
        return None
    if isinstance(s, dict):
        s = [s]
    if isinstance(s, list):
        if s and isinstance(s[0], dict):
            for c in s:
                f = c.get("filter")
                if f is None or f == "*" or f in name:
                    return ev(c["value"], name, t)
            return None
        n, d = t
        k = len(s) - 1
        i, rem = divmod(n * k, d)
        if rem == 0:
            return s[i]
        return ((d - rem) * s[i] + rem * s[i + 1]) / float(d)
    return s


def first(levels, name, t, default):
    for s in levels:
        v = ev(s, name, t)
        if v is not None:
            return v
    return default


def setting(ctx, name, kind, lo=-4, hi=4):
    """kind -> a parameter setting with symbolic values"""
    r = lambda s: ctx.real(f"{name}{s}", lo, hi)
    if kind == "none":
        return None
    if kind == "scalar":
        return r("")
    if kind == "attn":  # only some tensors
        return [{"filter": "self_attn", "value": r("a")}]
    if kind == "one":  # a lone condition, not in a list
        return {"filter": "mlp", "value": r("m")}
    if kind == "both":
        return [{"filter": "self_attn", "value": r("a")}, {"filter": "mlp", "value": [r("m0"), r("m1")]}, {"value": r("d")}]
    if kind == "star":
        return [{"filter": "norm", "value": r("n")}, {"filter": "*", "value": r("d")}, {"filter": "mlp", "value": 100.0}]
    if kind == "int":
        return ctx.choice(name, [0, 2])
    if kind == "layer1":
        return [{"filter": "layers.1.", "value": r("l")}, {"value": r("d")}]
    return [r(i) for i in range(int(kind[1:]))]  # g<n>


def put(d, k, v):
    if v is not None:
        d.setdefault("parameters", {})[k] = v
    return d


def world1(ctx, w, layers):
    ts = mk.llama_tensors(ctx, "A", layers)
    return w.add_model("A", mk.llama_config(layers, 1, 1, 1, 1), ts), ts


def expect_scaled(ctx, r, ts, name_in, name_out, s, msg):
    e = [x * s for x in ctx.elems(ts[name_in])] if s is not None else ctx.elems(ts[name_in])
    ctx.check(name_out in r.tensors, f"{name_out} present")
    expect(ctx, r.tensors[name_out], ts[name_in].shape, e, f"{msg} {name_out}", F32)


PRE = ["model.embed_tokens.weight"]
POST = ["model.norm.weight", "lm_head.weight"]


def precedence(ctx, case):
    """source > slice > module > global > default, level by level"""
    kinds = [ctx.choice(l, k) for l, k in zip(("source", "slice", "module", "global"), case)]
    with mk.SymWorld(ctx) as w:
        p, ts = world1(ctx, w, 1)
        ss = [setting(ctx, l + "-", k) for l, k in zip(("so", "sl", "mo", "gl"), kinds)]
        src = put({"model": p, "layer_range": [0, 1]}, "scale", ss[0])
        sl = put({"sources": [src]}, "scale", ss[1])
        mod = put({"slices": [sl]}, "scale", ss[2])
        cfg = put({"merge_method": "passthrough", "modules": {"default": mod}, "dtype": "float32"}, "scale", ss[3])
        r = mk.do_merge(w, cfg)
        ctx.check(set(r.tensors) == set(ts), "same tensors")
        for n in ts:
            if n not in POST:
                t = (0, 1) if n in PRE else (1, 1)
                expect_scaled(ctx, r, ts, n, n, first(ss, n, t, None), "scaled")


def gradient(ctx, case):
    """per-layer interpolation of a list over the layers of its own slice"""
    level, kind, spans = case
    with mk.SymWorld(ctx) as w:
        L = max(b for _, b in spans)
        p, ts = world1(ctx, w, L)
        slices, sets = [], []
        for i, (a, b) in enumerate(spans):
            s = setting(ctx, f"s{i}-" if level in ("source", "slice") else "s-", kind)
            sets.append(s)
            src = {"model": p, "layer_range": [a, b]}
            sl = {"sources": [src]}
            if level == "source":
                put(src, "scale", s)
            elif level == "slice":
                put(sl, "scale", s)
            slices.append(sl)
        cfg = {"merge_method": "passthrough", "slices": slices, "dtype": "float32"}
        if level == "global":
            put(cfg, "scale", sets[0])
        r = mk.do_merge(w, cfg)
        out = 0
        for (a, b), s in zip(spans, sets):
            n = b - a
            for i in range(n):
                t = (i, n - 1) if n > 1 else (1, 1)
                for k in mk.LLAMA_LAYER:
                    src, dst = f"model.layers.{a + i}.{k}", f"model.layers.{out}.{k}"
                    expect_scaled(ctx, r, ts, src, dst, ev(s, src, t), "gradient")
                out += 1
        expect_scaled(ctx, r, ts, PRE[0], PRE[0], ev(sets[0], PRE[0], (0, 1)), "gradient")


def two_models(ctx, case):
    """per-model weights of a linear merge: each model's own value, else global"""
    kinds = [ctx.choice(f"k{i}", case[i]) for i in range(2)]
    gk = ctx.choice("kg", case[2])
    with mk.SymWorld(ctx) as w:
        L = 2
        ts = {k: mk.llama_tensors(ctx, k, L) for k in "AB"}
        ps = {k: w.add_model(k, mk.llama_config(L, 1, 1, 1, 1), ts[k]) for k in "AB"}
        own = {k: setting(ctx, k + "-", kd) for k, kd in zip("AB", kinds)}
        g = setting(ctx, "g-", gk)
        cfg = {"merge_method": "linear", "dtype": "float32", "parameters": {"normalize": False},
               "models": [put({"model": ps[k]}, "weight", own[k]) for k in "AB"]}
        if g is not None:
            cfg["parameters"]["weight"] = g

        def one(n, t):
            return [first([own[k], g], n, t, None) for k in "AB"]

        names = PRE + [f"model.layers.{l}.{k}" for l in range(L) for k in mk.LLAMA_LAYER]
        ts_ = [(0, 1)] + [(l, 1) for l in range(L) for _ in mk.LLAMA_LAYER]
        missing = any(v is None for n, t in zip(names + POST, ts_ + [(0, 1)] * 2) for v in one(n, t))
        if missing:
            ctx.check(ctx.raises(lambda: mk.do_merge(w, cfg)) is not None, "a missing required weight is an error")
            return
        r = mk.do_merge(w, cfg)
        for n, t in zip(names, ts_):
            wa, wb = one(n, t)
            ex = [wa * x + wb * y for x, y in zip(ctx.elems(ts["A"][n]), ctx.elems(ts["B"][n]))]
            expect(ctx, r.tensors[n], ts["A"][n].shape, ex, n, F32)


def method_level(ctx, case):
    """method-wide parameter (lambda) follows the output tensor, weights the input tensor;
    the base model needs no weight"""
    lk, wk, spans = case
    with mk.SymWorld(ctx) as w:
        L = 2
        ts = {k: mk.llama_tensors(ctx, k, L) for k in "AB"}
        ps = {k: w.add_model(k, mk.llama_config(L, 1, 1, 1, 1), ts[k]) for k in "AB"}
        lam = setting(ctx, "l-", ctx.choice("lk", lk))
        wt = setting(ctx, "w-", ctx.choice("wk", wk))
        swap = ctx.flag("base_last")
        slices = []
        for i, (a, b) in enumerate(spans):
            src = [{"model": ps["A"], "layer_range": [a, b]}, put({"model": ps["B"], "layer_range": [a, b]}, "weight", wt)]
            slices.append({"sources": src[::-1] if swap else src})
        cfg = put({"merge_method": "task_arithmetic", "base_model": ps["A"], "dtype": "float32", "slices": slices}, "lambda", lam)
        r = mk.do_merge(w, cfg)
        out = 0
        for a, b in spans:
            for i in range(b - a):
                t = (i, b - a - 1) if b - a > 1 else (1, 1)
                for k in mk.LLAMA_LAYER:
                    src, dst = f"model.layers.{a + i}.{k}", f"model.layers.{out}.{k}"
                    l = first([lam], dst, t, 1.0)
                    wv = ev(wt, src, t)
                    ex = [x + l * wv * (y - x) for x, y in zip(ctx.elems(ts["A"][src]), ctx.elems(ts["B"][src]))]
                    expect(ctx, r.tensors[dst], ts["A"][src].shape, ex, dst, F32)
                out += 1


def slice_ends(ctx, case):
    """embeddings follow the first slice, norm and head the last slice (models and parameters)"""
    n1, n2 = case
    with mk.SymWorld(ctx) as w:
        names = "ABC"
        ts = {k: mk.llama_tensors(ctx, k, 2) for k in names}
        ps = {k: w.add_model(k, mk.llama_config(2, 1, 1, 1, 1), ts[k]) for k in names}
        wt = {(s, k): ctx.real(f"w{s}{k}", -4, 4) for s in (0, 1) for k in names}
        mods = [names[:n1], names[-n2:]]
        slices = [{"sources": [{"model": ps[k], "layer_range": [s, s + 1], "parameters": {"weight": wt[s, k]}} for k in mods[s]]} for s in (0, 1)]
        cfg = {"merge_method": "linear", "dtype": "float32", "parameters": {"normalize": False}, "slices": slices}
        r = mk.do_merge(w, cfg)
        for s, nm in [(0, PRE[0]), (1, POST[0]), (1, POST[1])] + [(s, f"model.layers.{s}.{k}") for s in (0, 1) for k in mk.LLAMA_LAYER]:
            es = [ctx.elems(ts[k][nm]) for k in mods[s]]
            ex = [ssum(wt[s, k] * e[i] for k, e in zip(mods[s], es)) for i in range(len(es[0]))]
            expect(ctx, r.tensors[nm], ts["A"][nm].shape, ex, nm, F32)


DEFAULTS = {  # method -> (defaults of the merge, defaults of each model)
    "linear": (dict(normalize=True), {}),
    "task_arithmetic": ({"normalize": False, "lambda": 1.0, "int8_mask": False, "rescale": False}, dict(density=1.0)),
    "ties": ({"normalize": True, "lambda": 1.0}, dict(density=1.0)),
    "dare_linear": ({"normalize": False, "lambda": 1.0, "rescale": True}, dict(density=1.0)),
    "breadcrumbs": ({"normalize": False, "lambda": 1.0, "rescale": False}, dict(density=1.0, gamma=0.01)),
    "della_linear": ({"normalize": False, "lambda": 1.0, "rescale": True}, dict(density=1.0, epsilon=0.15)),
    "sce": (dict(int8_mask=False, select_topk=1.0), {}),
    "model_stock": (dict(filter_wise=False), {}),
    "ramplus_tl": (dict(r=0.1, alpha=0.2, epsilon=1e-5), {}),
}
NO_WEIGHT = ("sce", "model_stock", "ramplus_tl")


def defaults(ctx, method):
    """an optional parameter nobody sets has its documented default"""
    glob, per = DEFAULTS[method]
    with mk.SymWorld(ctx) as w:
        ms = "ZABC" if method in NO_WEIGHT else "ZAB"
        p = {}
        for k, m in enumerate(ms):
            ts = mk.llama_tensors(ctx, m, 1, hidden=2)
            for i, n in enumerate(ts):
                if n != "lm_head.weight" or method in NO_WEIGHT:
                    sh = tuple(ts[n].shape)
                    ts[n] = ctx.mk_tensor([(1.0 + 0.5 * k * (i % 3 - 1) + 0.25 * k * k * j) * 0.5 ** (i % 2) for j in range(ts[n].numel())]).reshape(sh)
            p[m] = w.add_model(m, mk.llama_config(1, 2, 1, 1, 1), ts)
        drop = ctx.choice("left out", [*glob, *per, "all"])
        wt = {} if method in NO_WEIGHT else dict(weight=ctx.real("w", 0.25, 4))

        def go(out):
            g, q = ({k: v for k, v in d.items() if k != out and out != "all"} for d in (glob, per))
            cfg = {"merge_method": method, "dtype": "float32", "models": [{"model": p[m], "parameters": dict(wt, **q)} for m in ms[1:]]}
            if g:
                cfg["parameters"] = g
            if method != "linear":
                cfg["base_model"] = p["Z"]
            return mk.do_merge(w, cfg).tensors

        full, got = go(None), go(drop)
        for n, t in full.items():
            expect(ctx, got[n], tuple(t.shape), ctx.elems(t), f"{method} without {drop}: {n}", F32)


OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=200, keep_samples=3)
OBLIGATIONS = [
    Ob("precedence", precedence, cases=[
        (("none", "scalar", "attn"), ("none", "scalar"), ("none", "scalar"), ("none", "scalar")),
        (("none", "both"), ("none", "attn"), ("none", "one"), ("none", "g2")),
        (("none", "int"), ("none", "star"), ("none", "g3"), ("both", "one")),
    ], bounds="1 layer llama, every combination of setting kinds (absent, scalar, conditional, gradient) on the four levels, every value"),
    Ob("gradient", gradient, cases=[
        ("source", "g2", [(0, 3)]), ("slice", "g3", [(0, 2), (1, 3)]), ("global", "g4", [(0, 3)]), ("source", "g3", [(0, 5)]), ("global", "both", [(0, 2), (0, 1)]),
        ("source", "g1", [(0, 2)]), ("slice", "g4", [(1, 3)]), ("source", "layer1", [(1, 3), (0, 2)]),
    ], tcases=[("global", "g4", [(0, 4), (1, 3), (2, 3)]), ("slice", "g2", [(0, 5), (0, 3)])], bounds="1-5 layers, 1-3 slices, gradients of 1-4 values, every value"),
    Ob("two_models", two_models, cases=[
        (("none", "scalar", "attn"), ("scalar", "g2"), ("none", "scalar", "g3")),
        (("both", "attn"), ("one", "none"), ("none", "star")),
        (("g3", "int"), ("both",), ("none",)),
    ], bounds="2 models of 2 layers; model-level absent/scalar/conditional/gradient against global settings; every value"),
    Ob("method_level", method_level, cases=[
        (("none", "scalar", "g2"), ("scalar", "both"), [(0, 2)]),
        (("layer1", "attn"), ("layer1", "g2"), [(1, 2), (0, 2)]),
    ], bounds="base + 1 model, 2 layers, 1-2 slices, both listing orders; every value"),
    Ob("defaults", defaults, cases=list(DEFAULTS), bounds="9 methods, each documented optional parameter left out or all of them, any weight and one symbolic tensor (methods with weights)"),
    Ob("slice_ends", slice_ends, cases=[(1, 2), (2, 1), (2, 2), (1, 3)], bounds="two slices with 1-3 of three models, every value and weight"),
]
