"""Layer slicing and stacking, and the configuration written next to the weights."""
from .lib import *

IMPORTS = ["mergekit.merge_methods", "mergekit.merge"]
OUTSIDE = "more than 3 slices, models of more than 3 (unit deep: 12) layers, modules syntax of multi-module architectures beyond T5"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store"]

PRE = ["model.embed_tokens.weight"]
POST = ["model.norm.weight", "lm_head.weight"]


def setup(ctx, w, layers, **cfg):
    ts, ps = {}, {}
    for i, (k, n) in enumerate(layers.items()):
        ts[k] = mk.llama_tensors(ctx, k, n)
        ps[k] = w.add_model(k, mk.llama_config(n, 1, 1, 1, 1, rms_norm_eps=2.0 ** -(i + 10), **cfg), ts[k])
    return ts, ps


def spans(n):
    return [(a, b) for a in range(n) for b in range(a + 1, n + 1)]


def same(ctx, got, name, want, msg=""):
    ctx.check(name in got, f"{name} present")
    expect(ctx, got[name], want.shape, ctx.elems(want), f"{msg} {name}", F32)


def check_stack(ctx, r, ts, picked):
    """picked: [(model, input layer)] in output order"""
    n = 0
    for k, l in picked:
        for s in mk.LLAMA_LAYER:
            same(ctx, r.tensors, f"model.layers.{n}.{s}", ts[k][f"model.layers.{l}.{s}"], f"from {k} layer {l}")
        n += 1
    names = {f"model.layers.{i}.{s}" for i in range(n) for s in mk.LLAMA_LAYER} | set(PRE + POST)
    ctx.check(set(r.tensors) == names, f"tensor names: extra {sorted(set(r.tensors) - names)[:3]} missing {sorted(names - set(r.tensors))[:3]}")
    ctx.check(r.config["num_hidden_layers"] == n, f"num_hidden_layers {r.config['num_hidden_layers']} expected {n}")


def stack(ctx, case):
    """passthrough: output layers are the listed ranges, in order; embeddings from the first
    slice, norm and head from the last"""
    layers, nsl, syntax = case
    with mk.SymWorld(ctx) as w:
        ts, ps = setup(ctx, w, layers)
        sl, picked, ks = [], [], []
        for i in range(nsl):
            k = ctx.choice(f"model{i}", sorted(layers))
            a, b = ctx.choice(f"range{i}", spans(layers[k]))
            sl.append({"sources": [{"model": ps[k], "layer_range": [a, b]}]})
            picked += [(k, l) for l in range(a, b)]
            ks.append(k)
        cfg = {"merge_method": "passthrough", "dtype": "float32"}
        if syntax == "modules":
            cfg["modules"] = {"default": {"slices": sl}}
        else:
            cfg["slices"] = sl
        base = ctx.choice("base", [None, "B"]) if "B" in layers else None
        if base:
            cfg["base_model"] = ps[base]
        r = mk.do_merge(w, cfg)
        check_stack(ctx, r, ts, picked)
        for n in PRE:
            same(ctx, r.tensors, n, ts[ks[0]][n], "first slice")
        for n in POST:
            same(ctx, r.tensors, n, ts[ks[-1]][n], "last slice")
        donor = base or ks[0]
        ctx.check(r.config["rms_norm_eps"] == 2.0 ** -(10 + sorted(layers).index(donor)), f"config taken from {donor}")


def deep(ctx):
    """models of more than ten layers: indices of two digits on either side"""
    with mk.SymWorld(ctx) as w:
        ts, ps = setup(ctx, w, {"A": 12, "B": 11})
        sl, picked, ks = [], [], []
        for i in range(2):
            k = ctx.choice(f"model{i}", "AB")
            a, b = ctx.choice(f"range{i}", [(0, 11), (1, 2), (9, 11)] + ([(10, 12)] if k == "A" else []))
            sl.append({"sources": [{"model": ps[k], "layer_range": [a, b]}]})
            picked += [(k, l) for l in range(a, b)]
            ks.append(k)
        r = mk.do_merge(w, {"merge_method": "passthrough", "dtype": "float32", "slices": sl})
        check_stack(ctx, r, ts, picked)
        for n in PRE:
            same(ctx, r.tensors, n, ts[ks[0]][n], "first slice")
        for n in POST:
            same(ctx, r.tensors, n, ts[ks[-1]][n], "last slice")


def combine(ctx, case):
    """linear slices: offsets apply per source, a slice of unequal lengths is refused"""
    la, lb = case
    with mk.SymWorld(ctx) as w:
        ts, ps = setup(ctx, w, {"A": la, "B": lb})
        ra = ctx.choice("ra", spans(la))
        rb = ctx.choice("rb", spans(lb))
        wt = {k: ctx.real("w" + k, -4, 4) for k in "AB"}
        cfg = {"merge_method": "linear", "dtype": "float32", "parameters": {"normalize": False},
               "slices": [{"sources": [{"model": ps[k], "layer_range": list(x), "parameters": {"weight": wt[k]}} for k, x in (("A", ra), ("B", rb))]}]}
        if ra[1] - ra[0] != rb[1] - rb[0]:
            ctx.check(ctx.raises(lambda: mk.do_merge(w, cfg)) is not None, "unequal lengths are refused")
            return
        r = mk.do_merge(w, cfg)
        n = ra[1] - ra[0]
        ctx.check(r.config["num_hidden_layers"] == n, "num_hidden_layers")
        for i in range(n):
            for s in mk.LLAMA_LAYER:
                a, b = ts["A"][f"model.layers.{ra[0] + i}.{s}"], ts["B"][f"model.layers.{rb[0] + i}.{s}"]
                ex = [wt["A"] * x + wt["B"] * y for x, y in zip(ctx.elems(a), ctx.elems(b))]
                expect(ctx, r.tensors[f"model.layers.{i}.{s}"], a.shape, ex, f"layer {i} {s}", F32)
        ctx.check(f"model.layers.{n}.mlp.up_proj.weight" not in r.tensors, "no extra layers")


def whole(ctx, case):
    """models syntax: every layer of every model; an unlisted base model takes part;
    models of different depth are refused"""
    meth, listed = case
    with mk.SymWorld(ctx) as w:
        layers = {"A": 2, "B": ctx.choice("depth", [2, 1]), "C": 2}
        ts, ps = setup(ctx, w, layers)
        cfg = {"merge_method": meth, "dtype": "float32", "models": [{"model": ps[k], "parameters": {"weight": 0.5}} for k in listed]}
        if meth != "linear":
            cfg["base_model"] = ps["A"]
        used = set(listed) | ({"A"} if meth != "linear" else set())
        if len({layers[k] for k in used}) > 1:
            ctx.check(ctx.raises(lambda: mk.do_merge(w, cfg)) is not None, "models of different depth are refused")
            return
        r = mk.do_merge(w, cfg)
        n = layers[listed[0]]
        ctx.check(r.config["num_hidden_layers"] == n, "num_hidden_layers")
        names = set(ts[listed[0]])
        ctx.check(set(r.tensors) == names, "tensor names")
        for nm in names:
            e = {k: ctx.elems(ts[k][nm]) for k in used}
            ref = []
            for i in range(len(e[listed[0]])):
                if meth == "linear":
                    ref.append(ctx.quot(ssum(e[k][i] for k in listed), float(len(listed))))
                else:
                    ref.append(e["A"][i] + ssum(0.5 * (e[k][i] - e["A"][i]) for k in listed if k != "A"))
            expect(ctx, r.tensors[nm], ts["A"][nm].shape, ref, nm, F32)


def repeated(ctx, meth):
    """a layer that several slices ask for is the same input for each of them"""
    with mk.SymWorld(ctx) as w:
        w.pickled = ctx.flag("pickled")
        ts, ps = setup(ctx, w, {"A": 2, "B": 2, "C": 2})
        e = {m: {k: list(ctx.elems(x)) for k, x in t.items()} for m, t in ts.items()}
        sl, want = [], []
        for i in range(3):
            l = ctx.choice(f"layer{i}", [0, 1]) if i else 0
            x = [ctx.choice(f"weight{i}{m}", [0.5, 2.0] if m == "B" and i < 2 else [0.5]) for m in "BC"]
            if meth == "passthrough":
                sl.append({"sources": [{"model": ps["A"], "layer_range": [l, l + 1], "parameters": {"scale": x[0]}}]})
            else:
                sl.append({"sources": [{"model": ps[m], "layer_range": [l, l + 1], "parameters": {"weight": v}} for m, v in zip("ABC", [1.0] + x)]})
            want.append((l, x))
        cfg = {"merge_method": meth, "dtype": "float32", "slices": sl, "parameters": {} if meth == "passthrough" else {"normalize": False}}
        if meth not in ("linear", "passthrough"):
            cfg["base_model"] = ps["A"]
        r = mk.do_merge(w, cfg, clone_tensors=not w.pickled)
        for i, (l, (x, y)) in enumerate(want):
            for s in mk.LLAMA_LAYER:
                a, b, c = (e[m][f"model.layers.{l}.{s}"] for m in "ABC")
                if meth == "passthrough":
                    ex = [x * p for p in a]
                elif meth == "linear":
                    ex = [p + x * q + y * t for p, q, t in zip(a, b, c)]
                else:
                    ex = [p + x * (q - p) + y * (t - p) for p, q, t in zip(a, b, c)]
                expect(ctx, r.tensors[f"model.layers.{i}.{s}"], ts["A"][f"model.layers.{l}.{s}"].shape, ex, f"layer {i} {s}", F32)


def per_layer(ctx, case):
    """per-layer attributes of the configuration follow their layers"""
    from transformers import Qwen3Config

    n, nsl = case
    with mk.SymWorld(ctx) as w:
        ts, ps, ty = {}, {}, {}
        for k in "AB":
            ty[k] = [ctx.choice(f"type{k}{i}", ["full_attention", "sliding_attention"]) for i in range(n)]
            c = Qwen3Config(vocab_size=1, hidden_size=1, intermediate_size=1, num_hidden_layers=n, num_attention_heads=1, num_key_value_heads=1, head_dim=1,
                            layer_types=ty[k], use_sliding_window=True, sliding_window=8, tie_word_embeddings=False)
            c.architectures = ["Qwen3ForCausalLM"]
            t = mk.llama_tensors(ctx, k, n)
            for l in range(n):
                for x in "qk":
                    t[f"model.layers.{l}.self_attn.{x}_norm.weight"] = ctx.tensor(f"{k}{l}{x}n", (1,))
            ts[k], ps[k] = t, w.add_model(k, c, t)
        sl, want = [], []
        for i in range(nsl):
            k = ctx.choice(f"model{i}", "AB")
            a, b = ctx.choice(f"range{i}", spans(n))
            sl.append({"sources": [{"model": ps[k], "layer_range": [a, b]}]})
            want += [(k, l) for l in range(a, b)]
        r = mk.do_merge(w, {"merge_method": "passthrough", "dtype": "float32", "slices": sl})
        ctx.check(r.config["num_hidden_layers"] == len(want), "num_hidden_layers")
        ctx.check(r.config["layer_types"] == [ty[k][l] for k, l in want], f"layer_types {r.config['layer_types']}")
        for i, (k, l) in enumerate(want):
            for x in ("self_attn.q_norm.weight", "self_attn.k_norm.weight", "mlp.up_proj.weight"):
                same(ctx, r.tensors, f"model.layers.{i}.{x}", ts[k][f"model.layers.{l}.{x}"])


def t5(ctx, case):
    """modules syntax: per-module slices of an encoder-decoder with separate layer counts"""
    from transformers import T5Config

    enc, dec = case
    with mk.SymWorld(ctx) as w:
        c = T5Config(vocab_size=1, d_model=1, d_kv=1, d_ff=1, num_layers=enc, num_decoder_layers=dec, num_heads=1, feed_forward_proj="gated-gelu")
        c.architectures = ["T5ForConditionalGeneration"]
        names = ["shared.weight", "lm_head.weight", "encoder.final_layer_norm.weight", "decoder.final_layer_norm.weight"]

        def block(side, i):
            p, ff = f"{side}.block.{i}.layer", 2 if side == "decoder" else 1
            r = [f"{p}.0.layer_norm.weight", f"{p}.{ff}.layer_norm.weight"] + [f"{p}.0.SelfAttention.{x}.weight" for x in "qkvo"]
            r += [f"{p}.{ff}.DenseReluDense.{x}.weight" for x in ("wi_0", "wi_1", "wo")]
            if side == "decoder":
                r += [f"{p}.1.layer_norm.weight"] + [f"{p}.1.EncDecAttention.{x}.weight" for x in "qkvo"]
            if i == 0:
                r.append(f"{p}.0.SelfAttention.relative_attention_bias.weight")
            return r

        for side, n in (("encoder", enc), ("decoder", dec)):
            for i in range(n):
                names += block(side, i)
        ts = {n: ctx.tensor(n, (1, 1)) for n in names}
        p = w.add_model("t5", c, ts)
        picks = {}
        mods = {"shared": {"slices": [{"sources": [{"model": p, "layer_range": [0, 0]}]}]}}
        for side, n in (("encoder", enc), ("decoder", dec)):
            rs = [ctx.choice(f"{side}{i}", spans(n)) for i in range(2)]
            picks[side] = [l for a, b in rs for l in range(a, b)]
            mods[side] = {"slices": [{"sources": [{"model": p, "layer_range": list(x)}]} for x in rs]}
        r = mk.do_merge(w, {"merge_method": "passthrough", "dtype": "float32", "modules": mods})
        for side, key in (("encoder", "num_layers"), ("decoder", "num_decoder_layers")):
            for j, l in enumerate(picks[side]):
                for a, b in zip(block(side, 1), block(side, 1)):
                    src, dst = a.replace(".block.1.", f".block.{l}."), b.replace(".block.1.", f".block.{j}.")
                    same(ctx, r.tensors, dst, ts[src], f"{side} {l}->{j}")
            ctx.check(f"{side}.block.{len(picks[side])}.layer.0.layer_norm.weight" not in r.tensors, "no extra block")
            ctx.check(r.config[key] == len(picks[side]), f"{key} {r.config[key]} expected {len(picks[side])}")
        for n in ("shared.weight", "encoder.final_layer_norm.weight", "decoder.final_layer_norm.weight", "lm_head.weight"):
            same(ctx, r.tensors, n, ts[n])


OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=250, keep_samples=3)
OBLIGATIONS = [
    Ob("stack", stack, cases=[({"A": 3}, 1, "slices"), ({"A": 2, "B": 1}, 2, "slices"), ({"A": 2}, 2, "modules"), ({"A": 1, "B": 2}, 1, "modules")],
       tcases=[({"A": 2, "B": 2}, 3, "slices"), ({"A": 3, "B": 2}, 2, "modules")],
       bounds="1-3 slices, every choice of model and layer range from one or two models of 1-3 layers, base model given or not"),
    Ob("deep", deep, bounds="two models of 11 and 12 layers, four ranges each, two slices"),
    Ob("combine", combine, cases=[(2, 2), (3, 1), (2, 3)], bounds="two models of 1-3 layers, every pair of layer ranges, every weight and value"),
    Ob("repeated", repeated, cases=["passthrough", "linear", "task_arithmetic"], bounds="three slices of one layer each from two-layer models, every choice of layers, four pairs of weights, every value"),
    Ob("whole", whole, cases=[("linear", "BC"), ("linear", "CAB"), ("task_arithmetic", "BC"), ("task_arithmetic", "CA"), ("task_arithmetic", "AB")], bounds="models syntax, 2-3 models of 1-2 layers, base listed or not, every value"),
    Ob("per_layer", per_layer, cases=[(2, 1), (1, 2)], tcases=[(2, 2)], bounds="two Qwen3 models of 1-2 layers, every choice of layer types, 1-2 slices"),
    Ob("t5", t5, cases=[(2, 1), (1, 2)], bounds="T5 with 1-2 encoder and decoder blocks, every pair of ranges per module"),
]
