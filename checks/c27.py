"""mergekit-extract-lora: the adapter stands for the difference of two models."""
import json
import os
import re

from .lib import *

IMPORTS = ["mergekit.scripts.extract_lora"]
OUTSIDE = "singular values closer than 0.25 at the cut, layers over 3x2 (3x3 thorough), tied embeddings decomposed, convolutions, biases through PEFT"
ASSUMPTIONS = ["torch.linalg.svd of the task vector returns the factorisation the inputs were built from (any other matrix is a candidate violation)",
               "PEFT's reading of an adapter is modelled by `applied`", "checkpoint reader and writer replaced by an in-memory store"]

LIN = {"self_attn.q_proj": ("h", "h"), "self_attn.k_proj": ("h", "h"), "self_attn.v_proj": ("h", "h"), "self_attn.o_proj": ("h", "h"),
       "mlp.up_proj": ("i", "h"), "mlp.gate_proj": ("i", "h"), "mlp.down_proj": ("h", "i")}
NORMS = ["input_layernorm", "post_attention_layernorm"]


def extract(ctx, w, base, model, *args):
    from mergekit.scripts import extract_lora

    out = os.path.join(w.root, f"out{len(os.listdir(w.root))}")
    a = ["--model", model, "--base-model", base, "--out-path", out, "--quiet", *args]
    extract_lora.main.main(args=a, standalone_mode=False)
    ext = "bin" if "--no-safe-serialization" in args else "safetensors"
    ts, layout, _ = w.load_output(out, "adapter_model", ext=ext)
    ctx.check(list(layout) == [f"adapter_model.{ext}"], f"one adapter file, got {sorted(layout)}")
    with open(os.path.join(out, "adapter_config.json")) as f:
        return json.load(f), ts


def pick(d, name, default):
    for k, v in d.items():
        if re.match(rf"(.*\.)?({k})$", name):
            return v
    return default


def matmul(a, b):
    return [[dot(r, c) for c in zip(*b)] for r in a]


def grid(ctx, t):
    return rows(ctx.elems(t), tuple(t.shape)) if t.shape[0] else []


def applied(ctx, cfg, ad, name, base, embed=False):
    """what PEFT makes of module `name`: ("full", tensor), ("delta", BA) or None"""
    ctx.check(cfg["peft_type"] == "LORA" and not cfg["use_rslora"] and not cfg["fan_in_fan_out"], "plain LoRA configuration")
    if any(name.endswith(m) for m in cfg["modules_to_save"]):
        k = f"base_model.model.{name}.weight"
        ctx.check(k in ad, f"{k} in the adapter")
        return "full", ad[k]
    if not any(name == t or name.endswith("." + t) for t in cfg["target_modules"]):
        return None
    r = pick(cfg["rank_pattern"], name, cfg["r"])
    alpha = pick(cfg["alpha_pattern"], name, cfg["lora_alpha"])
    ctx.check(r > 0, f"{name}: rank {r}")
    ka, kb = ((f"base_model.model.{name}.lora_{'embedding_' if embed else ''}{x}" + ("" if embed else ".weight")) for x in "AB")
    if ka not in ad and kb not in ad:
        return None
    ctx.check(ka in ad and kb in ad, f"{name}: both factors present")
    m, n = tuple(base.shape)[::-1] if embed else tuple(base.shape)
    ctx.check(tuple(ad[ka].shape) == (r, n), f"{ka}: shape {tuple(ad[ka].shape)}, expected {(r, n)}")
    ctx.check(tuple(ad[kb].shape) == (m, r), f"{kb}: shape {tuple(ad[kb].shape)}, expected {(m, r)}")
    ctx.check(ad[ka].dtype == ad[kb].dtype == base.dtype, f"{name}: dtype {ad[ka].dtype}")
    ctx.check(alpha == r, f"{name}: scaling {alpha}/{r} is one")
    d = matmul(grid(ctx, ad[kb]), grid(ctx, ad[ka]))
    return "delta", ([list(c) for c in zip(*d)] if embed else d)


def rot(c, s):
    return [[c, -s], [s, c]]


def factors(ctx, name, m, n, ang, free):
    """u (m,k), s (k), v (k,n) with orthonormal u, v and well separated s"""
    k = min(m, n)
    if free:
        cs = []
        for a in "uv":
            c, s = ctx.real(f"{name}:{a}c", -1, 1), ctx.real(f"{name}:{a}s", -1, 1)
            ctx.assume(c * c + s * s == 1) if ctx.symbolic else ctx.assume(abs(c * c + s * s - 1) < 1e-6)
            cs.append((c, s))
    else:
        cs = ang
    sv = [ctx.real(f"{name}:s{i}", 0.25, 6) for i in range(k)]
    for i in range(k - 1):
        ctx.assume(sv[i] >= sv[i + 1] + 0.25)

    def orth(c_s, big):
        if k == 1:
            return [[x] for x in [0.6, 0.8, 0.0][:big]] if big > 1 else [[1.0]]
        q = rot(*c_s)
        if k == 3:
            q = [r + [0.0] for r in q] + [[0.0, 0.0, 1.0]]
            return q
        return (q + [[0.0, 0.0]] * (big - 2)) if big > 2 else q

    u = orth(cs[0], m)
    v = [list(c) for c in zip(*orth(cs[1], n))]
    return u, sv, v


def model_pair(ctx, w, h, i, vocab, decomposed, free=False, layers=1, dtype=F32, lm_head=True, ft_vocab=None, low=()):
    """base, fine-tuned = base + u s v on the `decomposed` modules; anything on the rest"""
    base = mk.llama_tensors(ctx, "base", layers, hidden=h, vocab=vocab, inter=i, dtype=dtype, lm_head=lm_head)
    ft = mk.llama_tensors(ctx, "ft", layers, hidden=h, vocab=ft_vocab or vocab, inter=i, dtype=dtype, lm_head=lm_head)
    fac = {}
    angs = [((0.6, 0.8), (0.8, -0.6)), ((0.0, 1.0), (0.6, 0.8)), ((1.0, 0.0), (0.8, 0.6))]
    for j, n in enumerate(k[:-7] for k in base):
        if not decomposed(n):
            continue
        t = base[n + ".weight"]
        emb = n.endswith("embed_tokens")
        m_, n_ = tuple(t.shape)[::-1] if emb else tuple(t.shape)
        u, s, v = factors(ctx, n, m_, n_, angs[j % 3], free)
        fac[n] = (u, s, v)
        d = ctx.known_svd(u, s, v, n)
        if emb:
            d = [list(c) for c in zip(*d)]
        b = grid(ctx, t)
        ft[n + ".weight"] = ctx.mk_tensor([[x + y for x, y in zip(p, q)] for p, q in zip(b, d)], dtype)
    cf = mk.llama_config(layers, hidden=h, vocab=vocab, inter=i)
    cf2 = mk.llama_config(layers, hidden=h, vocab=ft_vocab or vocab, inter=i)
    w.pickled = True  # tensors read twice are the same object
    pb = w.add_model("base", cf, base)
    pm = w.add_model("ft", cf2, ft)
    return base, ft, fac, pb, pm


def truncated(u, s, v, r):
    return [[ssum(u[a][k] * s[k] * v[k][b] for k in range(r)) for b in range(len(v[0]))] for a in range(len(u))]


def flat(g):
    return [x for r in g for x in r]


def best_rank(ctx, case):
    """B A is the task vector cut to its `max_rank` largest singular values,
    however the scale is distributed"""
    mod, h, i, vocab, mr, dist, free = case
    args = ["-i", mod.replace(".", "\\."), "-e", "lm_head", "--max-rank", str(mr), "--distribute-scale" if dist else "--no-distribute-scale"]
    full = ("model." + mod if "." not in mod else "model.layers.0." + mod)
    emb = mod == "embed_tokens"
    if emb:
        args += ["--embed-lora"]
    else:
        args += ["-e", "embed_tokens"]
    with mk.SymWorld(ctx) as w:
        base, ft, fac, pb, pm = model_pair(ctx, w, h, i, vocab, lambda n: n == full, free)
        cfg, ad = extract(ctx, w, pb, pm, *args)
        t = base[full + ".weight"]
        what = applied(ctx, cfg, ad, full, t, emb)
        ctx.check(what is not None and what[0] == "delta", "the module is decomposed")
        u, s, v = fac[full]
        r = min(mr, len(s))
        ctx.check(cfg["r"] == r and not cfg["rank_pattern"], f"rank {cfg['r']}, expected {r}")
        ex = truncated(u, s, v, r)
        if emb:
            ex = [list(c) for c in zip(*ex)]
        for k, (x, y) in enumerate(zip(flat(what[1]), flat(ex))):
            ctx.eq(x, y, f"B A, entry {k}")
        sfx = "" if emb else ".weight"
        lt = "lora_embedding" if emb else "lora"
        A = grid(ctx, ad[f"base_model.model.{full}.{lt}_A{sfx}"])
        B = [list(c) for c in zip(*grid(ctx, ad[f"base_model.model.{full}.{lt}_B{sfx}"]))]
        ctx.check(set(ad) == {f"base_model.model.{full}.{lt}_{x}{sfx}" for x in "AB"}, f"files holds only the two factors: {sorted(ad)}")
        for p in range(r):
            a, b = dot(A[p], A[p]), dot(B[p], B[p])
            if dist:
                ctx.eq(a, s[p], f"the scale of A, rank {p}")
                ctx.eq(b, s[p], f"the scale of B, rank {p}")
            else:
                ctx.eq(a, s[p] * s[p], f"A carries the whole scale, rank {p}")
                ctx.eq(b, 1, f"B is orthonormal, rank {p}")


def epsilon(ctx, case):
    """--sv-epsilon drops smaller singular values, but never the whole module"""
    keep, mr = case
    full = "model.layers.0.mlp.up_proj"
    full2 = "model.layers.0.mlp.down_proj"
    with mk.SymWorld(ctx) as w:
        base, ft, fac, pb, pm = model_pair(ctx, w, 2, 2, 2, lambda n: n in (full, full2))
        eps = 1.5
        s = fac[full][1]
        for j in range(2):
            ctx.assume(s[j] >= eps + 0.125 if j < keep else s[j] <= eps - 0.125)
        ctx.assume(fac[full2][1][1] >= eps + 0.125)
        args = ["-i", "up_proj|down_proj", "-e", "lm_head", "-e", "embed_tokens", "--max-rank", str(mr), "--sv-epsilon", str(eps)]
        cfg, ad = extract(ctx, w, pb, pm, *args)
        for n, kp in ((full, keep), (full2, 2)):
            what = applied(ctx, cfg, ad, n, base[n + ".weight"])
            ctx.check(what is not None and what[0] == "delta", f"{n} is decomposed")
            r = max(1, min(kp, mr))
            ka = f"base_model.model.{n}.lora_A.weight"
            ctx.check(ad[ka].shape[0] == r, f"{n}: rank {ad[ka].shape[0]}, expected {r}")
            for k, (x, y) in enumerate(zip(flat(what[1]), flat(truncated(*fac[n], r)))):
                ctx.eq(x, y, f"{n}: B A, entry {k}")


def round_trip(ctx, case):
    """a rank large enough: base + adapter is the fine-tuned model, everywhere"""
    layers, h, i, dtype, emb, save, args = case
    deco = [n for n in LIN if not any(n.endswith(s) or s.endswith(n) for s in save)]
    with mk.SymWorld(ctx) as w:
        dec = lambda n: any(n.endswith(d) for d in deco) or (emb and (n.endswith("embed_tokens") or n.endswith("lm_head")))
        base, ft, fac, pb, pm = model_pair(ctx, w, h, i, 2, dec, layers=layers, dtype=dtype)
        a = ["--max-rank", "8", *args, *(x for s in save for x in ("--save-module", s))]
        if emb:
            a.append("--embed-lora")
        cfg, ad = extract(ctx, w, pb, pm, *a)
        ctx.check(cfg["base_model_name_or_path"] == pb, "the adapter names its base model")
        for k in base:
            n = k[:-7]
            what = applied(ctx, cfg, ad, n, base[k], n.endswith("embed_tokens"))
            ctx.check(what is not None, f"{n} is in the adapter")
            ctx.check((what[0] == "delta") == (n in fac), f"{n}: {what[0]}")
            if what[0] == "full":
                expect(ctx, what[1], ft[k].shape, ctx.elems(ft[k]), n, dtype)
            else:
                for x, y, z in zip(flat(what[1]), ctx.elems(base[k]), ctx.elems(ft[k])):
                    ctx.eq(x + y, z, f"{n}: base + B A", tol=200 if dtype != F32 else None)


def revisions(ctx):
    """models named by revision: tensors and configuration of that revision, which the adapter names"""
    with mk.SymWorld(ctx) as w:
        w.hub("r1")
        base, ft, fac, pb, pm = model_pair(ctx, w, 1, 1, 2, lambda n: any(n.endswith(d) for d in LIN), layers=1)
        cfg, ad = extract(ctx, w, pb, pm, "--max-rank", "1")
        ctx.check((cfg["base_model_name_or_path"], cfg.get("revision")) == ("hub/base", "r1"), f"base model {cfg['base_model_name_or_path']} at {cfg.get('revision')}")
        for n in fac:
            what = applied(ctx, cfg, ad, n, base[n + ".weight"])
            ctx.check(what is not None and what[0] == "delta", f"{n} is in the adapter")
            for x, y, z in zip(flat(what[1]), ctx.elems(base[n + ".weight"]), ctx.elems(ft[n + ".weight"])):
                ctx.eq(x + y, z, f"{n}: base + B A")


def selection(ctx, case):
    """regular expressions and --skip-undecomposable choose what is extracted"""
    args, chosen, fulls = case
    with mk.SymWorld(ctx) as w:
        dec = lambda n: n.startswith("model.layers.") and n.split(".", 3)[3] in LIN
        base, ft, fac, pb, pm = model_pair(ctx, w, 1, 1, 2, dec, layers=2)
        cfg, ad = extract(ctx, w, pb, pm, "--max-rank", "8", *args)
        want = set()
        for k in base:
            n = k[:-7]
            p = f"base_model.model.{n}"
            if n in fac and re.search(chosen, n):
                want |= {p + ".lora_A.weight", p + ".lora_B.weight"}
                what = applied(ctx, cfg, ad, n, base[k])
                ctx.check(what is not None and what[0] == "delta", f"{n} is decomposed")
                for x, y, z in zip(flat(what[1]), ctx.elems(base[k]), ctx.elems(ft[k])):
                    ctx.eq(x + y, z, f"{n}: base + B A")
            elif re.search(fulls, n):
                want.add(k and p + ".weight")
                what = applied(ctx, cfg, ad, n, base[k])
                ctx.check(what is not None and what[0] == "full", f"{n} is saved in full")
                expect(ctx, what[1], ft[k].shape, ctx.elems(ft[k]), n)
        ctx.check(set(ad) == want, f"adapter tensors: extra {sorted(set(ad) - want)}, missing {sorted(want - set(ad))}")


def vocabulary(ctx, case):
    """a grown vocabulary: embeddings are saved in full, never decomposed"""
    emb = case
    with mk.SymWorld(ctx) as w:
        dec = lambda n: n.startswith("model.layers.") and n.split(".", 3)[3] in LIN
        base, ft, fac, pb, pm = model_pair(ctx, w, 1, 1, 2, dec, ft_vocab=3)
        cfg, ad = extract(ctx, w, pb, pm, *(["--embed-lora"] if emb else []))
        for n in ("model.embed_tokens", "lm_head"):
            what = applied(ctx, cfg, ad, n, base[n + ".weight"])
            ctx.check(what is not None and what[0] == "full", f"{n} is saved in full")
            expect(ctx, what[1], (3, 1), ctx.elems(ft[n + ".weight"]), n)


def biases(ctx, case):
    """bias differences are stored beside the factors; full modules keep theirs"""
    save = case
    from transformers import Qwen2Config

    with mk.SymWorld(ctx) as w:
        t = {}
        for m in ("base", "ft"):
            t[m] = mk.llama_tensors(ctx, m, 1, hidden=2, vocab=2, inter=1)
            for x in "qkv":
                t[m][f"model.layers.0.self_attn.{x}_proj.bias"] = ctx.tensor(f"{m}:{x}b", (2,))
        for x in "qkv":
            n = f"model.layers.0.self_attn.{x}_proj.weight"
            d = ctx.known_svd(*factors(ctx, n, 2, 2, ((0.6, 0.8), (0.8, -0.6)), False), n)
            t["ft"][n] = ctx.mk_tensor([[p + q for p, q in zip(a, b)] for a, b in zip(grid(ctx, t["base"][n]), d)])
        c = Qwen2Config(vocab_size=2, hidden_size=2, intermediate_size=1, num_hidden_layers=1, num_attention_heads=1, num_key_value_heads=1, tie_word_embeddings=False)
        c.architectures = ["Qwen2ForCausalLM"]
        pb, pm = w.add_model("base", c, t["base"]), w.add_model("ft", c, t["ft"])
        cfg, ad = extract(ctx, w, pb, pm, "-i", "q_proj|k_proj|v_proj", "-e", "embed_tokens", "-e", "lm_head", *(["--save-module", "v_proj"] if save else []))
        for x in "qkv":
            p = f"base_model.model.model.layers.0.self_attn.{x}_proj"
            k = f"model.layers.0.self_attn.{x}_proj.bias"
            b, f = ctx.elems(t["base"][k]), ctx.elems(t["ft"][k])
            if save and x == "v":
                expect(ctx, ad.get(p + ".bias"), (2,), f, k)
                expect(ctx, ad.get(p + ".weight"), (2, 2), ctx.elems(t["ft"][k[:-4] + "weight"]), k)
            else:
                expect(ctx, ad.get(p + ".lora_B.bias"), (2,), [q - r for q, r in zip(f, b)], k)


def optional(ctx, case):
    """an optional bias: its difference is stored if both models have it"""
    has = case
    from transformers import MambaConfig

    with mk.SymWorld(ctx) as w:
        k = "backbone.layers.0.mixer.in_proj"
        b = {k + ".weight": ctx.tensor("base:w", (4, 2))}
        f = {}
        u, s, v = [[1.0, 0.0], [0.0, 0.6], [0.0, 0.0], [0.0, 0.8]], [ctx.real("s0", 3, 6), ctx.real("s1", 1, 2)], [[0.6, 0.8], [0.8, -0.6]]
        d = ctx.known_svd(u, s, v, k)
        f[k + ".weight"] = ctx.mk_tensor([[x + y for x, y in zip(p, q)] for p, q in zip(grid(ctx, b[k + ".weight"]), d)])
        if has:
            b[k + ".bias"], f[k + ".bias"] = ctx.tensor("base:b", (4,)), ctx.tensor("ft:b", (4,))
        c = MambaConfig(vocab_size=2, hidden_size=2, num_hidden_layers=1, state_size=1, expand=1, time_step_rank=1, conv_kernel=2, use_bias=True)
        c.architectures = ["MambaForCausalLM"]
        pb, pm = w.add_model("base", c, b), w.add_model("ft", c, f)
        cfg, ad = extract(ctx, w, pb, pm, "-i", "in_proj", "-e", "embeddings", "-e", "lm_head")
        p = f"base_model.model.{k}."
        ctx.check(set(ad) == {p + "lora_A.weight", p + "lora_B.weight"} | ({p + "lora_B.bias"} if has else set()), f"adapter tensors {sorted(ad)}")
        what = applied(ctx, cfg, ad, k, b[k + ".weight"])
        for x, y, z in zip(flat(what[1]), ctx.elems(b[k + ".weight"]), ctx.elems(f[k + ".weight"])):
            ctx.eq(x + y, z, "base + B A")
        if has:
            expect(ctx, ad[p + "lora_B.bias"], (4,), [x - y for x, y in zip(ctx.elems(f[k + ".bias"]), ctx.elems(b[k + ".bias"]))], "bias")


H, BF = torch.float16, torch.bfloat16
UP, DN, QP = "mlp.up_proj", "mlp.down_proj", "self_attn.q_proj"

OBLIGATIONS = [
    Ob("best-rank", best_rank, "modules 3x2, 2x3, 2x2, 3x2 embeddings; ranks 1-2; any rotation of either side for 2x2",
       cases=[(UP, 2, 3, 2, 1, True, False), (DN, 2, 3, 2, 1, True, False), (QP, 2, 3, 2, 2, True, False), ("embed_tokens", 2, 1, 3, 1, True, False),
              (UP, 2, 3, 2, 1, False, False), (DN, 2, 3, 2, 2, False, False), ("embed_tokens", 2, 1, 3, 2, False, False), (QP, 2, 1, 2, 1, True, True)],
       tcases=[(QP, 2, 1, 2, 2, True, True), (QP, 2, 1, 2, 1, False, True), ("embed_tokens", 2, 1, 2, 1, True, True), ("embed_tokens", 2, 1, 2, 1, False, True),
               (UP, 3, 3, 2, 2, True, False), (UP, 3, 3, 2, 2, False, False)], time_s=200),
    Ob("epsilon", epsilon, "2x2 modules, 0-2 singular values above the threshold, rank 1-2", cases=[(0, 2), (1, 2), (2, 1), (2, 2)]),
    Ob("revisions", revisions, "1 layer, hidden 1"),
    Ob("round-trip", round_trip, "1-2 layers, hidden 1-2, inner 1-3, every kind of module, three dtypes",
       cases=[(1, 2, 1, F32, False, [], []), (2, 1, 2, F32, False, ["q_proj"], []), (1, 1, 3, F32, True, [], ["--no-distribute-scale"]), (1, 1, 1, BF, False, [], []),
              (1, 1, 1, H, True, ["model.layers.0.mlp.up_proj", "gate_proj"], []), (1, 1, 2, F32, False, [], ["--write-threads", "3", "--async-write"]),
              (1, 1, 1, F32, False, [], ["--no-safe-serialization"])],
       tcases=[(2, 2, 3, F32, True, [], []), (2, 2, 3, F32, False, ["o_proj", "down_proj"], ["--no-distribute-scale"])]),
    Ob("selection", selection, "2 layers, include/exclude/skip",
       cases=[(["-i", "layers\\.0.*proj"], "layers.0.*proj", "embed|lm_head"), (["-e", "mlp"], "self_attn", "embed|norm|lm_head"), (["--skip-undecomposable"], "layers", "embed|lm_head"),
              (["-e", "embed", "-e", "lm_head", "-e", "norm", "-e", "\\.1\\."], "layers.0.*proj", "^$"), (["-i", "q_proj", "-i", "k_proj", "-e", "\\.0\\."], "1.self_attn.[qk]_proj", "embed|lm_head")]),
    Ob("vocabulary", vocabulary, "2 and 3 tokens", cases=[False, True]),
    Ob("biases", biases, "3 biased projections", cases=[False, True]),
    Ob("optional", optional, "one 4x2 module", cases=[False, True]),
]
