"""Architecture definitions: merging covers exactly the weights of the model."""
import re
import threading

from .lib import *

IMPORTS = ["mergekit.merge_methods", "mergekit.merge"]
OUTSIDE = "bundled architectures without a class in the installed transformers, vision-language checkpoints in the pre-v5 layout, tensor shapes (every tensor has one or two elements)"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store", "the reference list of weights is the parameter list of the installed transformers class"]

# class -> configuration overrides
ARCHS = {
    "LlamaForCausalLM": {}, "MistralForCausalLM": {}, "Qwen2ForCausalLM": {}, "Qwen3ForCausalLM": {}, "GemmaForCausalLM": {}, "Gemma2ForCausalLM": {},
    "Gemma3ForCausalLM": {}, "Phi3ForCausalLM": {}, "PhiForCausalLM": {}, "Cohere2ForCausalLM": {}, "CohereForCausalLM": {"use_qk_norm": [True, False]},
    "GraniteForCausalLM": {}, "Glm4ForCausalLM": {}, "Olmo2ForCausalLM": {}, "StableLmForCausalLM": {"use_qkv_bias": [False, True]}, "Starcoder2ForCausalLM": {},
    "ArceeForCausalLM": {}, "ApertusForCausalLM": {}, "Lfm2ForCausalLM": {}, "MambaForCausalLM": {"use_bias": [False, True]}, "GPTNeoXForCausalLM": {}, "GPTBigCodeForCausalLM": {},
    "GPT2LMHeadModel": {}, "GPT2ForSequenceClassification": {}, "LlamaForSequenceClassification": {}, "BertModel": {}, "BertForMaskedLM": {},
    "BertForSequenceClassification": {}, "BertForTokenClassification": {}, "BertForMultipleChoice": {}, "RobertaForMaskedLM": {},
    "RobertaForSequenceClassification": {}, "RobertaForTokenClassification": {}, "DistilBertForMaskedLM": {}, "DistilBertForSequenceClassification": {},
    "DistilBertForTokenClassification": {}, "FalconForCausalLM": {"new_decoder_architecture": [True]}, "T5ForConditionalGeneration": {"feed_forward_proj": ["gated-gelu"]},
    "WhisperForConditionalGeneration": {}, "GraniteMoeHybridForCausalLM": {}, "Glm4MoeForCausalLM": {"first_k_dense_replace": [1, 2]}, "MixtralForCausalLM": {}, "Qwen3MoeForCausalLM": {},
    "Llama4ForConditionalGeneration": {}, "Qwen3VLForConditionalGeneration": {}, "Qwen3VLMoeForConditionalGeneration": {},
}
DEPTH = ("num_hidden_layers", "n_layer", "num_layers", "num_decoder_layers", "encoder_layers", "decoder_layers", "depth")
_truth = {}


def truth(cls_name, depth, over):
    """(config, weights, tied weights, embedding weights) of a fresh model of that class"""
    key = (cls_name, depth, repr(sorted(over.items())))
    if key in _truth:
        return _truth[key]
    out = {}

    def go():  # own thread: no torch function modes active
        import torch
        import transformers

        cls = getattr(transformers, cls_name)
        d0 = cls.config_class()
        kw = {k: depth for k in DEPTH if hasattr(d0, k)}
        for s in ("text_config", "vision_config"):
            if hasattr(d0, s):
                kw.pop("num_hidden_layers", None)
                kw[s] = {k: depth for k in DEPTH if hasattr(getattr(d0, s), k)}
        cfg = cls.config_class(**{**kw, **over})
        cfg.architectures = [cls_name]
        with torch.device("meta"):
            m = cls(cfg)
        tied = dict(getattr(m, "_tied_weights_keys", None) or {})
        emb = [x for x in (m.get_input_embeddings(), m.get_output_embeddings()) if x is not None]
        en = [n + ".weight" for n, mod in m.named_modules() if any(mod is e for e in emb)]
        out.update(r=(cfg, sorted(m.state_dict()), tied, en, {n: len(v.shape) for n, v in m.state_dict().items()}))

    err = []

    def safe():
        try:
            go()
        except Exception as e:
            err.append(e)

    t = threading.Thread(target=safe)
    t.start()
    t.join()
    if err:
        raise RuntimeError(f"harness cannot build {cls_name}: {err[0]}")
    _truth[key] = out["r"]
    return out["r"]


def variants(ctx, cls_name):
    over = {}
    for k, vs in ARCHS[cls_name].items():
        over[k] = ctx.choice(k, vs)
    return over


def separate(ctx, tied, names, flagname="tied"):
    """names stored in the checkpoint, with the tied ones stored or not"""
    present = [n for n in names if n in tied]
    if not present:
        return names
    keep = ctx.flag("stores_tied")
    return names if keep else [n for n in names if n not in tied]


HEADS = ("lm_head.weight", "embed_out.weight")
# heads that the bundled definition requires to be stored
UNTIED = ("StableLmForCausalLM", "Phi3ForCausalLM", "PhiForCausalLM", "GPTNeoXForCausalLM", "FalconForCausalLM")
# tied weights HF never stores
NEVER = {"GemmaForCausalLM": ["lm_head.weight"], "BertForMaskedLM": ["cls.predictions.decoder.bias"], "RobertaForMaskedLM": ["lm_head.decoder.bias"],
         "WhisperForConditionalGeneration": ["proj_out.weight"], "T5ForConditionalGeneration": []}


def checkpoint(ctx, cls_name, depth):
    over = variants(ctx, cls_name)
    cfg, names, tied, emb, nd = truth(cls_name, depth, over)
    names = [n for n in names if n not in NEVER.get(cls_name, [])]
    if cls_name not in UNTIED:
        names = separate(ctx, tied, names)
    return cfg, names, tied, emb, nd


def merge(w, cls_name, cfg, ps, method="passthrough", **kw):
    return mk.do_merge(w, {"merge_method": method, "dtype": "float32", "models": [{"model": p, **kw} for p in ps]})


def complete(ctx, case):
    """every weight of the model is merged, under its own name, and nothing else is written"""
    cls_name, depth = case
    cfg, names, tied, emb, nd = checkpoint(ctx, cls_name, depth)
    with mk.SymWorld(ctx) as w:
        ts = {n: ctx.tensor(n, (1,)) for n in names}
        p = w.add_model("m", cfg, ts)
        r = merge(w, cls_name, cfg, [p])
        lost, extra = sorted(set(ts) - set(r.tensors)), sorted(set(r.tensors) - set(ts))
        ctx.check(not lost, f"weights lost in the merge: {lost[:4]}")
        ctx.check(not extra, f"weights invented by the merge: {extra[:4]}")
        for n in ts:
            ctx.eq(r.tensors[n].reshape(-1), ctx.elems(ts[n]), n)


def vocabulary(ctx, cls_name):
    """exactly the token embeddings and the head may differ in vocabulary size"""
    cfg, names, tied, emb, nd = checkpoint(ctx, cls_name, 1)
    emb = [e for e in emb if e in names]
    other = [n for n in names if nd[n] >= 2 and n not in emb and n not in tied]
    other = [n for n in other if any(s in n for s in ("embed", "norm", "pos", "patch", "wpe", "classifier", "score"))] or other[:2]
    which = ctx.choice("mismatch", [None] + other[:5])
    with mk.SymWorld(ctx) as w:
        rows = {"A": 2, "B": 3}
        ts = {}
        for k in "AB":
            ts[k] = {}
            for n in names:
                big = n in emb or n in tied or n == which
                ts[k][n] = ctx.tensor(k + n, (rows[k], 1) if big else (1, 1))
        ps = [w.add_model(k, cfg, ts[k]) for k in "AB"]
        run = lambda: merge(w, cls_name, cfg, ps, "linear", parameters={"weight": 1.0})
        if which is not None:
            ctx.check(ctx.raises(run) is not None, f"{which} is not a vocabulary matrix: a size mismatch is refused, never cropped")
            return
        r = run()
        for n in names:
            a, b = ctx.elems(ts["A"][n]), ctx.elems(ts["B"][n])
            ex = [0.5 * (x + y) for x, y in zip(a, b)]
            ctx.check(n in r.tensors, f"{n} present")
            expect(ctx, r.tensors[n], (len(ex), 1), ex, n, F32)


def tied_mix(ctx, cls_name):
    """one model stores its head, the other ties it to the embeddings"""
    cfg, names, tied, emb, nd = truth(cls_name, 1, variants(ctx, cls_name))
    head, src = next(iter(tied.items()))
    who = ctx.choice("stores_head", ["A", "B", "AB", ""])
    with mk.SymWorld(ctx) as w:
        ts = {k: {n: ctx.tensor(k + n, (1,)) for n in names if n != head or k in who} for k in "AB"}
        ps = [w.add_model(k, cfg, ts[k]) for k in "AB"]
        r = merge(w, cls_name, cfg, ps, "linear", parameters={"weight": 1.0})
        if not who:
            ctx.check(head not in r.tensors, "the head stays tied")
            return
        ctx.check(set(r.tensors) == set(names), "tensor names")
        h = [ctx.elems(ts[k].get(head, ts[k][src]))[0] for k in "AB"]
        ctx.eq(r.tensors[head].reshape(-1), [0.5 * (h[0] + h[1])], "head of a tied model is its embedding")


LEGACY = {
    "BertModel": [("", "bert."), ("LayerNorm.weight", "LayerNorm.gamma"), ("LayerNorm.bias", "LayerNorm.beta")],
    "BertForMaskedLM": [("LayerNorm.weight", "LayerNorm.gamma"), ("LayerNorm.bias", "LayerNorm.beta")],
    "BertForSequenceClassification": [("LayerNorm.weight", "LayerNorm.gamma"), ("LayerNorm.bias", "LayerNorm.beta")],
    "GPT2LMHeadModel": [("transformer.", "")],
}


def legacy(ctx, cls_name):
    """legacy tensor names are read and written under the current name"""
    cfg, names, tied, emb, nd = truth(cls_name, 1, {})
    names = [n for n in names if n not in tied]
    pos = ctx.flag("position_ids") if cls_name.startswith("Bert") else False
    if pos:
        names = names + [("" if cls_name == "BertModel" else "bert.") + "embeddings.position_ids"]
    rule = ctx.choice("rule", LEGACY[cls_name])

    def old(n):
        if rule[0] == "":
            return rule[1] + n
        if rule[1] == "":
            return n[len(rule[0]):] if n.startswith(rule[0]) else n
        return n.replace(*rule)

    with mk.SymWorld(ctx) as w:
        ts = {n: ctx.tensor(n, (1,), lo=-4, hi=4) for n in names}
        if pos:
            ts[names[-1]] = torch.tensor([3])
        p = w.add_model("m", cfg, {old(n): t for n, t in ts.items()})
        r = merge(w, cls_name, cfg, [p])
        ctx.check(set(r.tensors) == set(names), f"tensor names {sorted(set(r.tensors) ^ set(names))[:4]}")
        for n in names:
            ctx.eq(r.tensors[n].reshape(-1), ctx.elems(ts[n]), n)


def threaded(ctx, w):
    """the meta-device instantiation inside the inference runs on its own thread
    (same code, but outside the symbolic tensor mode)"""
    if not ctx.symbolic:
        return
    import mergekit.architecture.auto as A

    real = A.get_transformers_info

    def f(*a, **k):
        out = []
        t = threading.Thread(target=lambda: out.append(real(*a, **k)))
        t.start()
        t.join()
        return out[0]

    w._patch(A, "get_transformers_info", f)


def inferred(ctx, case):
    """classes without a bundled definition: weights inferred from the checkpoints"""
    cls_name, depth = case
    cfg, names, tied, emb, nd = truth(cls_name, depth, {})
    names = separate(ctx, tied, names)
    miss = ctx.choice("missing", [None, 0, len(names) // 2, -1])
    miss = None if miss is None else names[miss]
    with mk.SymWorld(ctx) as w:
        threaded(ctx, w)
        ts = {k: {m: ctx.tensor(k + m, (1,)) for m in names if not (k == "B" and m == miss)} for k in "AB"}
        ps = [w.add_model(k, cfg, ts[k]) for k in ts]
        # the weight rises from layer to layer
        r = mk.do_merge(w, dict(merge_method="linear", dtype="float32", parameters=dict(normalize=False),
                                models=[dict(model=p, parameters=dict(weight=[1.0, 3.0] if depth > 1 else 1.0)) for p in ps]))
        ctx.check(set(r.tensors) == set(names), f"tensor names {sorted(set(r.tensors) ^ set(names))[:4]}")
        for m in names:
            e = [ctx.elems(ts[k][m])[0] for k in ts if m in ts[k]]
            l = re.search(r"\.(\d+)\.", m)
            if depth == 1 or l:
                ctx.eq(r.tensors[m].reshape(-1), [ssum(e) * (1.0 + 2.0 * int(l[1]) / (depth - 1) if depth > 1 else 1.0)], m)
            else:  # a weight of no layer takes one of the ends
                ctx.check(ctx.Or(*(ctx.near(ctx.elems(r.tensors[m])[0], ssum(e) * x) for x in (1.0, 3.0))), m)


TIED = ["LlamaForCausalLM", "MistralForCausalLM", "Qwen2ForCausalLM", "Qwen3ForCausalLM", "Gemma2ForCausalLM", "GPT2LMHeadModel", "GraniteForCausalLM", "Olmo2ForCausalLM", "Starcoder2ForCausalLM", "MixtralForCausalLM", "MambaForCausalLM"]
OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=250, keep_samples=2)
OBLIGATIONS = [
    Ob("complete", complete, cases=[(a, 2) for a in ARCHS] + [("LlamaForCausalLM", 12)], tcases=[(a, d) for a in ARCHS for d in (1, 3)],
       bounds="every bundled architecture with a transformers class, 2 layers (Llama also 12, thorough 1-3), tied weights stored or not, every value"),
    Ob("vocabulary", vocabulary, cases=[a for a in ARCHS if a not in ("T5ForConditionalGeneration",)], bounds="two models with 2 and 3 vocabulary rows, one other mismatching matrix or none"),
    Ob("tied_mix", tied_mix, cases=TIED, bounds="two models, each storing or tying its head"),
    Ob("legacy", legacy, cases=list(LEGACY), bounds="documented legacy prefixes and LayerNorm names, with and without position ids"),
    Ob("inferred", inferred, cases=[("OPTForCausalLM", 2), ("OPTForCausalLM", 17), ("BloomForCausalLM", 2), ("GPTJForCausalLM", 1), ("OlmoForCausalLM", 2), ("BartForConditionalGeneration", 1), ("ElectraForMaskedLM", 1)], bounds="6 transformers classes without a bundled definition, 1-2 (OPT 17) layers, weights rising over the layers, one of four tensors missing from one of two models, every value"),
]
