"""MoE merges: attention of the base, MLPs of the experts, gates from the prompts."""
import json
import os
import types

from .c21 import save_tokenizer
from .lib import *

IMPORTS = ["mergekit.scripts.moe", "mergekit.moe.router", "mergekit.moe.common", "mergekit.moe.mixtral", "mergekit.moe.deepseek", "mergekit.moe.qwen"]
OUTSIDE = "real forward passes for the hidden modes, hidden_avg with prompts of different length, quantised loading, the statistical quality of random draws, more than 2 layers"
ASSUMPTIONS = ["hidden modes: the model's forward pass is replaced by an arbitrary function of layer and token", "noise: one symbolic value stands for the normal draws of a run",
               "checkpoint reader and writer replaced by an in-memory store; tokenizer real"]

ATT = ["self_attn.q_proj.weight", "self_attn.k_proj.weight", "self_attn.v_proj.weight", "self_attn.o_proj.weight", "input_layernorm.weight", "post_attention_layernorm.weight"]
IDS = {"<s>": 0, "a": 1, "b": 2, "c": 3}


class MoE:
    def __init__(self, ctx, w, names, layers=1, hidden=1, kind="llama", lm_head=True, bias=False, dtype=None):
        import transformers

        self.ctx, self.w, self.layers, self.hidden = ctx, w, layers, hidden
        self.t, self.p = {}, {}
        kw = dict(vocab_size=4, hidden_size=hidden, intermediate_size=2, num_hidden_layers=layers, num_attention_heads=1,
                  num_key_value_heads=1, tie_word_embeddings=not lm_head, head_dim=hidden, max_position_embeddings=96, rms_norm_eps=0.125)
        cls = {"llama": transformers.LlamaConfig, "mistral": transformers.MistralConfig, "qwen2": transformers.Qwen2Config, "qwen3": transformers.Qwen3Config}
        for m in names:
            k = kind if isinstance(kind, str) else kind[m]
            c = cls[k](**kw)
            c.architectures = [{"llama": "Llama", "mistral": "Mistral", "qwen2": "Qwen2", "qwen3": "Qwen3"}[k] + "ForCausalLM"]
            if dtype and m == "base":
                c.torch_dtype = dtype
            t = mk.llama_tensors(ctx, m, layers, hidden=hidden, vocab=4, inter=2, lm_head=lm_head)
            for l in range(layers):
                if bias:
                    for q in "qkv":
                        t[f"model.layers.{l}.self_attn.{q}_proj.bias"] = ctx.tensor(f"{m}:L{l}.{q}bias", (hidden,))
                if k == "qwen3":
                    for q in "qk":
                        t[f"model.layers.{l}.self_attn.{q}_norm.weight"] = ctx.tensor(f"{m}:L{l}.{q}norm", (hidden,))
            self.t[m] = t
            self.p[m] = w.add_model(m, c, t)
        d = w.dir(self.p["base"])
        save_tokenizer(d, IDS)
        with open(os.path.join(d, "tokenizer_config.json")) as f:
            tc = json.load(f)
        tc.update(bos_token="<s>", eos_token="c")
        with open(os.path.join(d, "tokenizer_config.json"), "w") as f:
            json.dump(tc, f)

    def build(self, experts, shared=None, allow=True, **cfg):
        from mergekit.moe.config import MoEMergeConfig
        from mergekit.options import MergeOptions
        from mergekit.scripts.moe import build

        e = lambda d: dict(d, source_model=self.p[d["source_model"]])
        c = MoEMergeConfig.model_validate(dict(base_model=self.p["base"], experts=[e(d) for d in experts],
                                               **({"shared_experts": [e(d) for d in shared]} if shared else {}), **cfg))
        out = os.path.join(self.w.root, "out")
        os.makedirs(out)
        if self.ctx.symbolic:  # only used for a warning
            self.w._patch(torch.linalg, "cond", lambda *a, **k: 10.0)
        build(c, out, MergeOptions(copy_tokenizer=False, quiet=True, lazy_unpickle=False), allow_all_same=allow, device="cpu")
        ts, _l, _i = self.w.load_output(out)
        with open(os.path.join(out, "config.json")) as f:
            return ts, json.load(f)

    # ------------------------------------------------------------- oracle
    def E(self, m, name):
        return self.ctx.elems(self.t[m][name])

    def unit(self, v):
        n = self.ctx.sqrt(ssum(x * x for x in v))
        if not self.ctx.symbolic:  # rounding noise would be scaled up
            self.ctx.assume(n == 0 or n > 1e-3)
        n = self.ctx.If(n >= 1e-8, n, 1e-8)
        return [self.ctx.quot(x, n) for x in v]

    def cheap(self, d):
        emb = self.E("base", "model.embed_tokens.weight")
        h = self.hidden

        def vec(prompts):
            s = [0.0] * h
            for p in prompts:
                for c in ["<s>", *p]:
                    i = IDS[c] * h
                    s = [a + b for a, b in zip(s, emb[i:i + h])]
            return self.unit(s)

        v = vec(d["positive_prompts"])
        if d.get("negative_prompts"):
            v = [a - b for a, b in zip(v, vec(d["negative_prompts"]))]
        return self.unit(v)


def dense(mo, m, l, part):
    return mo.E(m, f"model.layers.{l}.mlp.{part}.weight")


def scaled(mo, d, l, part, z=None):
    v = dense(mo, d["source_model"], l, part)
    if d.get("noise_scale") is not None:
        v = [x + z * d["noise_scale"] for x in v]
    if part == "down_proj" and d.get("residual_scale") is not None:
        v = [x * d["residual_scale"] for x in v]
    return v


def compare(ctx, mo, arch, ts, cj, experts, shared, gates, z=None, dtype=F32, values=True, epk=2, extra=()):
    """gates: {layer: {expert index: vector}}, the shared expert counted last"""
    h, n = mo.hidden, len(experts)
    want = {}
    for k in mo.t["base"]:
        if ".mlp." not in k:
            want[k] = (tuple(mo.t["base"][k].shape), mo.E("base", k))
    want.update(extra)
    for l in range(mo.layers):
        p = f"model.layers.{l}.mlp"
        if arch in ("mixtral", "qwen3"):
            want[f"{p}.experts.gate_up_proj"] = ((n, 4, h), [x for d in experts for part in ("gate_proj", "up_proj") for x in scaled(mo, d, l, part, z)])
            want[f"{p}.experts.down_proj"] = ((n, h, 2), [x for d in experts for x in scaled(mo, d, l, "down_proj", z)])
        else:
            for i, d in enumerate(experts):
                for part in ("gate_proj", "up_proj", "down_proj"):
                    want[f"{p}.experts.{i}.{part}.weight"] = ((h, 2) if part == "down_proj" else (2, h), scaled(mo, d, l, part, z))
        if shared:
            for part in ("gate_proj", "up_proj", "down_proj"):
                nm = "shared_experts" if arch == "deepseek" else "shared_expert"
                want[f"{p}.{nm}.{part}.weight"] = ((h, 2) if part == "down_proj" else (2, h), scaled(mo, shared[0], l, part, z))
        want[f"{p}.gate.weight"] = ((n, h), None if gates is None else [x for i in range(n) for x in gates[l][i]])
        if arch == "qwen2":
            want[f"{p}.shared_expert_gate.weight"] = ((1, h), None if gates is None else gates[l][n])
    ctx.check(set(ts) == set(want), f"tensors written: unexpected {sorted(set(ts) - set(want))}, missing {sorted(set(want) - set(ts))}")
    for k, (sh, e) in want.items():
        ctx.check(shape_of(ts[k]) == sh, f"{k} has shape {shape_of(ts[k])}, expected {sh}")
        ctx.check(ts[k].dtype == dtype, f"{k} has type {ts[k].dtype}, expected {dtype}")
        if e is not None and values:
            expect(ctx, ts[k], sh, e, k, dtype)
    key = {"mixtral": "num_local_experts", "deepseek": "n_routed_experts"}.get(arch, "num_experts")
    got = cj.get(key, cj.get("num_local_experts"))
    ctx.check(got == n, f"{key} is {got}, expected {n}")
    ctx.check(cj["num_experts_per_tok"] == epk, f"experts per token {cj['num_experts_per_tok']}, expected {epk}")
    nm = {"mixtral": "MixtralForCausalLM", "deepseek": "DeepseekForCausalLM", "qwen2": "Qwen2MoeForCausalLM", "qwen3": "Qwen3MoeForCausalLM"}[arch]
    ctx.check(cj["architectures"] == [nm], f"architecture {cj['architectures']}")
    for k, v in dict(hidden_size=h, intermediate_size=2, num_hidden_layers=mo.layers, vocab_size=4, tie_word_embeddings="lm_head.weight" not in mo.t["base"]).items():
        ctx.check(cj.get(k) == v, f"config {k} is {cj.get(k)}, expected {v}")
    # what a reader of the written weights needs: every layer is sparse, the experts are as wide as the
    # dense models' MLPs, weights of the chosen experts add up to one, attention as in the base
    fixed = dict(max_position_embeddings=96, rms_norm_eps=0.125)
    if arch != "mixtral":
        fixed.update(moe_intermediate_size=2, norm_topk_prob=True)
    if arch == "deepseek":
        fixed.update(first_k_dense_replace=0, moe_layer_freq=1, scoring_func="softmax")
    if arch in ("qwen2", "qwen3"):
        fixed.update(decoder_sparse_step=1)
    if arch == "qwen2":
        fixed.update(shared_expert_intermediate_size=2)
    for k, v in fixed.items():
        ctx.check(cj.get(k) == v, f"config {k} is {cj.get(k)}, expected {v}")
    if arch in ("mixtral", "qwen2"):
        ctx.check(cj.get("sliding_window") is None, f"config sliding_window is {cj.get('sliding_window')}")
    if arch == "deepseek":
        ctx.check(cj["n_shared_experts"] == (1 if shared else None), "number of shared experts in the config")


def same(mo, exps):
    g = [mo.cheap(d) for d in exps]
    return {l: dict(enumerate(g)) for l in range(mo.layers)}


PR = [dict(positive_prompts=["a"]), dict(positive_prompts=["b", "ca"]), dict(positive_prompts=["c"], negative_prompts=["ab"])]


def assemble(ctx, case):
    """all tensors and the config of the written model"""
    arch, kind, layers, hidden, n, sh, head = case
    with mk.SymWorld(ctx) as w:
        names = ["base"] + [f"e{i}" for i in range(n)] + (["s"] if sh == "own" else [])
        mo = MoE(ctx, w, names, layers, hidden, kind, lm_head=head, bias=kind == "qwen2")
        own = ctx.flag("base is also an expert")
        ex = [dict(PR[i % 3] if i < 3 else dict(positive_prompts=["abc"[i % 3] * (i // 3 + 1)]), source_model="base" if own and i == 1 else f"e{i}") for i in range(n)]
        shared = None
        if sh:
            shared = [dict(source_model="s" if sh == "own" else "e0", residual_scale=0.5)]
            if arch == "qwen2":
                shared[0]["positive_prompts"] = ["ab"]
        epk = ctx.choice("experts per token", [1, 2])
        mode = "cheap_embed" if hidden == 1 and n < 4 else "random"
        ts, cj = mo.build(ex, shared, gate_mode=mode, experts_per_token=epk, architecture=None if arch in ("mixtral", "qwen3") or kind == "qwen2" else arch.rstrip("2"))
        extra = {}
        if arch == "qwen2" and kind != "qwen2":
            extra = {f"model.layers.{l}.self_attn.{q}_proj.bias": ((hidden,), [0.0] * hidden) for l in range(layers) for q in "qkv"}
        gated = ex + (shared if arch == "qwen2" else [])
        compare(ctx, mo, arch, ts, cj, ex, shared, same(mo, gated) if mode != "random" else None, epk=epk, extra=extra)


def gates(ctx, case):
    """cheap_embed: normalised sum of the prompts' token embeddings, minus the negatives', for every layer"""
    arch, kind, layers, which = case
    with mk.SymWorld(ctx) as w:
        mo = MoE(ctx, w, ["base", "e0", "e1"], layers, 2, kind, bias=kind == "qwen2")
        pr = [dict(positive_prompts=list(p), **({"negative_prompts": list(n)} if n else {})) for p, n in which]
        ex = [dict(pr[i], source_model=f"e{i}") for i in range(2)]
        shared = [dict(pr[2], source_model="e1")] if len(pr) > 2 else None
        ts, cj = mo.build(ex, shared, gate_mode="cheap_embed")
        g = [mo.cheap(d) for d in pr]
        for l in range(layers):
            expect(ctx, ts[f"model.layers.{l}.mlp.gate.weight"], (2, 2), g[0] + g[1], f"gate of layer {l}", F32)
            if shared:
                expect(ctx, ts[f"model.layers.{l}.mlp.shared_expert_gate.weight"], (1, 2), g[2], f"shared gate of layer {l}", F32)


def revisions(ctx, case):
    """models named by revision: tensors, configuration and tokenizer of that revision"""
    arch, kind = case
    with mk.SymWorld(ctx) as w:
        w.hub("r1")
        mo = MoE(ctx, w, ["base", "e0", "e1"], 1, 1, kind, bias=kind == "qwen2")
        ex = [dict(positive_prompts=[p], source_model=f"e{i}") for i, p in enumerate("ab")]
        shared = [dict(positive_prompts=["c"], source_model="e1")] if arch == "qwen2" else None
        ts, cj = mo.build(ex, shared, gate_mode="cheap_embed", experts_per_token=2)
        compare(ctx, mo, arch, ts, cj, ex, shared, same(mo, ex + (shared or [])))


def scales(ctx, case):
    """noise on all MLP weights and residual scale on the down projection of its own expert only"""
    arch, kind = case
    with mk.SymWorld(ctx) as w:
        w.pickled = True  # a loaded pickle hands out the same tensors every time
        twice = arch in ("mixtral", "qwen3") and ctx.flag("one model twice")
        mo = MoE(ctx, w, ["base", "e0", "e1"], 1, 1, kind, bias=kind == "qwen2")
        z = ctx.real("draw")
        old = torch.randn_like
        torch.randn_like = lambda t, **k: ctx.mk_tensor([z] * t.numel()).reshape(tuple(t.shape))
        try:
            ex = []
            for i in range(2):
                d = dict(PR[i], source_model="e0" if twice else f"e{i}")
                if ctx.flag(f"noise {i}"):
                    d["noise_scale"] = (0.5, 2.0)[i]
                if ctx.flag(f"residual {i}"):
                    d["residual_scale"] = (0.25, 0.0)[i]
                ex.append(d)
            shared = [dict(source_model="e0", noise_scale=0.125, residual_scale=4.0, **(PR[2] if arch == "qwen2" else {}))] if arch in ("deepseek", "qwen2") else None
            ts, cj = mo.build(ex, shared, gate_mode="cheap_embed", architecture=None if kind in ("qwen2", "qwen3") else arch)
        finally:
            torch.randn_like = old
        compare(ctx, mo, arch, ts, cj, ex, shared, None, z=z)


def dtypes(ctx, case):
    """the output type is the configured one, else the base model's, else the tensors' own"""
    arch, kind = case
    with mk.SymWorld(ctx) as w:
        base = ctx.choice("base type", [None, "float16"])
        dt = ctx.choice("type", [None, "float32", "bfloat16"])
        mo = MoE(ctx, w, ["base", "e0", "e1"], 1, 1, kind, bias=kind == "qwen2", dtype=base)
        ex = [dict(PR[i], source_model=f"e{i}") for i in range(2)]
        shared = [dict(PR[2], source_model="e1")] if arch == "qwen2" else None
        ts, cj = mo.build(ex, shared, gate_mode="cheap_embed", **({"dtype": dt} if dt else {}))
        want = getattr(torch, dt or base or "float32")
        compare(ctx, mo, arch, ts, cj, ex, shared, None, dtype=want, values=want == F32)


class Forward:
    """stand-in for the base model: an arbitrary state per layer and token"""

    device = torch.device("cpu")

    def __init__(self, ctx, layers, hidden, pad=0):
        self.ctx, self.hidden, self.layers = ctx, hidden, layers
        self.h = {(l, t): ctx.elems(ctx.tensor(f"state {l} {t}", (hidden,))) for l in range(layers + 1) for t in range(4)}

    def to(self, *a, **k):
        return self

    def eval(self):
        return self

    def __call__(self, input_ids=None, attention_mask=None, output_hidden_states=False, **kw):
        assert output_hidden_states
        b, s = input_ids.shape
        ids, am = input_ids.tolist(), attention_mask.tolist()
        out = []
        for l in range(self.layers + 1):
            # masked positions hold garbage that must not matter
            vals = [x for i in range(b) for j in range(s) for x in (self.h[l, ids[i][j]] if am[i][j] else [77.0] * self.hidden)]
            out.append(self.ctx.mk_tensor(vals).reshape((b, s, self.hidden)))
        return types.SimpleNamespace(hidden_states=tuple(out))


def hidden_mode(ctx, case):
    """gate of layer l: normalised mean over prompts of the state entering that layer at the last token, minus negatives"""
    mode, layers, hidden = case
    import transformers

    with mk.SymWorld(ctx) as w:
        mo = MoE(ctx, w, ["base", "e0", "e1"], layers, hidden, "llama")
        fw = Forward(ctx, layers, hidden)
        w._patch(transformers.AutoModelForCausalLM, "from_pretrained", lambda *a, **k: fw)
        if mode == "hidden":
            ex = [dict(source_model="e0", positive_prompts=["a", "bc"]), dict(source_model="e1", positive_prompts=["c"], negative_prompts=["ab", "a", "ca"])]
        else:
            ex = [dict(source_model="e0", positive_prompts=["ab", "cb"]), dict(source_model="e1", positive_prompts=["c"], negative_prompts=["a"])]
        ts, cj = mo.build(ex, gate_mode=mode)
        gates = {}
        for l in range(layers):
            def vec(ps):
                if mode == "hidden":
                    vs = [fw.h[l, IDS[p[-1]]] for p in ps]
                else:
                    vs = [[ctx.quot(ssum(fw.h[l, IDS[c]][j] for c in ["<s>", *p]), float(len(p) + 1)) for j in range(hidden)] for p in ps]
                return [ctx.quot(ssum(v[j] for v in vs), float(len(vs))) for j in range(hidden)]
            gates[l] = {}
            for i, d in enumerate(ex):
                v = vec(d["positive_prompts"])
                if d.get("negative_prompts"):
                    v = [a - b for a, b in zip(v, vec(d["negative_prompts"]))]
                gates[l][i] = mo.unit(v)
        compare(ctx, mo, "mixtral", ts, cj, ex, None, gates)


def random_gates(ctx, case):
    """random gates have the documented shape; uniform ones are within 1/sqrt(hidden)"""
    mode, arch, kind = case
    with mk.SymWorld(ctx) as w:
        mo = MoE(ctx, w, ["base", "e0", "e1"], 2, 2, kind, bias=kind == "qwen2")
        ex = [dict(PR[i], source_model=f"e{i}") for i in range(2)]
        shared = [dict(PR[2], source_model="e1")] if arch == "qwen2" else None
        ts, cj = mo.build(ex, shared, gate_mode=mode)
        compare(ctx, mo, arch, ts, cj, ex, shared, None)
        if mode == "uniform_random":
            for k, t in ts.items():
                if k.endswith("gate.weight"):
                    for x in ctx.elems(t):
                        ctx.check(ctx.And(x >= -0.7072, x <= 0.7072), f"{k} within the bound")


def refused(ctx, case):
    """configurations that cannot work are refused, all others accepted"""
    from mergekit.moe.config import MoEMergeConfig, is_bad_config

    n = case
    models = [ctx.choice(f"model {i}", ["x", "y"]) for i in range(n)]
    pos = [ctx.choice(f"positive {i}", [None, "p", "q"]) for i in range(n)]
    neg = [n == 2 and ctx.flag(f"negative {i}") for i in range(n)]
    epk = ctx.int("experts per token", -1, 4)
    mode = ctx.choice("mode", ["hidden", "cheap_embed", "random"] if n == 2 else ["hidden", "random"])
    allow = ctx.flag("allow all same")
    c = MoEMergeConfig.model_construct(base_model=mk.mref("base"), gate_mode=mode, experts_per_token=epk, shared_experts=None, dtype=None, architecture=None,
                                       experts=[_expert(m, p, g) for m, p, g in zip(models, pos, neg)])
    bad = epk < 1 or epk > n
    if mode != "random" and not bad:
        bad = None in pos or all((p, g) == (pos[0], neg[0]) for p, g in zip(pos, neg)) or (not allow and all(m == models[0] for m in models))
    ctx.check(bool(is_bad_config(c, allow_all_same=allow)) == bad, f"refused: {not bad} for {models} {pos} {neg} {epk} {mode} {allow}")


def _expert(m, p, g):
    from mergekit.moe.config import Expert

    return Expert.model_construct(source_model=mk.mref(m), positive_prompts=[p] if p else None, negative_prompts=["n"] if g else None, noise_scale=None, residual_scale=None)


def select(ctx):
    """the output architecture fits the inputs: one supported family, shared experts only where they exist"""
    from mergekit.moe.config import MoEMergeConfig
    from mergekit.options import MergeOptions
    from mergekit.scripts.moe import select_output_arch

    with mk.SymWorld(ctx) as w:
        kinds = ["llama", "mistral", "qwen2", "qwen3"]
        kind = {m: ctx.choice(f"kind {m}", kinds) for m in ("base", "e0")}
        mo = MoE(ctx, w, ["base", "e0"], 1, 1, kind)
        ask = ctx.choice("architecture", [None, "mixtral", "deepseek", "qwen moe", "Qwen3", "nothing"])
        ns = ctx.choice("shared", [0, 1, 2])
        pr = ctx.flag("shared prompts")
        c = MoEMergeConfig.model_validate(dict(base_model=mo.p["base"], experts=[dict(source_model=mo.p["e0"], positive_prompts=["a"])], architecture=ask,
                                               shared_experts=[dict(source_model=mo.p["e0"], **({"positive_prompts": ["b"]} if pr else {}))] * ns or None))
        fam = set(kind.values())
        ok = []
        if len(fam) == 1:
            k = fam.pop()
            if k in ("llama", "mistral"):
                if not ns:
                    ok.append("Mixtral")
                if not ns or ns == 1 and not pr:
                    ok.append("DeepSeek MoE")
            if k in ("llama", "mistral", "qwen2") and ns == 1 and pr:
                ok.append("Qwen MoE")
            if k == "qwen3" and not ns:
                ok.append("Qwen3 MoE")
        if ask:
            ok = [a for a in ok if a.lower().startswith(ask.lower())]
        try:
            got = select_output_arch(c, MergeOptions(quiet=True)).name()
        except SystemExit:
            got = None
        ctx.check(got == (ok[0] if ok else None), f"selected {got}, compatible {ok}")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=300, keep_samples=2, ite="merge")
OBLIGATIONS = [
    Ob("assemble", assemble, cases=[("mixtral", "llama", 1, 1, 2, None, True), ("mixtral", "mistral", 2, 2, 2, None, False), ("mixtral", "llama", 1, 1, 11, None, True),
                                    ("deepseek", "llama", 1, 2, 2, None, True), ("deepseek", "mistral", 2, 1, 2, "e0", True), ("deepseek", "llama", 1, 1, 2, "own", False),
                                    ("qwen2", "qwen2", 2, 1, 2, "e0", True), ("qwen2", "qwen2", 1, 1, 2, "own", False), ("qwen2", "llama", 1, 2, 2, "own", True),
                                    ("qwen3", "qwen3", 1, 1, 2, None, True), ("qwen3", "qwen3", 2, 2, 3, None, False)],
       bounds="all four output architectures, 2-11 experts, 1-2 layers, hidden size 1-2, tied and untied heads, shared expert from an expert's or its own model"),
    Ob("revisions", revisions, cases=[("mixtral", "llama"), ("qwen2", "qwen2")], bounds="2 experts, 1 layer"),
    Ob("gates", gates, cases=[("mixtral", "llama", 2, ((["a"], 0), (["b"], 0))), ("qwen2", "qwen2", 2, ((["a"], 0), (["b"], 0), (["c"], 0))), ("mixtral", "llama", 1, ((["bc", "a"], 0), (["b"], ["c"])))],
       tcases=[("qwen3", "qwen3", 1, ((["a", "b", "c"], 0), (["b"], ["a", "cc"])))], abstract=4, bounds="hidden size 2, 1-2 layers, 1-3 prompts of 1-2 tokens, with and without negative prompts"),
    Ob("scales", scales, cases=[("mixtral", "llama"), ("deepseek", "llama"), ("qwen2", "qwen2"), ("qwen3", "qwen3")], bounds="2 experts with any subset of noise and residual scales; of one or two models stored as pickles"),
    Ob("dtypes", dtypes, cases=[("mixtral", "llama"), ("qwen2", "qwen2"), ("qwen3", "qwen3")], bounds="configured type none / float32 / bfloat16, base type none / float16"),
    Ob("hidden", hidden_mode, cases=[("hidden", 2, 1), ("hidden", 1, 2), ("hidden_avg", 1, 1)],
       bounds="1-2 layers, hidden size 1-2, prompts of different lengths, positive and negative"),
    Ob("random", random_gates, cases=[("random", "mixtral", "llama"), ("random", "qwen2", "qwen2"), ("uniform_random", "mixtral", "llama"), ("uniform_random", "qwen2", "qwen2")], bounds="2 layers, 2 experts, hidden size 2"),
    Ob("refused", refused, cases=[2, 3], bounds="2-3 experts, every choice of models, prompts, experts_per_token -1..4"),
    Ob("select", select, bounds="4 model families for base and expert, 0-2 shared experts with or without prompts, 6 requested architectures"),
]
