"""Embedding rows follow the output vocabulary: own rows, fallbacks, overrides, padding."""
import json
import os

from .lib import *

IMPORTS = ["mergekit.tokenizer.embed", "mergekit.tokenizer.build", "mergekit.tokenizer.config", "mergekit.merge"]
OUTSIDE = "more than 3 models or 3 output tokens, token ids with gaps, models of different element types"
ASSUMPTIONS = ["units other than endtoend: the tokenizer is a stand-in that only has a vocabulary; checkpoint reader and writer replaced by an in-memory store"]

TOKS = ["aa", "bb", "cc"]


class Tok:
    def __init__(self, vocab):
        self.v = dict(vocab)

    def get_vocab(self):
        return dict(self.v)


ref = mk.mref


class Setup:
    """n models, each holding any subset of v output tokens at its own positions"""

    def __init__(self, ctx, n, v, cols=1, orders=True, extra_row=True):
        self.ctx, self.n, self.v, self.cols = ctx, n, v, cols
        self.names = [f"m{i}" for i in range(n)]
        ids = list(range(v))
        if orders and ctx.flag("outrev"):
            ids.reverse()
        self.vocab = {t: i for t, i in zip(TOKS[:v], ids)}
        self.own, self.t = {}, {}
        for m in self.names:
            held = [t for t in TOKS[:v] if ctx.flag(f"has {m} {t}")]
            if orders and len(held) > 1 and ctx.flag(f"rev {m}"):
                held.reverse()
            # one row of its own in front (a token the output does not have)
            self.own[m] = {"own" + m: 0, **{t: i + 1 for i, t in enumerate(held)}}
            self.t[m] = ctx.tensor(m, (len(held) + 1, cols))

    def row(self, m, i):
        return self.ctx.elems(self.t[m])[i * self.cols:(i + 1) * self.cols]

    def has(self, m, t):
        return t in self.own[m]

    def run(self, tokens=None, base=None, pad=None, drop=(), perms=None):
        from mergekit.architecture import WeightInfo
        from mergekit.common import ImmutableMap
        from mergekit.graph import Executor, TaskUniverse
        from mergekit.io.tasks import GatherTensors
        from mergekit.tokenizer.build import BuildTokenizer, TokenizerInfo
        from mergekit.tokenizer.config import TokenizerConfig
        from mergekit.tokenizer.embed import PermutedEmbeddings

        refs = {m: ref(m) for m in self.names}
        info = TokenizerInfo.model_construct(
            tokenizer=Tok(self.vocab),
            permutations={r: {i: self.own[m].get(t, -1) for t, i in self.vocab.items()} for m, r in refs.items()},
            original_vocabs={r: dict(self.own[m]) for m, r in refs.items()})
        cfg = TokenizerConfig(tokens=tokens) if tokens is not None else None
        wi = WeightInfo(name="w", is_embed=True, optional=True)
        mk.set_loaders({r: {} if m in drop else {"w": self.t[m]} for m, r in refs.items()})
        g = GatherTensors(weight_info=ImmutableMap(data={r: wi for r in refs.values()}))
        b = BuildTokenizer(base_model=ref(base) if base else None, referenced_models=tuple(refs.values()), tokenizer_source="union", add_tokens=())
        task = PermutedEmbeddings(gather_tensors=g, tokenizer_task=b, tokens=cfg.tokens if cfg else None, pad_to_multiple_of=pad, base_model=ref(base) if base else None)
        u = TaskUniverse([task])
        cached = {u.get_handle(b): info}
        out = None
        for _t, val in Executor([u.get_handle(task)], cached_values=cached).run(quiet=True):
            out = val
        return {m: out[r] for m, r in refs.items() if r in out}

    # ------------------------------------------------ README rules
    def fallback(self, t, base, drop=()):
        hs = [m for m in self.names if m not in drop and self.has(m, t)]
        if base in hs:
            return self.row(base, self.own[base][t])
        if not hs:
            return [0.0] * self.cols
        rows_ = [self.row(m, self.own[m][t]) for m in hs]
        return [self.ctx.quot(ssum(r[j] for r in rows_), float(len(rows_))) for j in range(self.cols)]

    def source(self, c, t):
        """embedding an override names, or None when it does not exist"""
        if c[0] == "zero":
            return [0.0] * self.cols
        if c[0] == "model":
            return self.row(c[1], self.own[c[1]][t]) if self.has(c[1], t) else None
        if c[0] == "id":
            return self.row(c[1], c[2]) if 0 <= c[2] < self.t[c[1]].shape[0] else None
        return self.row(c[1], self.own[c[1]][c[2]]) if c[2] in self.own[c[1]] else None

    def expected(self, m, t, base, overrides, drop=()):
        c = overrides.get(t)
        if c is not None and c[-1]:
            return self.source(c, t)
        if self.has(m, t):
            return self.row(m, self.own[m][t])
        if c is not None:
            return self.source(c, t)
        return self.fallback(t, base, drop)


def conf(c):
    if c[0] == "zero":
        src = {"kind": "zero"}
    elif c[0] == "model":
        src = str(ref(c[1]))
    elif c[0] == "id":
        src = {"kind": "model_token", "model": str(ref(c[1])), "token_id": c[2]}
    else:
        src = {"kind": "model_token", "model": str(ref(c[1])), "token": c[2]}
    return {"source": src, "force": c[-1]}


def compare(ctx, s, got, base, ov, drop=(), size=None):
    ctx.check(sorted(got) == [m for m in s.names if m not in drop], f"an embedding for every model with a tensor: {sorted(got)}")
    for m, t in got.items():
        ex = [None] * s.v
        for tok, i in s.vocab.items():
            ex[i] = s.expected(m, tok, base, ov, drop)
        flat = [x for r in ex for x in r]
        n = size or s.v
        if n > s.v:
            mean = [ctx.quot(ssum(r[j] for r in ex), float(s.v)) for j in range(s.cols)]
            flat += mean * (n - s.v)
        expect(ctx, t, (n, s.cols), flat, f"embedding of {m} for {s.vocab}", F32)


def default(ctx, case):
    """own rows where present; otherwise base, the only owner, or the average"""
    n, v, cols = case
    s = Setup(ctx, n, v, cols, orders=n < 3)
    base = ctx.choice("base", [None, "m0", s.names[-1]])
    compare(ctx, s, s.run(base=base), base, {})


def overrides(ctx, case):
    """a configured source replaces the fallback, and with force every model's own row"""
    n, v, kind = case
    s = Setup(ctx, n, v, 1, orders=False)
    base = ctx.choice("base", [None, "m1"])
    force = ctx.flag("force")
    if kind == "zero":
        c = ("zero", force)
    elif kind == "model":
        c = ("model", ctx.choice("src", s.names), force)
    elif kind == "id":
        c = ("id", ctx.choice("src", s.names), ctx.choice("row", [0, 1, 2, 3]), force)
    else:
        c = ("tok", ctx.choice("src", s.names), ctx.choice("tok", ["ownm0", "bb", "aa"]), force)
    ov = {"aa": c}
    if s.source(c, "aa") is None:
        ctx.check(ctx.raises(lambda: s.run(tokens={"aa": conf(c)}, base=base)) is not None, "a source that does not exist is refused")
        return
    compare(ctx, s, s.run(tokens={"aa": conf(c)}, base=base), base, ov)


def two_overrides(ctx):
    """overrides of different tokens do not interfere"""
    s = Setup(ctx, 2, 3, 1, orders=False)
    ov = {}
    for t in ("aa", "cc"):
        k = ctx.choice(f"kind {t}", ["zero", "id", None])
        f = ctx.flag(f"force {t}")
        if k == "zero":
            ov[t] = ("zero", f)
        elif k == "id":
            ov[t] = ("id", "m1", 0, f)
    compare(ctx, s, s.run(tokens={t: conf(c) for t, c in ov.items()}, base=None), None, ov)


def padding(ctx, case):
    """the row count is rounded up to the multiple, extra rows hold the average row"""
    v = case
    s = Setup(ctx, 2, v, 2, orders=False)
    pad = ctx.choice("pad", [None, 1, 2, 3, 4, 8])
    n = v if not pad else -(-v // pad) * pad
    compare(ctx, s, s.run(base="m0", pad=pad), "m0", {}, size=n)


def partial(ctx, case):
    """models without this tensor (base included) are left out and not used"""
    n, v = case
    s = Setup(ctx, n, v, 1, orders=False)
    drop = [m for m in s.names if ctx.flag(f"absent {m}")]
    if len(drop) == n:
        return
    base = ctx.choice("base", [None, "m0"])
    compare(ctx, s, s.run(base=base, drop=drop), base, {}, drop=drop)


def columns(ctx):
    s = Setup(ctx, 2, 1, 2, orders=False)
    s.t["m1"] = ctx.tensor("wide", (2, 3))
    ctx.check(ctx.raises(lambda: s.run()) is not None, "different embedding widths are refused")


def _tokfiles(path, vocab, added):
    import tokenizers
    import transformers

    t = tokenizers.Tokenizer(tokenizers.models.BPE(vocab=vocab, merges=[]))
    r = transformers.PreTrainedTokenizerFast(tokenizer_object=t)
    r.add_tokens(added)
    r.save_pretrained(path)
    return r.get_vocab()


def endtoend(ctx, case):
    """complete merges: embedding and head rows, vocabulary size in the config, saved tokenizer"""
    src, pad, ov = case
    import transformers

    with mk.SymWorld(ctx) as w:
        vocabs, ts, ps = {}, {}, {}
        for m in "AB":
            voc, add = {"aa": 0}, []
            if ctx.flag(f"bb in {m}"):
                voc["bb"] = len(voc)
            if ctx.flag(f"xx in {m}"):
                add = ["xx"]
            p = os.path.join(w.root, m)
            os.makedirs(p)
            vocabs[m] = _tokfiles(p, voc, add)
            rows_ = len(vocabs[m]) + (1 if m == "B" else 0)  # B has a padding row
            ts[m] = mk.llama_tensors(ctx, m, 1, vocab_rows=rows_)
            ps[m] = w.add_model(m, mk.llama_config(1, 1, rows_, 1, 1), ts[m])
        cfg = dict(merge_method="linear", dtype="float32", base_model=ps["A"], parameters=dict(normalize=False),
                   models=[dict(model=ps[m], parameters=dict(weight=wt)) for m, wt in zip("AB", (0.5, 2.0))])
        tok = {"source": ps["B"] if src == "B" else src}
        if pad:
            tok["pad_to_multiple_of"] = pad
        if ov:
            tok["tokens"] = {"new": {"source": {"kind": "model_token", "model": ps["B"], "token": "aa"}}}
        if src == "legacy":
            cfg["tokenizer_source"] = "union"
        else:
            cfg["tokenizer"] = tok
        r = mk.do_merge(w, cfg)
        got = transformers.AutoTokenizer.from_pretrained(r.path).get_vocab()
        want = {"base": set(vocabs["A"]), "B": set(vocabs["B"])}.get(src, set(vocabs["A"]) | set(vocabs["B"])) | ({"new"} if ov else set())
        ctx.check(set(got) == want, f"output vocabulary {sorted(got)} expected {sorted(want)}")
        ctx.check(sorted(got.values()) == list(range(len(got))), "consecutive ids")
        n = len(got) if not pad else -(-len(got) // pad) * pad
        ctx.check(r.config["vocab_size"] == n, f"vocab_size {r.config['vocab_size']} expected {n}")
        for key in ("model.embed_tokens.weight", "lm_head.weight"):
            e = {m: ctx.elems(ts[m][key]) for m in "AB"}
            ex = [0.0] * len(got)
            for t, i in got.items():
                if t == "new":
                    a = b = e["B"][vocabs["B"]["aa"]]
                else:
                    a = e["A"][vocabs["A"][t]] if t in vocabs["A"] else e["B"][vocabs["B"][t]]
                    b = e["B"][vocabs["B"][t]] if t in vocabs["B"] else a
                ex[i] = 0.5 * a + 2.0 * b
            ex += [ctx.quot(ssum(ex), float(len(got)))] * (n - len(got))
            expect(ctx, r.tensors[key], (n, 1), ex, key, F32)


def architectures(ctx, cls_name):
    """vocab_size ends up where that architecture's configuration has it"""
    import transformers

    from . import c14

    cfg, names, tied, emb, nd = c14.truth(cls_name, 1, {})
    pad = ctx.choice("pad_to_multiple_of", [None, 4])
    n = 3 if pad is None else 4
    with mk.SymWorld(ctx) as w:
        p = os.path.join(w.root, "m")
        os.makedirs(p)
        _tokfiles(p, {"aa": 0, "bb": 1, "cc": 2}, [])
        ts = {k: ctx.tensor(k, (3, 1) if k in emb else (1,)) for k in names}
        w.add_model("m", cfg, ts)
        r = mk.do_merge(w, dict(merge_method="passthrough", dtype="float32", models=[dict(model=p)], tokenizer=dict(source="base", pad_to_multiple_of=pad)))
        out = transformers.AutoConfig.from_pretrained(r.path)
        out = out.get_text_config()
        ctx.check(out.vocab_size == n, f"vocab_size {out.vocab_size} expected {n}")
        for k in emb:
            if k in r.tensors:
                ctx.check(tuple(r.tensors[k].shape) == (n, 1), f"{k} has shape {tuple(r.tensors[k].shape)}")
                ctx.eq(r.tensors[k].reshape(-1)[:3], ctx.elems(ts[k]), k)


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=300, keep_samples=2, ite="fork")
OBLIGATIONS = [
    Ob("default", default, cases=[(1, 2, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1), (3, 2, 1)], tcases=[(2, 3, 2), (3, 3, 1)], bounds="1-3 models holding any subset of 1-2 (3) tokens in any order, base none / first / last, every value"),
    Ob("overrides", overrides, cases=[(2, 2, "zero"), (2, 2, "model"), (2, 2, "id"), (2, 2, "tok"), (3, 1, "model")], bounds="2-3 models, every subset of 1-2 tokens, every kind of source with and without force"),
    Ob("two_overrides", two_overrides, bounds="2 models, 3 tokens, 2 overrides"),
    Ob("padding", padding, cases=[1, 2, 3], bounds="1-3 tokens, multiples 1, 2, 3, 4, 8 or none"),
    Ob("partial", partial, cases=[(2, 2), (3, 1)], bounds="any subset of 2-3 models lacks the tensor"),
    Ob("columns", columns, bounds="widths 2 and 3"),
    Ob("endtoend", endtoend, cases=[("union", None, False), ("union", 4, True), ("base", None, True), ("B", 3, False), ("legacy", None, False)],
       bounds="two llama checkpoints with real tokenizers, every subset of 2 further tokens, vocabulary of union / base / other model, padding 3 or 4, one added token"),
    Ob("architectures", architectures, cases=["LlamaForCausalLM", "GPT2LMHeadModel", "BertForMaskedLM", "WhisperForConditionalGeneration", "Llama4ForConditionalGeneration", "Qwen3VLForConditionalGeneration", "Qwen3VLMoeForConditionalGeneration"],
       bounds="7 architectures with one layer, vocabulary of 3, padded to 4 or not"),
]
