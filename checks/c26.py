"""mergekit-tokensurgeon: a donor's vocabulary transplanted into a model."""
import json
import os

from .lib import *

IMPORTS = ["mergekit.scripts.tokensurgeon"]
OUTSIDE = "more than 3 shared or 2 new tokens, hidden size over 2, the values of randn, john_hewitt, landmark_pca, stb and mp_rope embeddings and of --new-vocab-noise, --magikarp"
ASSUMPTIONS = ["tokenizer files are real; checkpoint reader and writer replaced by an in-memory store",
               "least squares problems have full rank (determinants at least 1/8)"]


def save_tokenizer(path, vocab, special=None):
    import tokenizers
    import transformers

    t = tokenizers.Tokenizer(tokenizers.models.BPE(vocab=vocab, merges=[]))
    transformers.PreTrainedTokenizerFast(tokenizer_object=t, **(special or {})).save_pretrained(path)


class Surgery:
    """a model and a donor, each with its own tokenizer and embedding rows"""

    def __init__(self, ctx, w, va, vb, h=1, hb=1, rows_a=None, rows_b=None, head_a=True, head_b=True, dtype=F32, donor=None, own=None, spa=None, spb=None, **cfg_b):
        self.ctx, self.w, self.dtype = ctx, w, dtype
        w.pickled = True  # tensors read twice are the same object
        self.v, self.t, self.p = {"A": va, "B": vb}, {}, {}
        for m, hid, rows, head, sp, kw in (("A", h, rows_a, head_a, spa, {}), ("B", hb, rows_b, head_b, spb, cfg_b)):
            n = rows or len(self.v[m])
            t = mk.llama_tensors(ctx, m, 1, hidden=hid, vocab=n, lm_head=head, dtype=dtype)
            t.update((donor if m == "B" else own) or {})
            c = mk.llama_config(1, hidden=hid, vocab=n, inter=1, tie=not head, **kw)
            self.p[m] = w.add_model(m, c, t)
            self.t[m] = t
            save_tokenizer(w.dir(self.p[m]), self.v[m], sp)

    def run(self, *args):
        import transformers
        from mergekit.scripts import tokensurgeon

        out = os.path.join(self.w.root, f"out{len(os.listdir(self.w.root))}")
        # the backend lists the vocabulary in a random order: fixed for re-execution
        cls = transformers.PreTrainedTokenizerFast
        get_vocab = cls.get_vocab
        cls.get_vocab = lambda t: dict(sorted(get_vocab(t).items(), key=lambda kv: kv[1]))
        try:
            tokensurgeon.main.main(args=[self.p["A"], self.p["B"], out, "--quiet", *args], standalone_mode=False)
        finally:
            cls.get_vocab = get_vocab
        ts, _, _ = self.w.load_output(out)
        with open(os.path.join(out, "config.json")) as f:
            self.cfg = json.load(f)
        self.out = out
        return ts

    def row(self, m, key, i):
        return self.ctx.elems(self.t[m][key][i])

    def common(self, ts, rows):
        """everything but the embeddings is the model's own; the vocabulary is the donor's"""
        import transformers

        ctx = self.ctx
        ctx.check(set(ts) == set(self.t["A"]), f"tensors: {sorted(set(ts) ^ set(self.t['A']))}")
        for k, v in self.t["A"].items():
            if k not in (EMB, HEAD):
                expect(ctx, ts[k], v.shape, ctx.elems(v), k, self.dtype)
        ctx.check(self.cfg["vocab_size"] == rows, f"config vocab_size {self.cfg['vocab_size']}, {rows} rows")
        tok = transformers.AutoTokenizer.from_pretrained(self.out)
        ctx.check(tok.get_vocab() == self.v["B"], f"output vocabulary {tok.get_vocab()}")
        for k in (EMB, HEAD):
            if k in ts:
                ctx.check(ts[k].shape[0] == rows and ts[k].dtype == self.dtype, f"{k}: {tuple(ts[k].shape)} {ts[k].dtype}, expected {rows} rows")


EMB, HEAD = "model.embed_tokens.weight", "lm_head.weight"
HEX = lambda c: f"<0x{ord(c):02X}>"


def norm(t):
    return ("start", t[1:]) if t.startswith("Ġ") else t


def ids(*toks):
    return {t: i for i, t in enumerate(toks)}


def source_of(tok, orig, byte, prefix):
    """the original token whose row a donor token takes over, or None"""
    own = {norm(t): i for t, i in orig.items()}
    n = norm(tok)
    if n in own:
        return own[n]
    if byte and isinstance(n, str):
        if len(n) == 1 and HEX(n) in own:
            return own[HEX(n)]
        if len(n) == 6 and n.startswith("<0x") and n != "<0xZZ>" and chr(int(n[3:5], 16)) in own:
            return own[chr(int(n[3:5], 16))]
    if prefix:
        s = n if isinstance(n, str) else n[1]
        for k in range(len(s) - 1, 0, -1):
            q = s[:k] if isinstance(n, str) else ("start", s[:k])
            if q in own:
                return own[q]
    return None


DONOR = ids("c", "abc", "a", HEX("b"), "ab", "Ġabc", HEX("a"), "b", "j", HEX("o"), HEX("ÿ"), "<0xZZ>", "ÿ")


def matching(ctx, case):
    """exact matches always, byte and prefix matches where they are allowed"""
    free, fixed = case
    byte = ctx.choice("byte match", ["yes", "no", "embed", "lm_head"])
    prefix = ctx.choice("prefix match", ["no", "yes", "embed", "lm_head"])
    va = ids("zz", *fixed, *(t for t in free if ctx.flag(f"original has {t}")))
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, DONOR)
        ts = s.run("-a", "zero", "-bm", byte, "-pm", prefix)
        s.common(ts, len(DONOR))
        for key, me in ((EMB, "embed"), (HEAD, "lm_head")):
            for t, i in DONOR.items():
                j = source_of(t, va, byte in ("yes", me), prefix in ("yes", me))
                ctx.eq(ts[key][i], s.row("A", key, j) if j is not None else [0], f"{key}: row of {t}")


def sizes(ctx, case):
    """tokens beyond a model's rows are not taken from it; donor ids are kept"""
    da, db = case
    va, vb = ids("p", "q", "x", "y", "z"), ids("y", "new", "x", "z", "p")
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, rows_a=5 + da, rows_b=5 + db)
        ts = s.run("-a", "mean")
        s.common(ts, 5)
        for key in (EMB, HEAD):
            n = 5 + da
            mean = [ssum(s.row("A", key, i)[0] for i in range(n)) / n]
            for t, i in vb.items():
                if i >= 5 + db:
                    e = [0]
                elif t in va and va[t] < n:
                    e = s.row("A", key, va[t])
                else:
                    e = mean
                ctx.eq(ts[key][i], e, f"{key}: row of {t}")


def simple(ctx, case):
    """zero and mean embeddings, scaled, in batches, in the model's type"""
    meth, scale, batch, dtype = case
    va, vb = ids("a", "b", "c"), ids("n1", "b", "n2", "a", "n3")
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, h=2, dtype=dtype)
        ts = s.run("-a", meth, *(["-nvs", str(scale)] if scale is not None else []), "--batch-size", str(batch))
        s.common(ts, 5)
        k = 1 if scale is None else scale
        for key in (EMB, HEAD):
            mean = [ssum(s.row("A", key, i)[c] for i in range(3)) / 3 for c in range(2)]
            for t, i in vb.items():
                e = s.row("A", key, va[t]) if t in va else [m * k for m in mean] if meth == "mean" else [0, 0]
                ctx.eq(ts[key][i], e, f"{key}: row of {t}")


def revisions(ctx):
    """model and donor named by revision: tensors, configuration and tokenizer of that revision"""
    va, vb = ids("a", "b", "c"), ids("n1", "b", "a")
    with mk.SymWorld(ctx) as w:
        w.hub("r1")
        s = Surgery(ctx, w, va, vb)
        ts = s.run("-a", "zero")
        s.common(ts, 3)
        for key in (EMB, HEAD):
            for t, i in vb.items():
                ctx.eq(ts[key][i], s.row("A", key, va[t]) if t in va else [0], f"{key}: row of {t}")


def heads(ctx, case):
    """tied models: no output embedding is invented, a tied donor serves as both"""
    ha, hb, method = case
    va, vb = ids("a", "b"), ids("b", "n", "a")
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, head_a=ha, head_b=hb)
        keys = (EMB, HEAD) if ha else (EMB,)
        if method == "omp":
            for key in keys:
                d = s.t["B"].get(key, s.t["B"][EMB])
                for i in (0, 2):
                    ctx.assume(ctx.Or(ctx.elems(d[i])[0] >= 0.25, ctx.elems(d[i])[0] <= -0.25))
                ctx.assume(ctx.Not(ctx.near(absv(ctx, ctx.elems(d[0])[0] * ctx.elems(d[1])[0]), absv(ctx, ctx.elems(d[2])[0] * ctx.elems(d[1])[0]))))
        ts = s.run("-a", method, "-k", "1")
        s.common(ts, 3)
        for key in keys:
            d = s.t["B"].get(key, s.t["B"][EMB])
            x = [ctx.elems(d[i])[0] for i in range(3)]
            o = [s.row("A", key, i)[0] for i in range(2)]
            if method == "mean":
                new = (o[0] + o[1]) / 2
            else:
                big = absv(ctx, x[0] * x[1]) > absv(ctx, x[2] * x[1])
                new = ctx.If(big, ctx.quot(x[1], x[0]) * o[1], ctx.quot(x[1], x[2]) * o[0])
            for i, e in enumerate((o[1], new, o[0])):
                ctx.eq(ts[key][i], [e], f"{key}: row {i}")


def subword(ctx, case):
    """pieces of the new token under the original tokenizer, combined"""
    meth = case
    va, vb = ids("a", "b", "c"), ids("bca", "c", "Ġab", "cc", "??", "b")
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb)
        ts = s.run("-a", "subword", "-s", meth)
        s.common(ts, len(vb))
        for key in (EMB, HEAD):
            r = {t: s.row("A", key, i)[0] for t, i in va.items()}
            for t, i in vb.items():
                ps = [r[c] for c in t if c in r]
                n = len(ps)
                if t in va:
                    e = r[t]
                elif n == 0:
                    e = 0
                elif meth == "sum":
                    e = ssum(ps)
                elif meth == "mean":
                    e = ssum(ps) / n
                elif meth == "first_last":
                    e = ps[-1] if key == EMB else ps[0]
                else:
                    wt = list(range(1, n + 1)) if key == EMB else list(range(n, 0, -1))
                    e = ssum(k * p for k, p in zip(wt, ps)) / sum(wt)
                ctx.eq(ts[key][i], [e], f"{key}: row of {t}")


def far(ctx, a, b, g=0.125):
    ctx.assume(ctx.Or(a - b >= g, b - a >= g))


def interpolation(ctx, case):
    """the k nearest shared tokens of the donor, weighted, in the model's space"""
    k, ns, nt, dtype = case
    shared, new = ["a", "b", "c"][:ns], ["n", "m"][:nt]
    va, vb = ids("q", *shared), ids(*shared[::-1], *new)
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, h=1, dtype=dtype, head_a=False)
        dist = []
        for n in new:
            t = s.row("B", EMB, vb[n])[0]
            d = {x: absv(ctx, s.row("B", EMB, vb[x])[0] - t) for x in shared}
            for i, x in enumerate(shared):
                ctx.assume(ctx.And(d[x] >= 0.125, d[x] <= 16))
                for y in shared[:i]:
                    far(ctx, d[x], d[y])
            dist.append(d)
        ts = s.run("-a", "common_interpolation", "-k", str(k))
        s.common(ts, len(vb))
        for x in shared:
            ctx.eq(ts[EMB][vb[x]], s.row("A", EMB, va[x]), f"row of {x}")
        for n, d in zip(new, dist):
            # rank of each shared token by distance decides membership
            wt = {}
            for x in shared:
                nearer = ssum(ctx.If(d[y] < d[x], 1, 0) for y in shared if y != x)
                wt[x] = ctx.If(nearer < k, ctx.quot(1, d[x]), 0)
            tot = ssum(wt.values())
            got = ctx.elems(ts[EMB][vb[n]])[0]
            ctx.eq(got * tot, ssum(wt[x] * s.row("A", EMB, va[x])[0] for x in shared), f"row of {n}", tol=1 if dtype == F32 else 200)


def schemes(ctx, case):
    """barycentric weights sum to one and both schemes fit best; cosine similarity"""
    scheme, hb, pts = case
    va, vb = ids("a", "b"), ids("b", "n", "a")
    emb = [pts[1], [ctx.real(f"t{i}", -4, 4) for i in range(hb)], pts[0]]
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, hb=hb, head_a=False, donor={EMB: ctx.mk_tensor(emb)})
        t = emb[1]
        if scheme == "cosine":
            ctx.assume(dot(t, t) >= 1)
            args = ["-c"]
        else:
            args = ["-w", scheme]
        a, b = pts
        length = 5
        cos = [ctx.quot(dot(t, p), ctx.sqrt(dot(t, t)) * length) for p in pts] if scheme == "cosine" else None
        if cos:
            ctx.assume(cos[0] + cos[1] >= 0.25)
        ts = s.run("-a", "common_interpolation", "-k", "2", *args)
        s.common(ts, 3)
        o = [s.row("A", EMB, i)[0] for i in range(2)]
        got = ctx.elems(ts[EMB][1])[0]
        if scheme == "cosine":
            # weights proportional to the similarities
            ctx.eq(got * (cos[0] + cos[1]), cos[0] * o[0] + cos[1] * o[1], "row of the new token")
            return
        if scheme == "barycentric":
            e = [x - y for x, y in zip(a, b)]
            la = dot([x - y for x, y in zip(t, b)], e) / sum(x * x for x in e)
            wa, wb = la, 1 - la
        else:
            g = [[sum(x * y for x, y in zip(p, q)) for q in pts] for p in pts]
            det = g[0][0] * g[1][1] - g[0][1] * g[1][0]
            r = [dot(t, p) for p in pts]
            wa, wb = (r[0] * g[1][1] - r[1] * g[0][1]) / det, (r[1] * g[0][0] - r[0] * g[1][0]) / det
        ctx.eq(got, wa * o[0] + wb * o[1], "row of the new token")


def pursuit(ctx, case):
    """greedy choice of k shared tokens, coefficients by least squares"""
    k, pts, nt, fixed = case
    h = len(pts[0])
    names = ["a", "b", "c", "d"][: len(pts)]
    new = [f"n{i}" for i in range(nt + len(fixed))]
    va, vb = ids(*names), ids(*new, *names[::-1])
    tg = [[ctx.real(f"t{j}{i}", -4, 4) for i in range(h)] for j in range(nt)] + fixed
    emb = tg + pts[::-1]
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, hb=h, head_a=False, donor={EMB: ctx.mk_tensor(emb)})
        # ties in the greedy choice are left out
        for t in tg:
            ip = [absv(ctx, dot(t, p)) for p in pts]
            for i in range(len(pts)):
                for j in range(i):
                    far(ctx, ip[i], ip[j], 0.0625)
        ts = s.run("-a", "omp", "-k", str(k))
        s.common(ts, len(vb))
        for x in names:
            ctx.eq(ts[EMB][vb[x]], s.row("A", EMB, va[x]), f"row of {x}")
        for n, t in zip(new, tg):
            got = ctx.elems(ts[EMB][vb[n]])[0]
            ip = [absv(ctx, dot(t, p)) for p in pts]
            e = 0
            for i, p in enumerate(pts):
                first = ctx.And(*[ip[i] > ip[j] for j in range(len(pts)) if j != i])
                if k == 1:
                    c = dot(t, p) / sum(x * x for x in p)
                    e = e + ctx.If(first, c * s.row("A", EMB, i)[0], 0)
                    continue
                # residual after the first choice decides the second
                c = dot(t, p) / sum(x * x for x in p)
                res = [x - c * y for x, y in zip(t, p)]
                rest = [j for j in range(len(pts)) if j != i]
                rp = {j: absv(ctx, dot(res, pts[j])) for j in rest}
                for j in rest:
                    for l in rest:
                        if l < j:
                            ctx.assume(ctx.Or(ctx.Not(first), rp[j] - rp[l] >= 0.0625, rp[l] - rp[j] >= 0.0625))
                for j in rest:
                    second = ctx.And(first, *[rp[j] > rp[l] for l in rest if l != j])
                    q = pts[j]
                    g = [[sum(x * y for x, y in zip(u, v)) for v in (p, q)] for u in (p, q)]
                    det = g[0][0] * g[1][1] - g[0][1] * g[1][0]
                    r = [dot(t, p), dot(t, q)]
                    wa, wb = (r[0] * g[1][1] - r[1] * g[0][1]) / det, (r[1] * g[0][0] - r[0] * g[1][0]) / det
                    e = e + ctx.If(second, wa * s.row("A", EMB, i)[0] + wb * s.row("A", EMB, j)[0], 0)
            ctx.eq(got, e, f"row of {n}")


def roles(ctx):
    """special tokens are matched by their role; the donor's special ids are adopted"""
    va, vb = ids("<s>", "</s>", "a"), ids("<e>", "a", "<b>", "n")
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, spa=dict(bos_token="<s>", eos_token="</s>"), spb=dict(bos_token="<b>", eos_token="<e>"), bos_token_id=2, eos_token_id=0, pad_token_id=3)
        ts = s.run("-a", "zero")
        s.common(ts, 4)
        for k, e in (("bos_token_id", 2), ("eos_token_id", 0), ("pad_token_id", 3)):
            ctx.check(s.cfg.get(k) == e, f"{k} {s.cfg.get(k)}")
        for key in (EMB, HEAD):
            for i, j in ((0, 1), (1, 2), (2, 0)):
                ctx.eq(ts[key][i], s.row("A", key, j), f"{key}: row {i}")
            ctx.eq(ts[key][3], [0], f"{key}: new token")


def others(ctx, case):
    """the remaining approximations: shared tokens keep their rows, every new row is finite"""
    meth, extra = case
    va, vb = ids("a", "b", "c", "d", "e"), ids("n1", "b", "e", "d", "n2", "a", "c")
    emb = {"A": [[1.0, 2, 0, 1], [0, 1, 3, 1], [2, 1, 1, -1], [1, -1, 2, 0], [-2, 1, 0, 3]], "B": [[1.0, 1, 0, 2], [3, -1, 1, 0], [0, 2, 1, 1], [1, 0, -2, 1], [2, 2, 1, 0], [-1, 1, 1, 3], [0, -2, 1, 1]]}
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, va, vb, h=4, hb=4, head_a=False, donor={EMB: ctx.mk_tensor(emb["B"])}, own={EMB: ctx.mk_tensor(emb["A"])})
        from mergekit.scripts import tokensurgeon

        for n in ("compute_new_embeddings", "compute_token_basis"):
            f = getattr(tokensurgeon, n)
            w._patch(tokensurgeon, n, lambda *a, f=f, **k: ctx.native(f, *a, **k))
        ts = s.run("-a", meth, "-k", "2", *extra)
        s.common(ts, 7)
        for x in va:
            ctx.eq(ts[EMB][vb[x]], emb["A"][va[x]], f"row of {x}")
        for x in ("n1", "n2"):
            ctx.defined(ctx.elems(ts[EMB][vb[x]]), f"row of {x}")


def too_few(ctx):
    """more points than shared tokens are refused"""
    with mk.SymWorld(ctx) as w:
        s = Surgery(ctx, w, ids("a", "b"), ids("b", "n"))
        ctx.check(ctx.raises(lambda: s.run("-a", "omp", "-k", "2")) is not None, "k over the shared vocabulary is refused")


BF, H = torch.bfloat16, torch.float16
P2 = [[3.0, 4.0], [0.0, 5.0]]
P3 = [[3.0, 4.0], [0.0, 5.0], [-8.0, 6.0]]

OBLIGATIONS = [
    Ob("matching", matching, "13 donor tokens (decimal and letter byte codes, a malformed one), every subset of up to 4 original tokens, all byte/prefix modes",
       cases=[(("a", "ab"), ()), ((HEX("j"), "o"), ("ÿ",)), ((HEX("ÿ"), "j"), (HEX("o"),)), ((HEX("a"), HEX("b")), ("Ġa",)), (("Ġab", "b"), ("a",))],
       tcases=[(("a", "ab", "abc"), (HEX("b"),)), (("Ġab", "Ġa", "Ġabc"), ("ab", "b")), ((HEX("a"), "a", "Ġ"), ("c",))], time_s=300),
    Ob("sizes", sizes, "5 tokens a side, rows fewer, equal or more", cases=[(0, 0), (-1, 0), (0, -2), (2, 1), (-2, -1)]),
    Ob("revisions", revisions, "2 shared and 1 new token"),
    Ob("simple", simple, "3 shared, 3 new tokens, hidden 2", cases=[("zero", None, 512, F32), ("mean", None, 1, F32), ("mean", 0.5, 2, F32), ("mean", 2.0, -1, BF), ("zero", 0.5, 2, H)]),
    Ob("heads", heads, "2 shared tokens, tied and untied sides", cases=[(True, True, "mean"), (False, True, "mean"), (True, False, "mean"), (False, False, "omp"), (True, False, "omp")]),
    Ob("subword", subword, "up to 3 pieces", cases=["mean", "sum", "weighted_mean", "first_last"]),
    Ob("interpolation", interpolation, "2-3 shared tokens, hidden 1, k 1-3", cases=[(1, 2, 1, F32), (2, 2, 2, F32), (1, 3, 1, F32), (2, 2, 1, BF)], tcases=[(2, 3, 1, F32), (3, 3, 1, F32), (1, 2, 2, F32)], time_s=200),
    Ob("schemes", schemes, "2 shared tokens, donor hidden 2", cases=[("barycentric", 2, P2), ("least_squares", 2, P2), ("cosine", 2, P2)]),
    Ob("pursuit", pursuit, "2-3 shared tokens, donor hidden 1-2, k 1-2, 1-2 new tokens", cases=[(1, [[1.0], [-2.0]], 2, []), (2, P2, 1, []), (1, P3, 2, []), (2, P3, 1, [[1.0, -2.5]])],
       tcases=[(2, [[1.0, 0.0], [0.5, 1.0]], 1, []), (2, P3, 2, [])], time_s=200),
    Ob("others", others, "5 shared and 2 new tokens with fixed embeddings", cases=[("john_hewitt", []), ("randn", []), ("stb", []), ("landmark_pca", []), ("mp_rope", []), ("mean", ["-nvn", "0.5"])], time_s=60),
    Ob("roles", roles, "bos/eos under different names"),
    Ob("too-few", too_few, "k 2, one shared token"),
]
