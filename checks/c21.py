"""Output vocabulary and the permutation from it to every model's own ids."""
import json
import os

from .lib import *

IMPORTS = ["mergekit.tokenizer.build", "mergekit.merge"]
OUTSIDE = "more than 3 models, more than 4 tokens per model, token ids with gaps, stripping of tokenizers that are not BPE, slow tokenizers"
ASSUMPTIONS = ["config vocab_size >= 1 or absent", "tokenizer files are real; config.json is replaced by a stand-in holding the symbolic vocab_size"]


def save_tokenizer(path, vocab, merges=(), added=()):
    import tokenizers
    import transformers

    os.makedirs(path, exist_ok=True)
    t = tokenizers.Tokenizer(tokenizers.models.BPE(vocab=vocab, merges=[tuple(m) for m in merges]))
    r = transformers.PreTrainedTokenizerFast(tokenizer_object=t)
    r.add_tokens(list(added))
    r.save_pretrained(path)
    return r.get_vocab()


class World:
    """real tokenizer files; configs with a symbolic vocab_size (or none at all)"""

    def __init__(self, ctx, repo=False):
        self.ctx, self.dir, self.cfg, self.voc = ctx, mk.fresh_dir(), {}, {}
        self.repo, self.trust = repo, []  # repo: the models are revisions of one hub repository

    def __enter__(self):
        import transformers

        self.old = transformers.AutoConfig.__dict__["from_pretrained"]

        def fp(path, *a, **kw):
            path = self.resolve(path, kw)
            if path not in self.cfg:
                return self.old.__func__(transformers.AutoConfig, path, *a, **kw)
            c = mk.llama_config(1, 1, 1, 1, 1)
            if self.cfg[path] is None:
                raise OSError("no config")
            c.__dict__["vocab_size"] = self.cfg[path]
            return c

        transformers.AutoConfig.from_pretrained = staticmethod(fp)
        self.oldt = transformers.AutoTokenizer.__dict__["from_pretrained"]

        def ft(path, *a, **kw):
            return self.oldt.__func__(transformers.AutoTokenizer, self.resolve(path, kw), *a, **kw)

        transformers.AutoTokenizer.from_pretrained = staticmethod(ft)

        # the tokenizers library returns the vocabulary in arbitrary order: make it an input
        cls = self.cls = transformers.PreTrainedTokenizerFast
        self.own = "get_vocab" in cls.__dict__
        self.gv = cls.get_vocab
        rev = self.ctx.flag("vocabulary listed backwards")

        def get_vocab(tok):
            return dict(sorted(self.gv(tok).items(), key=lambda e: e[1], reverse=rev))

        cls.get_vocab = get_vocab
        return self

    def __exit__(self, *a):
        import transformers

        transformers.AutoConfig.from_pretrained = self.old
        transformers.AutoTokenizer.from_pretrained = self.oldt
        if self.own:
            self.cls.get_vocab = self.gv
        else:
            del self.cls.get_vocab

    def resolve(self, path, kw):
        if str(path) == "org/m":
            self.trust.append(bool(kw.get("trust_remote_code")))
            path = os.path.join(self.dir, kw.pop("revision", None) or "main")
        return path

    def add(self, name, vocab, merges=(), added=(), sized=True, tokenizer=True):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        if tokenizer:
            self.voc[name] = save_tokenizer(p, vocab, merges, added)
        if sized:
            n = self.ctx.int(f"vocab_size {name}", 1, len(vocab) + len(added) + 1)
        else:
            n = None
        self.cfg[p] = n

    def ref(self, name):
        from mergekit.common import ModelReference

        if self.repo:
            return ModelReference.model_validate("org/m" if name == "main" else f"org/m@{name}")
        return ModelReference.model_validate(os.path.join(self.dir, name))

    def used(self, name):
        """tokens of the model that have an embedding row"""
        n = self.cfg[os.path.join(self.dir, name)]
        return {t: i for t, i in self.voc[name].items() if n is None or i < n}


def subset(ctx, name, toks):
    return {t: i for i, t in enumerate(["aa"] + [t for t in toks if ctx.flag(f"{t} in {name}")])}


def run(w, base, models, source, add=(), trust=False):
    from mergekit.tokenizer.build import BuildTokenizer

    src = source if source in ("union", "base") else w.ref(source)
    return BuildTokenizer(base_model=w.ref(base) if base else None, referenced_models=tuple(w.ref(m) for m in models),
                          tokenizer_source=src, trust_remote_code=trust, add_tokens=tuple(add)).execute()


def verify(ctx, w, info, base, models, source, add=(), missing=()):
    got = info.tokenizer.get_vocab()
    stripped = w.used(base)
    if source == "base":
        want = set(stripped)
    elif source == "union":
        want = set(stripped).union(*[w.used(m) for m in models if m not in missing])
    else:
        want = set(w.voc[source])
    want |= set(add)
    ctx.check(set(got) == want, f"output vocabulary {sorted(got)} expected {sorted(want)}")
    ctx.check(sorted(got.values()) == list(range(len(got))), f"consecutive ids {got}")
    keep = w.voc[source] if source not in ("base", "union") else stripped
    for t, i in keep.items():
        ctx.check(got[t] == i, f"{t} keeps its id {i} (got {got[t]})")
    ctx.check(set(info.permutations) == {w.ref(m) for m in models}, "a permutation for every referenced model")
    for m in models:
        own = w.voc[base] if m in missing else w.used(m)
        if m == base:
            own = stripped
        n = w.cfg[os.path.join(w.dir, m)]
        p = info.permutations[w.ref(m)]
        ctx.check(set(p) == set(got.values()), f"permutation of {m} covers the output vocabulary: {p}")
        for t, i in got.items():
            e = own.get(t, -1)
            if m in missing and e >= 0 and (n is not None and e >= n or t not in stripped):
                e = -1
            ctx.check(p[i] == e, f"{m}: output token {t} maps to {p[i]}, expected {e}")
        if m not in missing:
            ctx.check(info.original_vocabs[w.ref(m)] == (stripped if m == base else w.voc[m]), f"vocabulary of {m} is reported")


def two(ctx, case):
    """two models, any subset of tokens, any order, symbolic vocab_size"""
    source, sized = case
    with World(ctx) as w:
        for m, toks in (("A", ("bb", "cc")), ("B", ("cc", "dd"))):
            v = subset(ctx, m, toks)
            w.add(m, v, added=["xx"] if ctx.flag(f"xx added to {m}") else [], sized=m in sized)
        base = ctx.choice("base", ["A", "B"])
        verify(ctx, w, run(w, base, ["A", "B"], source), base, ["A", "B"], source)


def several(ctx, case):
    """a third model; base outside the referenced models or left out"""
    source, base = case
    with World(ctx) as w:
        for m, toks in (("A", ("bb",)), ("B", ("bb", "dd")), ("C", ("ee",))):
            w.add(m, subset(ctx, m, toks), sized=m != "B")
        models = ["A", "B"] if base == "C" else ["A", "B", "C"]
        verify(ctx, w, run(w, base, models, source), base or "A", models, source)


def added(ctx, case):
    """configured tokens are added once, existing ones keep their id"""
    source = case
    with World(ctx) as w:
        for m, toks in (("A", ("bb",)), ("B", ("cc",))):
            w.add(m, subset(ctx, m, toks), added=["xx"] if ctx.flag(f"xx added to {m}") else [])
        add = [t for t in ("new", "bb", "xx") if ctx.flag(f"add {t}")]
        verify(ctx, w, run(w, "A", ["A", "B"], source, add), "A", ["A", "B"], source, add)


def revisions(ctx, case):
    """the models are revisions of one repository, each with its own vocabulary; custom code is run only if allowed"""
    source = case
    with World(ctx, repo=True) as w:
        for m, toks in (("main", ("bb",)), ("r1", ("bb", "cc")), ("r2", ("dd",))):
            w.add(m, subset(ctx, m, toks), sized=m != "r2")
        base = ctx.choice("base", ["main", "r1"])
        trust = ctx.flag("trust remote code")
        models = ["main", "r1", "r2"]
        verify(ctx, w, run(w, base, models, source, trust=trust), base, models, source)
        ctx.check(set(w.trust) == {trust}, "trust_remote_code of the run is passed on")


def planned(ctx, case):
    """the vocabulary a whole merge is written with: source and tokens as configured"""
    import transformers

    source, legacy = case
    with mk.SymWorld(ctx) as w:
        vocabs, ps = {}, {}
        for i, m in enumerate("ABC"):
            p = os.path.join(w.root, m)
            vocabs[m] = save_tokenizer(p, {t: k for k, t in enumerate(["aa"] + [t for t in (("bb",), ("cc",), ("bb", "dd"))[i] if ctx.flag(f"{t} in {m}")])})
            ps[m] = w.add_model(m, mk.llama_config(1, 1, len(vocabs[m]), 1, 1), mk.llama_tensors(ctx, m, 1, vocab_rows=len(vocabs[m])))
        add = [] if legacy else [t for t in ("new", "cc") if ctx.flag(f"add {t}")]
        base = ctx.choice("base_model", ["B", None]) if source != "C" else None
        cfg = dict(merge_method="linear", dtype="float32", models=[dict(model=ps[m], parameters=dict(weight=1.0)) for m in ("AC" if base else "ABC")])
        if base:
            cfg.update(merge_method="task_arithmetic", base_model=ps["B"])
        src = ps["C"] if source == "C" else source
        if legacy:
            cfg["tokenizer_source"] = src
        else:
            cfg["tokenizer"] = dict(source=src, **({"tokens": {t: {"source": {"kind": "model_token", "model": ps["A"], "token": "aa"}} for t in add}} if add else {}))
        r = mk.do_merge(w, cfg)
        got = transformers.AutoTokenizer.from_pretrained(r.path).get_vocab()
        first = base or "A"
        want = {"base": set(vocabs[first]), "C": set(vocabs["C"])}.get(source, set().union(*vocabs.values())) | set(add)
        ctx.check(set(got) == want, f"output vocabulary {sorted(got)} expected {sorted(want)}")
        ctx.check(sorted(got.values()) == list(range(len(got))), f"consecutive ids {got}")
        for t, i in vocabs["C" if source == "C" else first].items():
            ctx.check(got[t] == i, f"{t} keeps its id {i}")


def missing(ctx, case):
    """a model without tokenizer is taken to use the base model's"""
    source = case
    with World(ctx) as w:
        w.add("A", subset(ctx, "A", ("bb", "cc")))
        w.add("B", {"aa": 0, "bb": 1}, tokenizer=False)
        w.add("C", subset(ctx, "C", ("dd",)))
        verify(ctx, w, run(w, "A", ["A", "B", "C"], source), "A", ["A", "B", "C"], source, missing=("B",))


def merges(ctx, case):
    """stripping drops exactly the BPE merges that involve a dropped token"""
    order = case
    with World(ctx) as w:
        rules = [("a", "b"), ("ab", "b"), ("b", "c"), ("abb", "bc")]
        vocab = {t: i for i, t in enumerate(order)}
        rs = [r for r in rules if all(t in vocab for t in (*r, "".join(r)))]
        w.add("A", vocab, rs)
        src = ctx.choice("source", ["base", "union"])
        info = run(w, "A", ["A"], src)
        verify(ctx, w, info, "A", ["A"], src)
        left = json.loads(info.tokenizer.backend_tokenizer.to_str())["model"]
        u = set(w.used("A"))
        ctx.check(set(left["vocab"]) == u, f"vocabulary after stripping {sorted(left['vocab'])}")
        got = [tuple(m.split(" ")) if isinstance(m, str) else tuple(m) for m in left["merges"]]
        # a merge whose product is gone cannot be represented either
        want = [r for r in rs if all(t in u for t in (*r, "".join(r)))]
        ctx.check(got == want, f"merge rules {got} expected {want}")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=300, keep_samples=2, ite="fork")
OBLIGATIONS = [
    Ob("two", two, cases=[("union", "AB"), ("base", "AB"), ("B", "AB"), ("union", "A"), ("union", ""), ("base", "B")],
       bounds="two models with any subset of 2 private or shared tokens and an added token, symbolic vocab_size 1..n+1 or none, base first or second"),
    Ob("several", several, cases=[("union", None), ("union", "C"), ("base", None), ("C", "B")], bounds="three models, base not given or outside the referenced models"),
    Ob("added", added, cases=["union", "base", "B"], bounds="any subset of 3 configured tokens, present or not in either model"),
    Ob("revisions", revisions, cases=["union", "base", "r1"], bounds="three revisions of one repository with any subset of tokens, symbolic vocab_size, base the default or a named revision"),
    Ob("planned", planned, cases=[("union", False), ("base", False), ("C", False), ("union", True)], bounds="whole merges of three models with any subset of four tokens, up to 2 configured tokens, base_model set or not, both spellings of the source"),
    Ob("missing", missing, cases=["union", "base"], bounds="one of three models has no tokenizer"),
    Ob("merges", merges, cases=[("a", "b", "c", "ab", "abb", "bc", "abbbc"), ("a", "b", "bc", "c", "ab", "abb")], bounds="4 BPE merge rules, every vocab_size"),
]
