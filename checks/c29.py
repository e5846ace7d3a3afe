"""References to models: what they name, how they are written down, adapters and their cache."""
import json
import os
import shutil

import yaml

from .c21 import save_tokenizer
from .lib import *

IMPORTS = ["mergekit.common", "mergekit.config", "mergekit.merge", "mergekit.merge_methods", "mergekit.io.tasks"]
OUTSIDE = "the arithmetic of PEFT itself, collisions of the cache's checksums, names over 3 characters of a 6 letter alphabet, two processes filling one cache at once, loaders kept between merges of one process"
ASSUMPTIONS = ["transformers loads and PEFT merges a model as asked (stand-ins that record what is asked and add a fixed update)",
               "checkpoint reader and writer replaced by an in-memory store", "a killed process does nothing after the kill, a renamed directory appears at once"]


class Killed(BaseException):
    pass


class Adapters:
    """transformers, PEFT and the file system, dying after a number of steps"""

    def __init__(self, ctx, w):
        import peft
        from transformers import AutoModelForCausalLM

        self.ctx, self.w, self.left, self.dead = ctx, w, None, False
        self.base = {}
        self.delta = {}
        self.merges = 0
        me = self

        def load(cls, path, *a, revision=None, torch_dtype=None, dtype=None, **kw):
            me.step()
            return Model(me, path, revision, torch_dtype or dtype)

        w._patch(AutoModelForCausalLM, "from_pretrained", classmethod(load))
        w._patch(peft.PeftModel, "from_pretrained", staticmethod(lambda model, path, *a, revision=None, **kw: model.adapt(path, revision)))
        for mod, names in ((os, ("replace", "rename", "remove", "unlink", "rmdir", "makedirs", "mkdir")), (shutil, ("rmtree", "move", "copytree", "copy"))):
            for n in names:
                w._patch(mod, n, self.guard(getattr(mod, n)))

    def guard(self, f):
        def g(*a, **k):
            if self.dead:
                raise Killed()
            return f(*a, **k)

        return g

    def step(self):
        if self.dead:
            raise Killed()
        if self.left is not None:
            if self.left == 0:
                self.dead = True
                raise Killed()
            self.left -= 1

    def restart(self):
        from mergekit.io.tasks import LoaderCache

        self.dead, self.left = False, None
        LoaderCache().loaders.clear()


class Model:
    def __init__(self, env, path, revision, dtype):
        self.env, self.key, self.dtype = env, (path, revision), dtype
        self.lora = None

    def adapt(self, path, revision):
        self.env.step()
        self.lora = (path, revision)
        return self

    def merge_and_unload(self, *a, **kw):
        self.env.step()
        self.env.merges += 1
        return self

    def save_pretrained(self, out, *a, **kw):
        import safetensors.torch

        e = self.env
        os.makedirs(out, exist_ok=True)
        e.step()
        mk.llama_config(1, 1, 1, 1, 1).save_pretrained(out)
        ts = e.result(self.key, self.lora, self.dtype)
        names = sorted(ts)
        parts = [names[: len(names) // 2], names[len(names) // 2:]]
        wm = {}
        for i, p in enumerate(parts):
            e.step()
            f = f"model-0000{i + 1}-of-00002.safetensors"
            safetensors.torch.save_file({k: ts[k].contiguous() for k in p}, os.path.join(out, f))
            wm.update({k: f for k in p})
        e.step()
        with open(os.path.join(out, "model.safetensors.index.json"), "w") as f:
            json.dump({"metadata": {}, "weight_map": wm}, f)
        e.step()


Q = "model.layers.0.self_attn.q_proj.weight"


def setup(ctx, w, names=("A",), loras=("L",), revs=(None,)):
    env = Adapters(ctx, w)
    for n in names:
        ts = mk.llama_tensors(ctx, n, 1)
        p = w.add_model(n, mk.llama_config(1, 1, 1, 1, 1), ts)
        env.base[p] = ts
    for l in loras:
        for r in revs:
            env.delta[os.path.join(w.root, l), r] = ctx.tensor(f"delta {l} {r}", (1, 1), F32)

    def result(key, lora, dtype):
        ts = dict(env.base[key[0]])
        ts[Q] = ts[Q] + env.delta[lora]
        return {k: v.to(dtype) if dtype else v for k, v in ts.items()}

    env.result = result
    return env


def merge(w, ref, **kw):
    cfg = dict(merge_method="passthrough", models=[{"model": ref}])
    return mk.do_merge(w, cfg, lora_merge_cache=os.path.join(w.root, "lora cache"), **kw)


def matches(ctx, env, r, path, lora, dtype=None):
    ts = env.base[path]
    for k, v in ts.items():
        ctx.check(k in r.tensors, f"{k} present")
        e = ctx.elems(v)
        if k == Q and lora:
            e = [e[0] + ctx.elems(env.delta[lora])[0]]
        expect(ctx, r.tensors[k], v.shape, e, k, dtype or F32)


def interrupted(ctx):
    """a merge of an adapter killed at any step is redone by the next run"""
    with mk.SymWorld(ctx) as w:
        env = setup(ctx, w)
        p, l = os.path.join(w.root, "A"), os.path.join(w.root, "L")
        env.left = ctx.cint("steps before the kill", 0, 8)
        try:
            merge(w, f"{p}+{l}")
            ctx.check(env.left == 0 or not env.dead, "finished")
        except Killed:
            pass
        env.restart()
        matches(ctx, env, merge(w, f"{p}+{l}"), p, (l, None))


def failing(ctx):
    """a merge of an adapter that raised is redone by the next run"""
    with mk.SymWorld(ctx) as w:
        env = setup(ctx, w)
        p, l = os.path.join(w.root, "A"), os.path.join(w.root, "L")
        n = ctx.cint("steps before the failure", 0, 7)

        def step():
            if env.left is not None:
                env.left -= 1
                if env.left < 0:
                    raise OSError("no space left")

        env.step, env.left = step, n
        err = ctx.raises(lambda: merge(w, f"{p}+{l}"))
        env.restart()
        matches(ctx, env, merge(w, f"{p}+{l}"), p, (l, None))


def identity(ctx):
    """the cache tells models, adapters, revisions and types apart and is used when all agree"""
    with mk.SymWorld(ctx) as w:
        env = setup(ctx, w, ("A", "sub/A"), ("L", "sub/L"), (None, "r"))
        seen = []
        for i in range(2):
            m, l, r = ctx.choice(f"model{i}", ["A", "sub/A"]), ctx.choice(f"adapter{i}", ["L", "sub/L"]), ctx.choice(f"revision{i}", [None, "r"])
            dt = ctx.choice(f"type{i}", [None, "float16"] if i == 0 else [None, "float16", "bfloat16"])
            if (m, l, r, dt) == ("A", "L", None, None) and i == 0:
                pass
            p, lp = os.path.join(w.root, m), os.path.join(w.root, l)
            n = env.merges
            res = merge(w, f"{p}+{lp}" + (f"@{r}" if r else ""), lora_merge_dtype=dt)
            matches(ctx, env, res, p, (lp, r), {None: F32, "float16": torch.float16, "bfloat16": torch.bfloat16}[dt])
            ctx.check(env.merges == (n if (m, l, r, dt) in seen else n + 1), "merged once per adapter")
            seen.append((m, l, r, dt))
            env.restart()


def plain(ctx):
    """without an adapter nothing is merged; with one a cache is needed and the base stays as it is"""
    with mk.SymWorld(ctx) as w:
        env = setup(ctx, w)
        p, l = os.path.join(w.root, "A"), os.path.join(w.root, "L")
        if ctx.flag("both"):
            cfg = dict(merge_method="task_arithmetic", base_model=p, dtype="float32", models=[{"model": f"{p}+{l}", "parameters": {"weight": 0.5}}])
            r = mk.do_merge(w, cfg, lora_merge_cache=os.path.join(w.root, "cache"))
            for k, v in env.base[p].items():
                e = ctx.elems(v)[0] + (ctx.elems(env.delta[l, None])[0] * 0.5 if k == Q else 0)
                expect(ctx, r.tensors[k], v.shape, [e], k, F32)
            ctx.check(env.merges == 1, "one adapter merged")
            return
        matches(ctx, env, merge(w, p), p, None)
        ctx.check(env.merges == 0, "nothing merged")
        env.restart()
        err = ctx.raises(lambda: mk.do_merge(w, dict(merge_method="passthrough", models=[{"model": f"{p}+{l}"}])))
        ctx.check(err is not None and env.merges == 0, "an adapter without a cache is refused")


def parsing(ctx):
    """model[@revision][+adapter[@revision]], anything with more separators refused"""
    from mergekit.common import ModelReference

    n = ctx.cint("length", 1, 4)
    s = "m" + "".join(ctx.choice(f"c{i}", ["a", "@", "+", "/"]) for i in range(n))
    parts = s.split("+")
    bad = len(parts) > 2 or any(p.count("@") > 1 for p in parts)
    err = ctx.raises(lambda: ModelReference.model_validate(s))
    ctx.check((err is not None) == bad, f"{s}: {err!r}")
    if bad:
        return
    r = ModelReference.model_validate(s)
    for got, p in zip((r.model, r.lora), parts + [None]):
        if p is None:
            ctx.check(got is None, "no adapter")
            continue
        path, _, rev = p.partition("@")
        ctx.check(got.path == path and (got.revision or "") == rev, f"{s}: {got!r}")
    ctx.check(ModelReference.parse(s) == r, "parse")
    if not s.endswith("@") and "@+" not in s:
        ctx.check(str(r) == s, f"{s}: printed as {r}")


def names(ctx, prefix, hi):
    n = ctx.cint(f"{prefix} length", 1, hi)
    return "".join(ctx.choice(f"{prefix}{i}", ["a", "@", "+", '"', " ", "1"]) for i in range(n))


def written(ctx, case):
    """a reference written to a configuration file reads back as itself"""
    from mergekit.common import ModelPath, ModelReference
    from mergekit.config import MergeConfiguration

    lora, rev, arch = case
    kw = dict(model=ModelPath(path=names(ctx, "model ", 1 if lora or rev else 3), revision=names(ctx, "revision ", 2) if rev else None))
    if lora:
        kw["lora"] = ModelPath(path=names(ctx, "adapter ", 2))
    if arch:
        kw["override_architecture"] = "LlamaForCausalLM"
    r = ModelReference(**kw)
    dumped = r.model_dump(mode="json")
    ctx.check(ModelReference.model_validate(dumped) == r, f"{r!r} dumped as {dumped!r}")
    ctx.check(ModelReference.model_validate_json(r.model_dump_json()) == r, f"{r!r} through JSON")
    c = MergeConfiguration(merge_method="linear", models=[{"model": r, "parameters": {"weight": 1.0}}], base_model=r)
    c2 = MergeConfiguration.model_validate(yaml.safe_load(c.to_yaml()))
    ctx.check(c2 == c, f"{r!r} through YAML: {c.to_yaml()!r}")


CONFIGS = [
    dict(merge_method="ties", base_model="b@r1", models=[{"model": "m+l", "parameters": {"weight": [0, 0.5, 1], "density": 0.25}}, {"model": "b@r1"}], parameters={"normalize": True, "int8_mask": False}, dtype="bfloat16", out_dtype="float16"),
    dict(merge_method="slerp", slices=[{"sources": [{"model": "a", "layer_range": [0, 4]}, {"model": "b", "layer_range": [4, 8]}], "base_model": "b", "parameters": {"t": [{"filter": "mlp", "value": [0.1, 1e-07, 1]}, {"value": 0.3}]}}], tokenizer_source="union"),
    dict(merge_method="passthrough", modules={"default": {"slices": [{"sources": [{"model": "a", "layer_range": [0, 2], "parameters": {"scale": [{"filter": "o_proj", "value": 0.0}, {"value": 1.0}]}}], "residual_weight": 0.5}], "parameters": {"scale": 2}}, "other": {"models": [{"model": "x"}]}}),
    dict(merge_method="linear", models=[{"model": "a", "parameters": {"weight": {"filter": "*", "value": -1e-300}}}, {"model": "b", "parameters": {"weight": 1e22}}], tokenizer={"source": "base", "tokens": {"<s>": {"source": "a", "force": True}, "true": {"source": {"kind": "zero"}}, "7": {"source": {"kind": "model_token", "model": "b", "token": "null"}}}, "pad_to_multiple_of": 8}, chat_template="{% for m in messages %}\n  {{m}}\n{% endfor %}", base_model="a"),
]


def configuration(ctx):
    """a configuration written next to its result describes the same merge"""
    from mergekit.config import MergeConfiguration

    d = ctx.choice("configuration", CONFIGS)
    m = ctx.choice("merge method", [None, "linear"])
    c = MergeConfiguration.model_validate(dict(d, **({"merge_method": m} if m else {})))
    for f in (yaml.safe_load, lambda s: yaml.load(s, yaml.CLoader if hasattr(yaml, "CLoader") else yaml.Loader)):
        ctx.check(MergeConfiguration.model_validate(f(c.to_yaml())) == c, f"{c.to_yaml()}")
    ctx.check(MergeConfiguration.model_validate_json(c.model_dump_json()) == c, "JSON")


def replayed(ctx):
    """running the written configuration again gives the same tensors"""
    from mergekit.config import MergeConfiguration

    with mk.SymWorld(ctx) as w:
        ts = {m: mk.llama_tensors(ctx, m, 2) for m in "AB"}
        p = {m: w.add_model(m, mk.llama_config(2, 1, 1, 1, 1), ts[m]) for m in "AB"}
        kind = ctx.choice("kind", ["models", "slices"])
        ws = [ctx.choice("w0", [0.5, [0.25, 1], [{"filter": "mlp", "value": 2}, {"value": 1}]]), ctx.choice("w1", [1, {"filter": "*", "value": [3, 1]}])]
        srcs = [{"model": p[m], "parameters": {"weight": x}} for m, x in zip("AB", ws)]
        cfg = dict(merge_method="linear", dtype="float32", parameters={"normalize": False})
        if kind == "models":
            cfg["models"] = srcs
        else:
            cfg["slices"] = [{"sources": [dict(s, layer_range=[i, i + 1]) for s in srcs]} for i in (1, 0)]
        r = mk.do_merge(w, cfg, write_model_card=True)
        with open(os.path.join(r.path, "mergekit_config.yml")) as f:
            again = yaml.safe_load(f)
        r2 = mk.do_merge(w, MergeConfiguration.model_validate(again))
        ctx.check(list(r.tensors) == list(r2.tensors), "tensors")
        for k in r.tensors:
            expect(ctx, r2.tensors[k], r.tensors[k].shape, ctx.elems(r.tensors[k]), k, F32)


def sizes(ctx):
    """sizes with and without a suffix"""
    from mergekit.common import parse_kmb

    n = ctx.cint("number", 0, 6) * ctx.choice("scale", [1, 100, 5_000_000_000])
    suf = ctx.choice("suffix", ["", "k", "K", "m", "M", "b", "B", "x", "kb"])
    mult = {"": 1, "k": 10**3, "m": 10**6, "b": 10**9}.get(suf.lower())
    err = ctx.raises(lambda: parse_kmb(f"{n}{suf}"))
    ctx.check((err is not None) == (suf in ("x", "kb")), f"{n}{suf}: {err!r}")
    if err is None:
        ctx.check(parse_kmb(f"{n}{suf}") == n * mult, f"{n}{suf} = {parse_kmb(f'{n}{suf}')}")
        ctx.check(parse_kmb(n) == n, f"{n}")


def hub(ctx):
    """models of the hub are fetched with their safetensors weights, or pickles if there are none"""
    import fnmatch

    import huggingface_hub
    from mergekit.common import ModelReference

    files = ["config.json", "tokenizer.json", "tokenizer.model", "README.md", "model.onnx"]
    have = [f for f in ("model.safetensors", "pytorch_model.bin", "model-00001-of-00002.SAFETENSORS") if ctx.flag(f)]
    rev, cache = ctx.choice("revision", [None, "r2"]), ctx.choice("cache", [None, "cdir"])
    got = {}

    def fetch(path, **kw):
        got.update(kw, path=path)
        return "/nonexistent/snapshot"

    def listing(path, repo_type=None, revision=None, **kw):
        ctx.check((path, revision) == ("who/what", rev) and repo_type in (None, "model"), "listing of the model")
        return files + have

    with mk.SymWorld(ctx) as w:
        w._patch(huggingface_hub, "list_repo_files", listing)
        w._patch(huggingface_hub, "snapshot_download", fetch)
        ref = ModelReference.model_validate("who/what" + (f"@{rev}" if rev else ""))
        out = ref.local_path(cache_dir=cache)
        with_lora = ModelReference(model=ref.model, lora={"path": "x"})
        ctx.check(ctx.raises(lambda: with_lora.local_path()) is not None, "an unmerged adapter has no path")
        ctx.check(with_lora.local_path(cache_dir=cache, ignore_lora=True) == out, "path of the model under an adapter")
    ctx.check(out == "/nonexistent/snapshot" and got["path"] == "who/what" and got.get("revision") == rev and got.get("cache_dir") == cache, f"{got}")
    pats = got["allow_patterns"]
    sel = {f for f in files + have if any(fnmatch.fnmatch(f, p) for p in pats)}
    ctx.check({"config.json", "tokenizer.json", "tokenizer.model"} <= sel and "README.md" not in sel, f"{sel}")
    st = "model.safetensors" in have
    if st:
        ctx.check("model.safetensors" in sel and "pytorch_model.bin" not in sel, f"{sel}")
    elif have == ["pytorch_model.bin"]:
        ctx.check("pytorch_model.bin" in sel, f"{sel}")


CLASSES = {
    "LlamaForCausalLM": "AutoModelForCausalLM", "BertForMaskedLM": "AutoModelForMaskedLM", "BertForSequenceClassification": "AutoModelForSequenceClassification",
    "RobertaForTokenClassification": "AutoModelForTokenClassification", "T5ForConditionalGeneration": "AutoModelForSeq2SeqLM",
    # not known to transformers: by the name's ending
    "CustomForCausalLM": "AutoModelForCausalLM", "CustomForMaskedLM": "AutoModelForMaskedLM", "CustomForSequenceClassification": "AutoModelForSequenceClassification",
    "CustomForTokenClassification": "AutoModelForTokenClassification", "CustomLMHeadModel": "AutoModelForCausalLM",
}


def kind(ctx):
    """the base of an adapter is loaded as what its architecture is, with the code permission given"""
    import transformers
    from mergekit.common import ModelReference

    with mk.SymWorld(ctx) as w:
        env = setup(ctx, w)
        asked = []
        for c in sorted(set(CLASSES.values())):
            def load(cls, path, *a, c=c, revision=None, torch_dtype=None, dtype=None, trust_remote_code=None, **kw):
                asked.append((c, path, bool(trust_remote_code)))
                return Model(env, path, revision, torch_dtype or dtype)

            w._patch(getattr(transformers, c), "from_pretrained", classmethod(load))
        arch = ctx.choice("architecture", list(CLASSES))
        trust = ctx.flag("trust remote code")
        base = os.path.join(w.root, "A")
        ref = ModelReference.model_validate({"model": base, "lora": os.path.join(w.root, "L"), "override_architecture": arch})
        ref.merged(cache_dir=os.path.join(w.root, "cache"), trust_remote_code=trust)
        ctx.check(asked == [(CLASSES[arch], base, trust)], f"{arch} loaded as {asked}")


def revisions(ctx, case):
    """whole merges of revisions of hub models: tensors, configuration and tokenizer of exactly those revisions"""
    slices = case
    with mk.SymWorld(ctx) as w:
        w.hub()
        t = {}
        for i, (n, r) in enumerate([("x", "main"), ("x", "r1"), ("y", "main"), ("y", "r1")]):
            t[n, r] = mk.llama_tensors(ctx, f"{n}@{r}", 2, vocab_rows=2)
            c = mk.llama_config(2, 1, 2, 1, 1)
            c.rope_theta = 1000.0 + i
            c.max_position_embeddings = 64 + i
            p = w.add_model(f"{n}@{r}", c, t[n, r])
            save_tokenizer(p, {"aa": 0, f"t{i}": 1})
        ra, rb = ctx.choice("revision of x", [None, "main", "r1"]), ctx.choice("revision of y", [None, "r1"])
        own = ctx.flag("both are revisions of x")
        trust = ctx.flag("trust remote code")
        other = "x" if own else "y"
        if own and (ra or "main") == (rb or "main"):
            rb = "r1" if ra != "r1" else None
        A, B = "hub/x" + (f"@{ra}" if ra else ""), f"hub/{other}" + (f"@{rb}" if rb else "")
        base = ctx.choice("base_model", [None, A, B])
        if slices:
            cfg = dict(merge_method="passthrough", slices=[dict(sources=[dict(model=m, layer_range=[0, 1])]) for m in (A, B)])
        else:
            cfg = dict(merge_method="linear", models=[dict(model=A, parameters=dict(weight=1.0)), dict(model=B, parameters=dict(weight=2.0))], parameters=dict(normalize=False))
        if base and slices:
            cfg["base_model"] = base
        tok = None if slices else ctx.choice("tokenizer", [None, "union"])
        if tok:
            cfg["tokenizer_source"] = tok
        r = mk.do_merge(w, dict(cfg, dtype="float32"), trust_remote_code=trust, transformers_cache="cc", copy_tokenizer=True)
        ka, kb = ("x", ra or "main"), (other, rb or "main")
        e = lambda k, n: ctx.elems(t[k][n])
        for n in t[ka] if not tok else [n for n in t[ka] if "embed" not in n and "lm_head" not in n]:
            if slices:
                want = e(kb if ".layers.1." in n or n in ("model.norm.weight", "lm_head.weight") else ka, n.replace(".layers.1.", ".layers.0."))
            else:
                want = [x + 2.0 * y for x, y in zip(e(ka, n), e(kb, n))]
            expect(ctx, r.tensors[n], t[ka][n].shape, want, n)
        first = kb if slices and base == B else ka
        i = [("x", "main"), ("x", "r1"), ("y", "main"), ("y", "r1")].index(first)
        ctx.check(r.config["max_position_embeddings"] == 64 + i, f"configuration of {first}: {r.config['max_position_embeddings']}")
        voc = json.loads(open(os.path.join(r.path, "tokenizer.json")).read())["model"]["vocab"]
        ctx.check(f"t{i}" in voc, f"tokenizer of {first}: {voc}")
        for what, n, rev, kw in w.asked:
            ctx.check((n, rev) in (ka, kb), f"{what} of {n}@{rev} asked for")
            if what in ("config", "tokenizer"):
                ctx.check(bool(kw.get("trust_remote_code")) == trust, f"trust_remote_code for the {what} of {n}")
            elif what == "snapshot":
                ctx.check(kw.get("cache_dir") == "cc", "models are kept in the cache asked for")


OBLIGATIONS = [
    Ob("revisions", revisions, cases=[False, True], bounds="whole merges of two models, each at one of 2 revisions or the default, revisions of one repository or of two, base, built or copied tokenizer"),
    Ob("interrupted", interrupted, "killed before any of 8 steps: loading, adapting, merging, writing each file"),
    Ob("failing", failing, "an error at any of 8 steps"),
    Ob("identity", identity, "two merges, 2 models, 2 adapters, 2 revisions, 3 types, same base names", time_s=300),
    Ob("kind", kind, "10 architectures, known and unknown to transformers"),
    Ob("plain", plain, "one model with and without one adapter"),
    Ob("parsing", parsing, "strings of up to 5 characters over 4 letters"),
    Ob("written", written, "paths and revisions of up to 3 characters over 6 letters", cases=[(False, False, False), (True, False, False), (False, True, True)], tcases=[(True, True, False)]),
    Ob("configuration", configuration, "4 configurations covering every field"),
    Ob("replayed", replayed, "2 models, 2 layers, 12 shapes of weights"),
    Ob("sizes", sizes, "21 numbers, 9 suffixes"),
    Ob("hub", hub, "every subset of 3 weight files"),
]
