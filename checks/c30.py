"""What a merge leaves next to the weights: tokenizer, chat template, further files, model card."""
import filecmp
import os

import yaml

from .lib import *

IMPORTS = ["mergekit.card", "mergekit.merge", "mergekit.merge_methods"]
OUTSIDE = "more than 3 models, tokenizers other than small BPE ones, chat template strings under 20 characters, uploads"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store", "the Hugging Face hub is a table of existing repositories"]
T1 = "{% for m in messages %}one {{ m }}{% endfor %}"
T2 = "{% for m in messages %}{{ m }} two{% endfor %}"
LONG = "{% for m in messages %}" + "a rather long line of text " * 200 + "{{ m }}{% endfor %}"
FILES = ["special_tokens_map.json", "added_tokens.json", "merges.txt", "generation_config.json", "chat_template.json", "video_preprocessor_config.json"]


def tokenizer(path, template=None):
    import tokenizers
    import transformers

    os.makedirs(path, exist_ok=True)
    t = tokenizers.Tokenizer(tokenizers.models.BPE(vocab={"aa": 0, "bb": 1}, merges=[]))
    r = transformers.PreTrainedTokenizerFast(tokenizer_object=t)
    if template:
        r.chat_template = template
    r.save_pretrained(path)


def builtin(name):
    import importlib.resources

    import mergekit._data.chat_templates as c

    return importlib.resources.files(c).joinpath(name + ".jinja").read_text()


class Setup:
    def __init__(self, ctx, w, names, templates, hub=False):
        """hub: the models are revisions of hub repositories whose main revisions are something else"""
        self.ctx, self.w, self.p, self.t = ctx, w, {}, {}
        if hub:
            w.hub()
            for m in names:
                tokenizer(os.path.join(w.root, f"{m}@main"), "decoy {{ messages }}")
                w.add_model(f"{m}@main", mk.llama_config(1, 1, 2, 1, 1), mk.llama_tensors(ctx, f"{m}@main", 1, vocab_rows=2))
                tokenizer(os.path.join(w.root, f"{m}@r1"), templates.get(m))
                self.t[m] = mk.llama_tensors(ctx, m, 1, vocab_rows=2)
                w.add_model(f"{m}@r1", mk.llama_config(1, 1, 2, 1, 1), self.t[m])
                self.p[m] = f"hub/{m}@r1"
            return
        for m in names:
            tokenizer(os.path.join(w.root, m), templates.get(m))
            self.t[m] = mk.llama_tensors(ctx, m, 1, vocab_rows=2)
            self.p[m] = w.add_model(m, mk.llama_config(1, 1, 2, 1, 1), self.t[m])

    def config(self, names, base=None, **kw):
        return dict(merge_method="linear", dtype="float32", **(dict(base_model=self.p[base]) if base else {}), **kw,
                    models=[dict(model=self.p[m], parameters=dict(weight=1.0)) for m in names])


def loaded(path):
    import transformers

    try:
        return transformers.AutoTokenizer.from_pretrained(path)
    except Exception:
        return None


def template(ctx, case):
    """the output tokenizer's chat template is the configured one, the most common one or the donor's"""
    names, built, hub = case
    with mk.SymWorld(ctx) as w:
        have = {m: ctx.choice(f"template of {m}", [None, T1, T2]) for m in names}
        s = Setup(ctx, w, names, have, hub)
        base = ctx.choice("base", [None, names[-1]])
        want = ctx.choice("chat_template", [None, "auto", "chatml", LONG, T1 + "xx", "no such template"])
        kw = dict(tokenizer=dict(source="union" if ctx.flag("union") else "base")) if built else {}
        if want:
            kw["chat_template"] = want
        donor = base or names[0]
        cfg = s.config(names, base, **kw)
        if want == "no such template":
            res = []
            e = ctx.raises(lambda: res.append(mk.do_merge(w, cfg, copy_tokenizer=True)))
            if e is None:
                t = loaded(res[0].path)
                ctx.check(not built and (t is None or not t.chat_template), "an unknown chat template is refused or nothing is written")
            return
        r = mk.do_merge(w, cfg, copy_tokenizer=True)
        t = loaded(r.path)
        ctx.check(t is not None, "the merge has a tokenizer")
        got = (t.chat_template or "").strip()
        if want is None:
            ok = [have[donor] or ""]
        elif want == "auto":
            cnt = {}
            for m in names:
                if have[m]:
                    cnt[have[m]] = cnt.get(have[m], 0) + 1
            ok = [k for k in cnt if cnt[k] == max(cnt.values())] or [have[donor] or ""]
        else:
            ok = [builtin(want) if want == "chatml" else want]
        ctx.check(got in [x.strip() for x in ok], f"chat template {got[:60]!r} expected {[x[:60] for x in ok]}")
        if len(names) == 2:
            for k, v in r.tensors.items():
                ctx.eq(v.reshape(-1), [(a + b) * 0.5 for a, b in zip(ctx.elems(s.t[names[0]][k]), ctx.elems(s.t[names[1]][k]))], k)


def copied(ctx):
    """the tokenizer files are those of the base model, or the first model, and nothing else is taken"""
    names = ["A", "B"]
    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, names, {"A": T1, "B": T2})
        extra = {}
        for m in names:
            n = ctx.choice(f"extra file of {m}", [None, *(FILES if m == "A" else FILES[:2])])
            for f in [n, "notes.txt", "preprocessor_config.json"]:
                if f:
                    with open(os.path.join(s.p[m], f), "w") as fp:
                        fp.write('{"from": "%s"}' % m)
            extra[m] = n
        base = ctx.choice("base", [None, "A", "B"])
        copy = ctx.flag("copy tokenizer")
        order = ["B", "A"] if ctx.flag("B first") else names
        r = mk.do_merge(w, s.config(order, base), copy_tokenizer=copy)
        d = base or order[0]
        got = set(os.listdir(r.path)) - {"model.safetensors", "config.json", "generation_config.json"}
        if not copy:
            ctx.check(got == set(), f"no tokenizer requested, wrote {sorted(got)}")
            return
        own = {"tokenizer.json", "tokenizer_config.json", "chat_template.jinja"} | ({extra[d]} if extra[d] else set())
        ctx.check(got | {"generation_config.json"} == own | {"generation_config.json"}, f"files {sorted(got)} expected {sorted(own)}")
        for f in sorted(own):
            ctx.check(filecmp.cmp(os.path.join(r.path, f), os.path.join(s.p[d], f), shallow=False), f"{f} is a copy of {d}'s")


def incomplete(ctx):
    """donors without the usual tokenizer files do not break the merge"""
    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, ["A", "B"], {})
        gone = [f for f in ("tokenizer.json", "tokenizer_config.json") if ctx.flag(f"A lacks {f}")]
        for f in gone:
            os.remove(os.path.join(s.p["A"], f))
        r = mk.do_merge(w, s.config(["A", "B"]), copy_tokenizer=True)
        if not gone:
            ctx.check(loaded(r.path) is not None, "tokenizer copied")
        for k, v in r.tensors.items():
            ctx.eq(v.reshape(-1), [(a + b) * 0.5 for a, b in zip(ctx.elems(s.t["A"][k]), ctx.elems(s.t["B"][k]))], k)


def tagalong(ctx, cls_name):
    """further files an architecture needs come from the base model, or the first model"""
    from . import c14

    cfg, names, tied, emb, nd = c14.truth(cls_name, 1, {})
    files = {"Qwen3VLForConditionalGeneration": ["preprocessor_config.json", "vocab.json"], "Qwen3VLMoeForConditionalGeneration": ["preprocessor_config.json", "vocab.json"],
             "Llama4ForConditionalGeneration": ["preprocessor_config.json", "processor_config.json"], "WhisperForConditionalGeneration": ["preprocessor_config.json", "normalizer.json"]}[cls_name]
    with mk.SymWorld(ctx) as w:
        ts, p, have = {}, {}, {}
        for m in "AB":
            ts[m] = {n: ctx.tensor(f"{m}.{n}", (1,)) for n in names[:1]}
            full = {n: ts[m].get(n, torch.ones(1)) for n in names}
            have[m] = [f for f in files if ctx.flag(f"{m} has {f}")]
            p[m] = w.add_model(m, cfg, full, files={f: f"{f} of {m}" for f in [*have[m], "other.json"]})
        base = ctx.choice("base", [None, "B"])
        if base:  # passthrough takes one model: make it a linear merge of both
            c = dict(merge_method="task_arithmetic", base_model=p["B"], dtype="float32", models=[dict(model=p["A"], parameters=dict(weight=1.0))])
        else:
            c = dict(merge_method="linear", dtype="float32", models=[dict(model=p[m], parameters=dict(weight=1.0)) for m in "AB"])
        r = mk.do_merge(w, c)
        d = base or "A"
        for f in [*files, "other.json"]:
            fp = os.path.join(r.path, f)
            ctx.check(os.path.exists(fp) == (f in have[d]), f"{f} written: {os.path.exists(fp)}")
            if f in have[d]:
                with open(fp) as fh:
                    ctx.check(fh.read() == f"{f} of {d}", f"{f} is {d}'s")


def section(md):
    """front matter and yaml block of a card"""
    _, front, body = md.split("---\n", 2)
    return yaml.safe_load(front), body.split("```yaml\n", 1)[1].rsplit("\n```", 1)[0], body


def card(ctx):
    """the card names method, base and every other model once and repeats the configuration"""
    import huggingface_hub
    from mergekit.card import generate_card
    from mergekit.config import MergeConfiguration

    hub = {"org/one", "org/three", "org/lora", "gpt2"}
    with mk.SymWorld(ctx) as w:
        w._patch(huggingface_hub, "repo_exists", lambda rid, **k: rid in hub)
        old = os.getcwd()
        os.chdir(w.root)
        try:
            os.makedirs("org/local")
            os.makedirs("org/three")
            names = ["org/one", "org/local", "/abs/dir", "org/three", "org/one+org/lora", "gpt2", "some/dir/model"]
            use = [x for x in (ctx.choice("first model", [None, *names]), ctx.choice("second model", names)) if x]
            base = ctx.choice("base", [None, "org/one", "org/local"])
            method = ctx.choice("method", ["linear", "ties", "slerp", "passthrough"])
            form = ctx.choice("form", ["models", "slices", "modules"] if method == "linear" else ["models"])
            src = [dict(model=n, parameters=dict(weight=1.0), **({} if form == "models" else dict(layer_range=[0, 1]))) for n in use]
            c = dict(merge_method=method, **(dict(base_model=base) if base else {}))
            if form == "models":
                c["models"] = src
            elif form == "slices":
                c["slices"] = [dict(sources=src), dict(sources=src[:1])]
            else:
                c["modules"] = {"default": dict(slices=[dict(sources=src)])}
            text = "# my comment {braces} kept\n" + yaml.dump(c)
            md = generate_card(config=MergeConfiguration.model_validate(c), config_yaml=text, name=ctx.choice("name", ["result", None]))
        finally:
            os.chdir(old)
    front, conf, body = section(md)
    everything = list(dict.fromkeys(([base] if base else []) + use))
    on_hub = [x for n in everything for x in n.split("+") if x in hub]
    ctx.check(front["base_model"] == on_hub, f"base_model {front['base_model']} expected {on_hub}")
    ctx.check("mergekit" in front["tags"] and "merge" in front["tags"], f"tags {front['tags']}")
    ctx.check(conf.strip() == text.strip(), "the configuration is repeated as given")
    link = lambda n: " + ".join(f"[{x}](https://huggingface.co/{x})" if x in hub else x for x in n.split("+"))
    bullets = [x[2:] for x in body.splitlines() if x.startswith("* ")]
    told = base if method != "slerp" else None
    ctx.check(bullets == [link(n) for n in everything if n != told], f"models listed {bullets}")
    head = body.split("### Models Merged")[0]
    ctx.check((f"{link(told)} as a base" in head) if told else ("as a base" not in head), "base named")
    shown = {"linear": "Linear", "ties": "TIES", "slerp": "SLERP", "passthrough": "Passthrough"}[method]
    ctx.check(shown.lower() in head.lower(), f"method {method} named")


def written(ctx):
    """card and configuration are written next to the weights unless turned off"""
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, ["A", "B"], {})
        cfg = s.config(["A", "B"], ctx.choice("base", [None, "A"]))
        want = ctx.flag("write card")
        given = ctx.flag("source text given")
        out = os.path.join(w.root, "some name")
        text = "# a comment\n" + yaml.dump(cfg)
        run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(copy_tokenizer=False, write_model_card=want, quiet=True, lazy_unpickle=False), **(dict(config_source=text) if given else {}))
        have = [os.path.exists(os.path.join(out, f)) for f in ("README.md", "mergekit_config.yml")]
        ctx.check(have == [want, want], f"card and configuration written: {have}")
        if want:
            with open(os.path.join(out, "README.md")) as f:
                front, conf, body = section(f.read())
            with open(os.path.join(out, "mergekit_config.yml")) as f:
                saved = f.read()
            ctx.check(conf.strip() == saved.strip(), "card and file agree")
            if given:
                ctx.check(saved == text, "the text given is kept")
            a, b = MergeConfiguration.model_validate(yaml.safe_load(saved)), MergeConfiguration.model_validate(cfg)
            ctx.check(a.referenced_models() == b.referenced_models() and a.merge_method == b.merge_method and a.base_model == b.base_model and a.dtype == b.dtype, "the saved configuration names the same merge")
            ctx.check("# some name" in body, "named after the directory")


def mixed(ctx):
    """different architectures are merged only when that is allowed"""
    import transformers

    with mk.SymWorld(ctx) as w:
        ts = {m: mk.llama_tensors(ctx, m, 1) for m in "AB"}
        pa = w.add_model("A", mk.llama_config(1, 1, 1, 1, 1), ts["A"])
        other = ctx.flag("B is a mistral model")
        cfg = mk.llama_config(1, 1, 1, 1, 1)
        if other:
            cfg = transformers.MistralConfig(hidden_size=1, num_hidden_layers=1, num_attention_heads=1, num_key_value_heads=1, intermediate_size=1, vocab_size=1, head_dim=1)
            cfg.architectures = ["MistralForCausalLM"]
        pb = w.add_model("B", cfg, ts["B"])
        allow = ctx.flag("allow crimes")
        c = dict(merge_method="linear", dtype="float32", models=[dict(model=p, parameters=dict(weight=1.0)) for p in ([pb, pa] if ctx.flag("B first") else [pa, pb])])
        if other and not allow:
            e = ctx.raises(lambda: mk.do_merge(w, c, allow_crimes=allow))
            ctx.check(isinstance(e, RuntimeError), f"mixing is refused: {e!r}")
            return
        r = mk.do_merge(w, c, allow_crimes=allow)
        for k in ts["A"]:
            ctx.eq(r.tensors[k].reshape(-1), [(a + b) * 0.5 for a, b in zip(ctx.elems(ts["A"][k]), ctx.elems(ts["B"][k]))], k)


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=300, keep_samples=3)
OBLIGATIONS = [
    Ob("template", template, cases=[(("A", "B"), False, False), (("A", "B"), True, False), (("A", "B"), False, True), (("A", "B", "C"), False, False)], tcases=[(("A", "B", "C"), True, False), (("A", "B"), True, True)], bounds="2-3 models, local or a revision on the hub, with one of two templates or none, 6 settings, tokenizer copied or built, base or none"),
    Ob("copied", copied, bounds="2 models, one of 6 further files or none, base or none, both orders"),
    Ob("incomplete", incomplete, bounds="a donor lacking either tokenizer file"),
    Ob("tagalong", tagalong, cases=["Qwen3VLForConditionalGeneration", "WhisperForConditionalGeneration", "Llama4ForConditionalGeneration"], tcases=["Qwen3VLMoeForConditionalGeneration"], bounds="4 architectures, every subset of their files, base or none"),
    Ob("card", card, bounds="1-2 of 7 models local or on the hub with and without adapter, 3 bases, 4 methods, 3 forms"),
    Ob("written", written, bounds="card or not, source text given or not, base or not"),
    Ob("mixed", mixed, bounds="two architectures, allowed or not, both orders"),
]
