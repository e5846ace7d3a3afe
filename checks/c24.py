"""mergekit-multi: interdependent merges give what running them one by one would."""
import os

import yaml

from .lib import *

IMPORTS = ["mergekit.scripts.multimerge", "mergekit.merge", "mergekit.merge_methods"]
OUTSIDE = "more than 3 merges (4 for the graph alone), merge names that are not plain directory names"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store"]
REF = "model.layers.0.mlp.up_proj.weight"


class Multi:
    def __init__(self, ctx, w, ext=("X", "Y"), cfg=None):
        self.ctx, self.w = ctx, w
        self.t, self.p = {}, {}
        for m in ext:
            self.t[m] = mk.llama_tensors(ctx, m, 1)
            self.p[m] = w.add_model(m, mk.llama_config(1, 1, 1, 1, 1), self.t[m])
        self.mid = os.path.join(w.root, "mid")
        self.out = os.path.join(w.root, "final")

    def run(self, docs, out=True, lazy=True):
        from mergekit.scripts.multimerge import main

        f = os.path.join(self.w.root, "multi.yaml")
        with open(f, "w") as fp:
            fp.write("\n---\n".join(yaml.dump(d) for d in docs))
        args = [f, "--intermediate-dir", self.mid, "--no-copy-tokenizer", "--no-write-model-card", "--no-lazy-unpickle", "--quiet"]
        args += ["--out-path", self.out] if out else []
        args += [] if lazy else ["--no-lazy"]
        main.main(args, standalone_mode=False)

    def load(self, name):
        return self.w.load_output(self.out if name is None else os.path.join(self.mid, name))[0]


def doc(name, models, **kw):
    d = dict(merge_method="linear", dtype="float32", parameters=dict(normalize=False), models=[dict(model=m, parameters=dict(weight=x)) for m, x in models])
    d.update(kw)
    if name is not None:
        d["name"] = name
    return d


def value(mu, env, models):
    """tensors a linear merge of these models has"""
    out = {}
    for k in mu.t["X"]:
        n = mu.t["X"][k].numel()
        out[k] = [ssum(x * env[m][k][i] for m, x in models) for i in range(n)]
    return out


def cyclic(deps):
    done = set()
    while True:
        new = [n for n in deps if n not in done and deps[n] <= done]
        if not new:
            return len(done) < len(deps)
        done.update(new)


def chain(ctx, case):
    """any dependency graph among the merges, in any order in the file"""
    names = case
    with mk.SymWorld(ctx) as w:
        mu = Multi(ctx, w)
        order = list(names)
        if ctx.flag("listed backwards"):
            order.reverse()
        # every merge: a model X or Y plus one other model, possibly another merge
        use = {}
        for n in names:
            a = ctx.choice(f"{n} first", ["X", *[m for m in names if m != n]] if n != names[-1] else [m for m in names if m != n])
            use[n] = [(a, 0.5), ("Y", 2.0)]
        docs = [doc(n, [(mu.p.get(m, m), x) for m, x in use[n]]) for n in order]
        deps = {n: {m for m, _ in use[n] if m in names} for n in names}
        if any(None in d for d in deps.values()):
            return
        if cyclic(deps):
            e = ctx.raises(lambda: mu.run(docs))
            ctx.check(isinstance(e, ValueError), f"a cycle is refused: {e!r}")
            return
        mu.run(docs, out=None in names)
        env = {m: {k: ctx.elems(t) for k, t in mu.t[m].items()} for m in mu.t}
        todo = list(names)
        while todo:
            n = next(n for n in todo if deps[n].issubset(env))
            todo.remove(n)
            env[n] = value(mu, env, use[n])
            got = mu.load(n)
            ctx.check(set(got) == set(env[n]), f"tensors of {n}")
            for k, e in env[n].items():
                expect(ctx, got[k], tuple(mu.t["X"][k].shape), e, f"{n}: {k}", F32)


def lazy(ctx):
    """with --lazy complete results are kept, anything else is (re)computed"""
    with mk.SymWorld(ctx) as w:
        mu = Multi(ctx, w)
        lz = ctx.flag("lazy")
        have_cfg, have_model = ctx.flag("config.json exists"), ctx.choice("weights exist", [None, "single", "index"])
        old = mk.llama_tensors(ctx, "old", 1)
        d = os.path.join(mu.mid, "one")
        names = list(old)
        if have_cfg or have_model:
            w.add_model(os.path.join("mid", "one"), mk.llama_config(1, 1, 1, 1, 1), old,
                        shards={"model-00001-of-00002.safetensors": names[:3], "model-00002-of-00002.safetensors": names[3:]} if have_model == "index" else None)
            drop = [] if have_cfg else ["config.json"]
            if not have_model:
                drop += [f for f in os.listdir(d) if f.startswith("model")]
            elif have_model == "single":
                drop += ["model.safetensors.index.json"]
            for f in drop:
                if os.path.exists(os.path.join(d, f)):
                    os.unlink(os.path.join(d, f))
        docs = [doc(None, [("one", 1.0), (mu.p["Y"], 1.0)]), doc("one", [(mu.p["X"], 0.5), (mu.p["Y"], 2.0)])]
        mu.run(docs, lazy=lz)
        env = {m: {k: ctx.elems(t) for k, t in mu.t[m].items()} for m in mu.t}
        keep = lz and have_cfg and have_model
        one = {k: ctx.elems(t) for k, t in old.items()} if keep else value(mu, env, [("X", 0.5), ("Y", 2.0)])
        env["one"] = one
        if keep or not have_model:
            got = mu.load("one")
            for k, e in one.items():
                expect(ctx, got[k], tuple(old[k].shape), e, f"one ({'kept' if keep else 'computed'}): {k}", F32)
        if have_model != "index" or keep:
            got = mu.load(None)
            for k, e in value(mu, env, [("one", 1.0), ("Y", 1.0)]).items():
                expect(ctx, got[k], tuple(old[k].shape), e, f"final: {k}", F32)


def places(ctx, case):
    """references are resolved wherever a model can be named, and nothing else is changed"""
    from mergekit.scripts.multimerge import load_config

    name = case
    mid = "/some/dir"
    kind = ctx.choice("form", ["str", "dict", "rev", "lora", "arch"])
    other = {"str": "org/other", "dict": {"model": {"path": "org/other"}}, "rev": "org/other@main", "lora": "org/other+org/lora",
             "arch": {"model": {"path": "org/other"}, "override_architecture": "LlamaForCausalLM"}}[kind]
    hit = {"str": name, "dict": {"model": {"path": name}}, "rev": name + "@main", "lora": name + "+org/lora",
           "arch": {"model": {"path": name}, "override_architecture": "LlamaForCausalLM"}}[kind]
    sites = ["base_model", "models", "slices", "slice base", "module models", "module slices", "tokenizer_source", "tokenizer", "token", "token model"]
    site = ctx.choice("site", sites)
    shape = ctx.choice("shape", ["models", "slices", "modules"])
    use = ctx.flag("refers to the other merge")
    ref = hit if use else other
    r = lambda s: ref if s == site else "org/third"
    d = dict(merge_method="linear", dtype="float32", chat_template=name, parameters={"weight": 1.0, name: 0.5})
    d["name"] = "zz"
    sl = lambda a, b: [dict(sources=[dict(model=r(a), layer_range=[0, 1], parameters={name: 1.0})], base_model=r(b))]
    if shape == "models":
        d["models"] = [dict(model=r("models"), parameters={"weight": 1.0}), dict(model="org/fourth")]
    elif shape == "slices":
        d["slices"] = sl("slices", "slice base")
    else:
        d["modules"] = {name: dict(models=[dict(model=r("module models"))]), "text": dict(slices=sl("module slices", "none"))}
    d["base_model"] = r("base_model")
    if site == "tokenizer_source":
        d["tokenizer_source"] = ref
    if site in ("tokenizer", "token", "token model"):
        d["tokenizer"] = dict(source=r("tokenizer") if site == "tokenizer" else "union", tokens={name: dict(source=r("token")), "other": dict(source={"kind": "model_token", "model": r("token model"), "token": name})})
    one = dict(merge_method="linear", name=name, models=[dict(model="org/a")])
    present = {"models": ("models",), "slices": ("slices", "slice base"), "modules": ("module models", "module slices")}[shape] + ("base_model", "tokenizer_source", "tokenizer", "token", "token model")
    cfgs, deps = load_config(yaml.safe_dump_all([one, d]), mid)
    from mergekit.config import MergeConfiguration

    use = use and site in present
    ctx.check(deps == {name: set(), "zz": {name} if use else set()}, f"dependencies {deps} with {site} {'used' if use else 'unused'}")

    def fix(v):
        if v is hit:
            if isinstance(v, str):
                return mid + "/" + v
            return dict(v, model={"path": mid + "/" + name})
        if isinstance(v, dict):
            return {k: fix(x) for k, x in v.items()}
        if isinstance(v, list):
            return [fix(x) for x in v]
        return v

    d2 = {k: v for k, v in d.items() if k != "name"}
    if use:
        # strings equal to the merge name elsewhere stay
        keep = {k: d2.pop(k) for k in ("chat_template", "merge_method")}
        tk = d2.get("tokenizer", {}).get("tokens", {}).get("other", {}).get("source")
        if tk:
            tk["token"] = "<tok>"
        d2 = fix(d2)
        if tk:
            d2["tokenizer"]["tokens"]["other"]["source"]["token"] = name
        d2.update(keep)
    want = MergeConfiguration.model_validate(d2)
    ctx.check(cfgs["zz"] == want, f"config is {cfgs['zz']!r}, expected {want!r}")
    again = MergeConfiguration.model_validate(yaml.safe_load(cfgs["zz"].to_yaml()))
    ctx.check(again == want, "it is passed on unchanged through YAML")


def refused(ctx):
    """duplicate or several unnamed merges and a missing output path are refused"""
    with mk.SymWorld(ctx) as w:
        mu = Multi(ctx, w)
        names = [ctx.choice(f"name {i}", [None, "a", "b"]) for i in range(2)]
        out = ctx.flag("output path given")
        e = ctx.raises(lambda: mu.run([doc(n, [(mu.p["X"], 1.0), (mu.p["Y"], 1.0)]) for n in names], out=out))
        bad = names[0] == names[1] or None in names and not out
        ctx.check((e is not None) == bad, f"merges {names}, output {out}: {e!r}")
        if not bad:
            for n in names:
                ctx.check(set(mu.load(n)) == set(mu.t["X"]), f"{n} is written")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=250, keep_samples=2, ite="fork")
OBLIGATIONS = [
    Ob("chain", chain, cases=[("a", None), ("a", "b", None), ("linear", "a"), ("b", "c", "a")], tcases=[("a", "b", "c", None)], bounds="2-3 (4) merges with every dependency graph, both listing orders, named like methods or not"),
    Ob("lazy", lazy, bounds="an intermediate result absent, partial or complete, in one file or several"),
    Ob("places", places, cases=["a", "linear", "weight"], bounds="10 places that name a model, 5 ways of writing it, 3 shapes of configuration, names equal to methods, parameters or tokens"),
    Ob("refused", refused, bounds="2 merges with or without names and output path"),
]
