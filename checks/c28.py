"""Evolutionary merging: the merge a genotype stands for."""
import os

from .lib import *
from . import c12

IMPORTS = ["mergekit.evo.genome", "mergekit.evo.config", "mergekit.merge", "mergekit.merge_methods"]
OUTSIDE = "more than 3 models or 2 filters, layers beyond 3 (9 thorough), the optimiser, linear merges with a base model that is not merged (its weight is nowhere given), evaluation and ray actors, the final norm and head of interpolated genotypes"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store", "weights of a normalised merge sum to at least 1/4 in absolute value"]
PARAMS = {"linear": ["weight"], "task_arithmetic": ["weight"], "ties": ["weight", "density"], "dare_ties": ["weight", "density"], "slerp": ["t"]}


class Evo:
    """models, a genome over them and a symbolic genotype"""

    def __init__(self, ctx, w, method, n=2, layers=1, gran=0, filters=None, base=None, lo=-4, hi=4, **kw):
        from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition

        self.ctx, self.layers, self.method, self.filters, self.base = ctx, layers, method, filters, base
        self.names = ["A", "B", "C"][:n]
        self.groups = layers // gran if gran > 0 else 1
        self.span = layers // self.groups
        every = self.names + ([base] if base and base not in self.names else [])
        self.t = {m: mk.llama_tensors(ctx, m, layers) for m in every}
        self.p = {m: w.add_model(m, mk.llama_config(layers, 1, 1, 1, 1), self.t[m]) for m in every}
        d = dict(models=[self.p[m] for m in self.names], merge_method=method, layer_granularity=gran, filters=filters, **kw)
        if base:
            d["base_model"] = self.p[base]
        self.genome = ModelGenome(ModelGenomeDefinition.model_validate(d))
        self.sets = len(filters or []) + 1
        ps = PARAMS[method]
        self.g = [[[[ctx.real(f"{p}{l}{m}{s}", lo, hi) for p in ps] for s in range(self.sets)] for m in self.names] for l in range(self.groups)]

    def genotype(self, flat=False):
        import numpy as np

        t = self.ctx.mk_tensor(self.g)
        return t.reshape(-1) if flat else t

    def param(self, i, name, group, model, signed=False):
        """what the genotype sets parameter i of a model to for a tensor"""
        s = next((k for k, f in enumerate(self.filters or []) if f in name), self.sets - 1)
        v = self.g[group][self.names.index(model)][s][i]
        return v if signed else absv(self.ctx, v)

    def group(self, name):
        if name.startswith("model.layers."):
            return int(name.split(".")[2]) // self.span
        return 0 if "embed" in name else self.groups - 1


def merged(ctx, e, r, normalize, signed, names):
    """the output of a linear or task arithmetic merge with the genotype's weights"""
    for n in names:
        w = [e.param(0, n, e.group(n), m, signed) for m in e.names]
        x = [ctx.elems(e.t[m][n]) for m in e.names]
        tot = ssum(v for v, m in zip(w, e.names) if e.method == "linear" or m != e.base)
        b = ctx.elems(e.t[e.base][n]) if e.base else None
        ctx.check(n in r.tensors, f"{n} present")
        got = ctx.elems(r.tensors[n])
        ctx.check(r.tensors[n].dtype == torch.bfloat16, f"{n}: {r.tensors[n].dtype}")
        for k in range(len(got)):
            if e.method == "linear":
                v = ssum(a * y[k] for a, y in zip(w, x))
                ctx.eq(got[k] * (tot if normalize else 1), v, n, tol=400)
            else:
                v = ssum(a * (y[k] - b[k]) for a, m, y in zip(w, e.names, x) if m != e.base)
                ctx.eq(got[k] * (tot if normalize else 1), b[k] * (tot if normalize else 1) + v, n, tol=400)


def discrete(ctx, case):
    """each group of layers is merged with its own weights, each tensor with its filter's"""
    method, n, layers, gran, filters, base, signed, normalize = case
    with mk.SymWorld(ctx) as w:
        kw = {} if normalize is None else {"normalize": normalize}
        e = Evo(ctx, w, method, n, layers, gran, filters, base, allow_negative_weights=signed, **kw)
        eff = method == "linear" if normalize is None else normalize
        names = sorted(e.t["A"])
        if eff:
            for l in range(e.groups):
                for s in range(e.sets):
                    tot = ssum(e.g[l][m][s][0] if signed else absv(ctx, e.g[l][m][s][0]) for m in range(n) if method == "linear" or e.names[m] != base)
                    ctx.assume(ctx.Or(tot >= 0.25, tot <= -0.25))
        cfg = e.genome.genotype_merge_config(e.genotype(flat=ctx.flag("flat genotype")))
        r = mk.do_merge(w, cfg)
        ctx.check(set(r.tensors) == set(names), f"tensors {sorted(set(r.tensors) ^ set(names))}")
        ctx.check(r.config["num_hidden_layers"] == layers, f"{r.config['num_hidden_layers']} layers")
        merged(ctx, e, r, eff, signed, names)


def smooth(ctx, case):
    """weights are interpolated over the layers"""
    method, layers, gran, filters, base = case
    with mk.SymWorld(ctx) as w:
        e = Evo(ctx, w, method, 2, layers, gran, filters, base, lo=0, smooth=True, normalize=False)
        cfg = e.genome.genotype_merge_config(e.genotype())
        r = mk.do_merge(w, cfg)
        ctx.check(set(r.tensors) == set(e.t["A"]), "tensors")
        for n in r.tensors:
            if n in c12.POST:
                continue
            t = (int(n.split(".")[2]), layers - 1) if n.startswith("model.layers.") else (0, 1)
            if layers == 1:
                t = (1, 1)
            ws = []
            for m in e.names:
                vs = [e.param(0, n, l, m, True) for l in range(e.groups)]
                ws.append(c12.ev(vs, n, t))
            got, b = ctx.elems(r.tensors[n]), ctx.elems(e.t[base][n]) if base else None
            for k in range(len(got)):
                v = ssum(a * (ctx.elems(e.t[m][n])[k] - (b[k] if base else 0)) for a, m in zip(ws, e.names) if m != base)
                ctx.eq(got[k], v + (b[k] if base else 0), n, tol=400)


def value(v, set_):
    return v[set_]["value"] if isinstance(v, list) else v


def density(ctx, case):
    """densities lie in [0, 1], weights keep their sign only if allowed"""
    method, filters, signed, base, sm = case
    with mk.SymWorld(ctx) as w:
        e = Evo(ctx, w, method, 2, 2, 1, filters, base, allow_negative_weights=signed, smooth=sm)
        cfg = e.genome.genotype_merge_config(e.genotype())
        ctx.check(cfg.merge_method == method and cfg.base_model.model.path == e.p[base], "method and base")
        ctx.check(bool(cfg.parameters["normalize"]), "normalised")
        if sm:
            ctx.check(cfg.slices is None, "no slices")
        else:
            ctx.check([[list(s.layer_range) for s in x.sources] for x in cfg.slices] == [[[i, i + 1]] * (2 if base in "AB" else 3) for i in range(2)], "layer ranges")
        for l in range(2):
            srcs = cfg.models if sm else cfg.slices[l].sources
            want = ["A", "B"] + ([base] if base not in "AB" else [])
            paths = [s.model.model.path for s in srcs]
            # a merge of whole models gets its base added when it is planned
            ctx.check(paths == [e.p[m] for m in want] or sm and paths == [e.p["A"], e.p["B"]], "sources")
            for mi, s in enumerate(srcs[:2]):
                for si in range(e.sets):
                    pw, pd = s.parameters["weight"], s.parameters["density"]
                    if filters:
                        ctx.check([c.filter for c in pw] == filters + [None] and [c.filter for c in pd] == filters + [None], "filters")
                        pw, pd = pw[si].value, pd[si].value
                    if sm:
                        pw, pd = pw[l], pd[l]
                    a, d = e.g[l][mi][si]
                    ctx.eq(pw, a if signed else absv(ctx, a), f"weight of {e.names[mi]} in layer {l}")
                    ctx.eq(pd, vmin(ctx, absv(ctx, d), 1), f"density of {e.names[mi]} in layer {l}")


def slerp(ctx, case):
    """the two models with the largest genes, interpolated towards the second by its share"""
    n, layers, gran, tok, base = case
    with mk.SymWorld(ctx) as w:
        e = Evo(ctx, w, "slerp", n, layers, gran, lo=-2, hi=2, base=base, **({"tokenizer_source": tok} if tok else {}))
        for l in range(e.groups):
            for i in range(n):
                for j in range(i):
                    ctx.assume(ctx.Not(ctx.near(e.g[l][i][0][0], e.g[l][j][0][0])))
        cfg = e.genome.genotype_merge_config(e.genotype())
        ctx.check(len(cfg.slices) == e.groups, "slices")
        for l, s in enumerate(cfg.slices):
            x = [e.g[l][i][0][0] for i in range(n)]
            ctx.check(len(s.sources) == 2, "two sources")
            i, j = (e.names.index(os.path.basename(q.model.model.path)) for q in s.sources)
            ctx.check(i != j, "two different models")
            for k in range(n):
                if k != i:
                    ctx.le(x[k], x[i], "first source has the largest gene")
                if k not in (i, j):
                    ctx.le(x[k], x[j], "second source is the runner up")
            ctx.check([list(q.layer_range) for q in s.sources] == [[l * e.span, (l + 1) * e.span]] * 2, "layer ranges")
            ctx.check(s.base_model == s.sources[0].model, "interpolation starts at the first")
            t = s.parameters["t"]
            a, b = ctx.fn("exp", x[i]), ctx.fn("exp", x[j])
            ctx.eq(t * (a + b), b, "share of the second")
            if tok:
                for q, v in zip(s.sources, (1 - t, t)):
                    ctx.eq(q.parameters["weight"], v, "weights of the tokenizer merge")


def slerp_merge(ctx, case):
    """a slerp genotype merges into something between the two chosen models"""
    base = case
    with mk.SymWorld(ctx) as w:
        e = Evo(ctx, w, "slerp", 2, 1, 0, lo=-2, hi=2, base=base)
        x = [e.g[0][i][0][0] for i in range(2)]
        ctx.assume(ctx.Not(ctx.near(x[0], x[1])))
        for m in "AB":
            for t in e.t[m].values():
                # positive single elements: colinear
                ctx.assume(ctx.And(ctx.elems(t)[0] >= 1, ctx.elems(t)[0] <= 4))
        r = mk.do_merge(w, e.genome.genotype_merge_config(e.genotype()))
        a, b = ctx.fn("exp", x[0]), ctx.fn("exp", x[1])
        for n in e.t["A"]:
            # colinear, hence linear interpolation
            got, p, q = (ctx.elems(t[n])[0] for t in (r.tensors, e.t["A"], e.t["B"]))
            ctx.eq(got * (a + b), a * p + b * q, n, tol=2000)


def initial(ctx, case):
    """the first genotype is the plain average with nothing dropped"""
    method, n, layers, gran, filters, base = case
    with mk.SymWorld(ctx) as w:
        e = Evo(ctx, w, method, n, layers, gran, filters, base)
        x0 = e.genome.initial_genotype()
        ctx.check(tuple(x0.shape) == (e.groups, n, e.sets, len(PARAMS[method])), f"shape {tuple(x0.shape)}")
        r1 = e.genome.initial_genotype(random=True)
        ctx.check(tuple(r1.shape) == tuple(x0.shape), f"random: shape {tuple(r1.shape)}")
        for v in ctx.elems(r1):
            ctx.le(0, v, "random genes lie in [0, 1]")
            ctx.le(v, 1, "random genes lie in [0, 1]")
        if method == "slerp":
            return
        r = mk.do_merge(w, e.genome.genotype_merge_config(x0))
        for k in e.t["A"]:
            xs = [ctx.elems(e.t[m][k]) for m in e.names]
            b = ctx.elems(e.t[base][k]) if base else [0] * len(xs[0])
            if method == "task_arithmetic" or method == "linear":
                want = [b[i] + ssum(x[i] - b[i] for x in xs) / n for i in range(len(b))]
                expect(ctx, r.tensors[k], e.t["A"][k].shape, want, k, torch.bfloat16)


def arrays(ctx, case):
    """named genes for reports"""
    method, filters, gran = case
    with mk.SymWorld(ctx) as w:
        e = Evo(ctx, w, method, 2, 2, gran, filters, "C" if method != "linear" else None)
        got = e.genome.genotype_to_param_arrays(e.genotype(flat=ctx.flag("flat genotype")))
        want = {f"{m}_{p}" + (f"_{(filters or [])[s]}" if s < e.sets - 1 else ""): [e.g[l][mi][s][pi] for l in range(e.groups)]
                for mi, m in enumerate(e.names) for pi, p in enumerate(PARAMS[method]) for s in range(e.sets)}
        ctx.check(set(got) == set(want), f"names {sorted(got)}")
        for k in want:
            ctx.eqs(ctx.elems(got[k]), want[k], k)


def refused(ctx):
    """definitions and genotypes that make no sense are refused"""
    from mergekit.evo.genome import InvalidGenotypeError, ModelGenome, ModelGenomeDefinition

    with mk.SymWorld(ctx) as w:
        ts = mk.llama_tensors(ctx, "A", 4)
        p = w.add_model("A", mk.llama_config(4, 1, 1, 1, 1), ts)
        method = ctx.choice("method", [*PARAMS, "passthrough"])
        base, sm, fl = ctx.flag("base"), ctx.flag("smooth"), ctx.flag("filters")
        gran = ctx.cint("granularity", -1, 4)
        d = dict(models=[p, p], merge_method=method, smooth=sm, layer_granularity=gran)
        if base:
            d["base_model"] = p
        if fl:
            d["filters"] = ["mlp"]
        bad = method == "passthrough" or method in ("ties", "dare_ties", "task_arithmetic") and not base or method == "slerp" and (sm or fl)
        err = ctx.raises(lambda: ModelGenomeDefinition.model_validate(d))
        ctx.check((err is not None) == bad, f"{d} -> {err!r}")
        if bad:
            return
        md = ModelGenomeDefinition.model_validate(d)
        err = ctx.raises(lambda: ModelGenome(md))
        ctx.check((err is not None) == (gran == 3), f"granularity {gran}: {err!r}")
        if err is None:
            g = ModelGenome(md)
            ctx.check(ctx.raises(lambda: g.genotype_merge_config(torch.zeros(2, 2))) is not None, "a two-dimensional genotype is refused")


def naughty(ctx):
    """test sets of well known benchmarks need an explicit consent, training sets do not"""
    from mergekit.evo.config import EvolMergeConfiguration, check_for_naughty_config

    with mk.SymWorld(ctx) as w:
        p = w.add_model("A", mk.llama_config(1, 1, 1, 1, 1), mk.llama_tensors(ctx, "A", 1))
        names = ["mmlu_abstract_algebra", "gsm8k", "gsm8k_train", "my_task", "my_gsm8k", "arc_easy"]
        ts = [ctx.choice(f"task{i}", names) for i in range(2)]
        c = EvolMergeConfiguration.model_validate(dict(genome=dict(models=[p], merge_method="linear"), tasks=[ts[0], {"name": ts[1], "weight": 0.5}]))
        ctx.check([(t.name, t.weight, t.metric) for t in c.tasks] == [(ts[0], 1.0, "acc,none"), (ts[1], 0.5, "acc,none")], "tasks")
        bad = any(t in ("mmlu_abstract_algebra", "gsm8k", "arc_easy") for t in ts)
        allow = ctx.flag("allow")
        err = ctx.raises(lambda: check_for_naughty_config(c, allow=allow))
        ctx.check((err is not None) == (bad and not allow), f"{ts} allow={allow}: {err!r}")


OBLIGATIONS = [
    Ob("discrete", discrete, "2-3 models, 1-4 layers, 0-2 filters; (method, models, layers, granularity, filters, base, signed, normalize)",
       cases=[("linear", 2, 1, 0, None, None, False, None), ("linear", 2, 2, 1, None, None, True, False), ("linear", 2, 1, 1, ["mlp"], None, False, None),
              ("task_arithmetic", 2, 2, 1, None, "C", True, None), ("task_arithmetic", 2, 1, 0, ["self_attn", "mlp"], "A", False, None),
              ("task_arithmetic", 2, 2, 2, None, "C", False, True), ("linear", 2, 1, -1, None, "A", False, False)],
       tcases=[("linear", 3, 2, 1, ["mlp"], None, True, None), ("task_arithmetic", 3, 2, 1, ["self_attn"], "A", True, True), ("linear", 2, 4, 2, None, None, True, False)], time_s=200),
    Ob("smooth", smooth, "2 models, up to 3 layers (9 thorough); (method, layers, granularity, filters, base)",
       cases=[("linear", 2, 1, None, None), ("linear", 3, 1, ["mlp"], None), ("task_arithmetic", 3, 1, None, "C"), ("task_arithmetic", 2, 0, None, "A")],
       tcases=[("linear", 5, 1, None, None), ("task_arithmetic", 9, 3, None, "A"), ("task_arithmetic", 3, 1, ["mlp"], "A")]),
    Ob("density", density, "2 models, 2 layers, 0-1 filters", cases=[("ties", None, False, "C", False), ("dare_ties", ["mlp"], True, "C", False), ("ties", None, True, "A", False), ("dare_ties", None, False, "C", True), ("ties", ["mlp"], False, "A", True)]),
    Ob("slerp", slerp, "2-3 models, 1-2 groups", cases=[(2, 1, 0, None, None), (2, 1, 0, None, "A"), (3, 1, 1, None, "C"), (3, 2, 1, None, None), (3, 1, 1, "union", "B")]),
    Ob("slerp-merge", slerp_merge, "2 models, one layer, base none, one of them or another", cases=[None, "C", "A"]),
    Ob("initial", initial, "2-3 models, 1-2 layers", cases=[("linear", 2, 1, 0, None, None), ("task_arithmetic", 3, 2, 1, ["mlp"], "C"), ("ties", 2, 2, 1, None, "C"), ("slerp", 2, 2, 1, None, None)]),
    Ob("arrays", arrays, "2 models, 2 layers, 0-2 filters", cases=[("linear", None, 1), ("ties", ["mlp"], 1), ("dare_ties", ["self_attn", "mlp"], 0)]),
    Ob("refused", refused, "6 methods, all options, granularity -1 to 4"),
    Ob("naughty", naughty, "2 of 6 task names"),
]
