"""Command line front ends: options, mergekit-yaml, mergekit-legacy, layer shuffling, bakllama."""
import os
import random

import click
import yaml

from .lib import *

IMPORTS = ["mergekit.options", "mergekit.scripts.run_yaml", "mergekit.scripts.legacy", "mergekit.scripts.layershuffle", "mergekit.scripts.bakllama", "mergekit.merge", "mergekit.merge_methods"]
OUTSIDE = "more than 3 models or layers, effects of --cuda, --num-threads and verbosity beyond the option values"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store", "random numbers are arbitrary: a draw from [0, 1) is a solver variable, a draw of an integer a solver choice"]

BOOLS = ["allow_crimes", "cuda", "low_cpu_memory", "copy_tokenizer", "clone_tensors", "trust_remote_code", "lazy_unpickle", "write_model_card", "safe_serialization", "quiet", "read_to_gpu", "multi_gpu", "async_write"]
ON = ["copy_tokenizer", "write_model_card", "safe_serialization"]
VALUES = {"transformers_cache": ["/some/dir"], "lora_merge_cache": ["/other dir"], "lora_merge_dtype": ["float16"], "device": ["cpu", "cuda", "cuda:1"], "random_seed": [0, 7], "num_threads": [1, 12], "write_threads": [1, 5], "out_shard_size": ["5B", "200M", "10k", "123"]}
SIZES = {"5B": 5 * 10**9, "200M": 200 * 10**6, "10k": 10**4, "123": 123}
QUIET = ["--no-copy-tokenizer", "--no-write-model-card", "--quiet"]


def options(ctx, case):
    """each option on the command line sets its field and nothing else"""
    from mergekit.options import MergeOptions, add_merge_options

    got = []

    @click.command("x")
    @add_merge_options
    def cmd(merge_options):
        got.append(merge_options)

    d = MergeOptions()
    want = {k: getattr(d, k) for k in BOOLS + list(VALUES) + ["verbosity", "gpu_rich"]}
    ctx.check(all(want[b] is (b in ON) for b in BOOLS) and want["device"] == "cpu" and want["out_shard_size"] == 5 * 10**9 and want["write_threads"] == 1 and want["num_threads"] is None and want["random_seed"] is None,
              f"defaults {want}")
    args = []
    if case == "flags":
        a, b = ctx.choice("option", BOOLS), ctx.choice("second option", [None, *BOOLS])
        for f in dict.fromkeys(x for x in (a, b) if x):
            on = ctx.flag(f"{f} on")
            args.append(("--" if on else "--no-") + f.replace("_", "-"))
            want[f] = on
    elif case == "values":
        f = ctx.choice("option", list(VALUES))
        v = ctx.choice("value", VALUES[f])
        args += ["-j" if f == "num_threads" and ctx.flag("short") else "--" + f.replace("_", "-"), str(v)]
        want[f] = SIZES.get(v, v) if f == "out_shard_size" else v
        n = ctx.choice("verbosity", [0, 1, 3])
        args += ["-v"] * n
        want["verbosity"] = n
    else:
        dev = ctx.choice("device", [None, "cpu", "cuda:1"])
        rich = ctx.flag("gpu rich")
        cuda = ctx.choice("cuda", [None, True, False])
        args += ["--gpu-rich"] if rich else []
        args += [] if cuda is None else ["--cuda" if cuda else "--no-cuda"]
        args += ["--device", dev] if dev else []
        want["gpu_rich"], want["cuda"] = rich, rich or bool(cuda)
        for k in ("low_cpu_memory", "read_to_gpu", "multi_gpu"):
            want[k] = rich
        want["device"] = dev
    if not want["device"] or "--device" not in args:
        want["device"] = "cuda" if want["cuda"] else "cpu"
    cmd.main(args, standalone_mode=False)
    ctx.check(len(got) == 1, "command called")
    for k, v in want.items():
        ctx.check(getattr(got[0], k) == v, f"{k} is {getattr(got[0], k)!r} expected {v!r} for {args}")


class Setup:
    def __init__(self, ctx, w, names="AB", layers=2, only=None, **kw):
        self.ctx, self.w, self.t, self.p = ctx, w, {}, {}
        for m in names:
            self.t[m] = fixed(m, layers) if only else mk.llama_tensors(ctx, m, layers, **kw)
            for k in filter(None, only or ()):
                self.t[m][k] = ctx.tensor(f"{m}.{k}", (2,), lo=-4, hi=4)
            self.p[m] = w.add_model(m, mk.llama_config(layers, 1, 1, 1, 1), self.t[m])
        self.out = os.path.join(w.root, "result")
        self.names = {p: m for m, p in self.p.items()}

    def load(self, **kw):
        return self.w.load_output(self.out, **kw)[0]


def fixed(m, layers):
    """weights with two fixed elements each"""
    out = {}
    names = ["model.embed_tokens.weight", "lm_head.weight", "model.norm.weight"] + [f"model.layers.{i}.{x}" for i in range(layers) for x in mk.LLAMA_LAYER]
    for i, k in enumerate(names):
        a = float("ABC".index(m) + 1)
        out[k] = torch.tensor([[a + i * 0.25, 0.5 * a * a - i]]) if "norm" not in k else torch.tensor([a + i, 1.0 - a])
    return out


def yaml_cli(ctx):
    """mergekit-yaml merges what the file says with the options given"""
    from mergekit.scripts.run_yaml import main

    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, layers=1)
        wa, wb = ctx.choice("weight of A", [0.5, -1.0, 2.0]), ctx.choice("weight of B", [1.0, 0.25])
        text = "# comment\n" + yaml.dump(dict(merge_method="linear", dtype="float32", parameters=dict(normalize=False), models=[dict(model=s.p[m], parameters=dict(weight=x)) for m, x in zip("AB", (wa, wb))]))
        f = os.path.join(w.root, "c.yml")
        with open(f, "w") as fp:
            fp.write(text)
        safe, card = ctx.flag("safetensors"), ctx.flag("card")
        shard = ctx.choice("shard size", ["5B", "12"])
        args = [f, s.out, "--no-copy-tokenizer", "--quiet", "--out-shard-size", shard, "--safe-serialization" if safe else "--no-safe-serialization", "--write-model-card" if card else "--no-write-model-card"]
        args += ["--random-seed", "3"] if ctx.flag("seed") else []
        main.main(args, standalone_mode=False)
        got, layout, idx = w.load_output(s.out, *(() if safe else ("pytorch_model", "bin")))
        ctx.check(set(got) == set(s.t["A"]), "tensors written")
        for k in got:
            expect(ctx, got[k], tuple(s.t["A"][k].shape), [wa * a + wb * b for a, b in zip(ctx.elems(s.t["A"][k]), ctx.elems(s.t["B"][k]))], k, F32)
        ctx.check((len(layout) > 1) == (shard == "12"), f"{len(layout)} files")
        saved = os.path.join(s.out, "mergekit_config.yml")
        ctx.check(os.path.exists(saved) == card, "configuration saved")
        if card:
            with open(saved) as fp:
                ctx.check(fp.read() == text, "configuration saved as written")


def same(ctx, a, b):
    ctx.check(set(a) == set(b), f"tensors {sorted(set(a) ^ set(b))}")
    for k in a:
        ctx.check(a[k].dtype == b[k].dtype, f"{k}: {a[k].dtype} expected {b[k].dtype}")
        expect(ctx, a[k], tuple(b[k].shape), ctx.elems(b[k]), k)


def legacy(ctx, method):
    """mergekit-legacy runs the merge its arguments describe"""
    from mergekit.scripts.legacy import main

    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, "AB" if method in ("slerp", "passthrough") else "ABC", layers=1, only=[None] if method == "slerp" else ["model.layers.0.input_layernorm.weight", "model.norm.weight"][: 1 if method == "ties" else 2])
        half = method == "passthrough" and ctx.flag("half precision models")
        if half:
            s.t["D"] = {k: t.to(torch.float16) for k, t in s.t["A"].items()}
            s.p["A"] = w.add_model("D", mk.llama_config(1, 1, 1, 1, 1), s.t["D"])
        listed = ["A", "B"]
        base = {"linear": [None], "slerp": ["A", "B"], "passthrough": [None]}.get(method, ["C", "A"])
        base = ctx.choice("base", base)
        if method == "passthrough":
            listed = ["A"]
        elif method == "slerp" and base == "A" and ctx.flag("base not listed"):
            listed = ["B"]
        order = listed if ctx.flag("in order") else listed[::-1]
        models = order + ([base] if base and base not in order else [])
        args, ps, gp = [s.out, "--method", method] + QUIET, {m: {} for m in models}, {}
        for m in order:
            args += ["--merge", s.p[m]]
        if base:
            args += ["--base-model", s.p[base]]
        if method == "slerp":
            t = ctx.choice("t", [0.0, 0.25, 1.0])
            args += ["--weight", str(t)]
            gp["t"] = t
        elif method != "passthrough":
            ws = ctx.choice("weights", [[], [0.5], [0.5, 2.0]])
            for x in ws:
                args += ["--weight", str(x)]
            full = [1.0] * len(models) if not ws else ws * len(models) if len(ws) == 1 else ws
            for m, x in zip(models, full):
                ps[m]["weight"] = x
        if method == "ties":
            ds = ctx.choice("densities", [[], [0.5], [1.0, 0.5]])
            for x in ds:
                args += ["--density", str(x)]
            for m, x in zip(models, ds * len(models) if len(ds) == 1 else ds):
                ps[m]["density"] = x
        norm = ctx.choice("normalize", {"ties": [None, False], "slerp": [None], "passthrough": [None]}.get(method, [None, True, False]))
        if norm is not None:
            args += ["--normalize" if norm else "--no-normalize"]
        gp["normalize"] = norm is not False
        bf16 = method in ("linear", "passthrough") and ctx.flag("bf16")
        args += ["--bf16"] if bf16 else []
        if method == "ties" and ctx.flag("int8 mask"):
            args += ["--int8-mask"]
            gp["int8_mask"] = True
        main.main(args, standalone_mode=False)
        got = s.load()
        ref = mk.do_merge(w, dict(merge_method=method, models=[dict(model=s.p[m], parameters=ps[m]) for m in models], parameters=gp, **(dict(base_model=s.p[base]) if base else {}), **(dict(dtype="bfloat16") if bf16 else {})))
        same(ctx, got, ref.tensors)
        if method == "linear":
            x = [ps[m]["weight"] for m in models]
            tot = sum(x) if norm is not False else 1.0
            for k in got:
                expect(ctx, got[k], tuple(got[k].shape), [ssum(a * b for a, b in zip(x, e)) * (1.0 / tot) for e in zip(*(ctx.elems(s.t[m][k]) for m in models))], k)


def naive_count(ctx):
    """counting signs instead of weighing them, as an option promises"""
    from mergekit.scripts.legacy import main

    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, "ABC", layers=1)
        main.main([s.out, "--method", "ties", "--base-model", s.p["C"], "--merge", s.p["A"], "--merge", s.p["B"], "--naive-count", *QUIET], standalone_mode=False)


class Draws:
    """the random module draws what the solver likes"""

    def __init__(self, ctx, w):
        self.ctx, self.n, self.real = ctx, 0, []
        inst = random._inst
        for name, f in (("random", self.draw), ("_randbelow", self.below)):
            inst.__dict__[name] = f
        for name in ("choices", "choice", "randrange", "randint", "shuffle", "sample"):
            w._patch(random, name, getattr(inst, name))
        w._patch(random, "random", self.draw)
        self.names = ("random", "_randbelow")

    def draw(self):
        self.n += 1
        x = self.ctx.real(f"draw{self.n}", 0, 0.999)
        self.real.append(x)
        return x

    def below(self, n):
        self.n += 1
        return self.ctx.choice(f"draw{self.n}", list(range(n)))

    def close(self):
        for n in self.names:
            random._inst.__dict__.pop(n, None)


def layer_of(k):
    p = k.split(".")
    return int(p[2]) if len(p) > 3 and p[1] == "layers" else None


def stacked(ctx, s, got, seq, first, last, scale=None):
    """got has exactly the given (model, layer) sequence, embeddings of first, head of last"""
    want = {}
    for i, (m, j) in enumerate(seq):
        for k, t in s.t[m].items():
            if layer_of(k) == j:
                f = scale[i] if scale and "down_proj" in k else None
                want[k.replace(f"layers.{j}.", f"layers.{i}.")] = (t, f)
    for k in s.t["A"]:
        if layer_of(k) is None:
            want[k] = (s.t[first if "embed" in k else last][k], None)
    ctx.check(set(got) == set(want), f"tensors {sorted(set(got) ^ set(want))[:4]}")
    for k, (t, f) in want.items():
        expect(ctx, got[k], tuple(t.shape), [x if f is None else f * x for x in ctx.elems(t)], k)


def shuffled(ctx, case):
    """every layer comes from the same place of a model picked with its weight"""
    from mergekit.scripts.layershuffle import main

    names, layers = case
    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, names, layers=layers)
        ws = ctx.choice("weights", [[1.0, 1.0, 1.0], [0.25, 0.75, 2.0], [0.0, 1.0, 0.5]])[: len(names)]
        given = ws[0] != 1.0
        args = [s.out, *QUIET] + [x for m in names for x in ("-m", s.p[m])] + ([x for v in ws for x in ("-w", str(v))] if given else [])
        half = ctx.flag("fp16")
        args += ["--fp16"] if half else []
        d = Draws(ctx, w)
        try:
            main.main(args, standalone_mode=False)
        finally:
            d.close()
        got = s.load()
        ctx.check(len(d.real) == layers, f"{len(d.real)} draws for {layers} layers")
        tot, seq = sum(ws), []
        for i in range(layers):
            # the layer must equal that of the model in whose share the draw falls
            acc, pick = 0.0, None
            for m, x in zip(names, ws):
                acc += x
                if pick is None and d.real[i] * tot < acc:
                    pick = m
            seq.append((pick, i))
        stacked(ctx, s, got, seq, seq[0][0], seq[-1][0])
        ctx.check({t.dtype for t in got.values()} == {torch.float16 if half else F32}, "data type")


def fully(ctx, case):
    """with full randomisation each model contributes its share of layers taken from anywhere"""
    from mergekit.scripts.layershuffle import main

    la, lb = 2, 3
    wa, wb = case
    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, "A", layers=la)
        b = Setup(ctx, w, "B", layers=lb)
        s.t["B"], s.p["B"] = b.t["B"], b.p["B"]
        out_yaml = os.path.join(w.root, "c.yml")
        dry = ctx.flag("dry run")
        ms = [("A", wa), ("B", wb)]
        if ctx.flag("B first"):
            ms.reverse()
        d = Draws(ctx, w)
        try:
            main.main([s.out, *QUIET, *(x for m, v in ms for x in ("-m", s.p[m], "-w", str(v))), "--full-random", "--write-yaml", out_yaml] + (["--dry-run"] if dry else []), standalone_mode=False)
        finally:
            d.close()
        with open(out_yaml) as f:
            c = yaml.safe_load(f)
        seq = []
        names = {p: m for m, p in s.p.items()}
        for sl in c["slices"]:
            (src,) = sl["sources"]
            a, z = src["layer_range"]
            seq += [(names[src["model"]], i) for i in range(a, z)]
        n = {m: sum(x == m for x, _ in seq) for m in "AB"}
        ctx.check(n == {"A": int(la * wa), "B": int(lb * wb)}, f"layers taken {n}")
        ctx.check(all(0 <= i < {"A": la, "B": lb}[m] for m, i in seq), f"layers exist {seq}")
        ctx.check(os.path.exists(s.out) != dry, "a dry run merges nothing")
        if not dry:
            stacked(ctx, s, s.load(), seq, seq[0][0], seq[-1][0])


def reproducible(ctx):
    """the same --random-seed gives the same shuffle"""
    from mergekit.scripts.layershuffle import main

    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, "AB", layers=3)
        seed = ctx.choice("seed", [0, 1, 5])
        full = ctx.flag("full")
        res = []
        for other in (11, 12):
            random.seed(other)
            f = os.path.join(w.root, f"{other}.yml")
            main.main([s.out, "-m", s.p["A"], "-m", s.p["B"], "-w", "1", "-w", "1", "--random-seed", str(seed), "--dry-run", "--write-yaml", f] + (["--full-random"] if full else []), standalone_mode=False)
            with open(f) as fp:
                res.append(yaml.safe_load(fp))
        ctx.check(res[0] == res[1], "same seed, same layers")


class Streams:
    """coin tosses that depend on the last seed given and on how many were tossed since, and on nothing else"""

    def __init__(self, ctx, w):
        self.ctx, self.seed, self.n, self.seen = ctx, None, 0, {}
        w._patch(torch.random, "manual_seed", self.manual_seed)
        w._patch(torch, "manual_seed", self.manual_seed)
        w._patch(torch, "bernoulli", self.bernoulli)

    def manual_seed(self, seed):
        self.seed, self.n = int(seed), 0

    def bernoulli(self, p, **kw):
        out = []
        for _ in self.ctx.elems(p):
            k = f"toss{self.seed}.{self.n}"
            if k not in self.seen:
                self.seen[k] = self.ctx.If(self.ctx.bool(k), 1.0, 0.0)
            out.append(self.seen[k])
            self.n += 1
        return self.ctx.mk_tensor(out, p.dtype).reshape(p.shape)


def seeded(ctx, method):
    """--random-seed: the same merge gives the same tensors whatever was drawn before"""
    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, "ABC", layers=1, only=["model.norm.weight"])
        seed = ctx.choice("seed", [0, 7])
        c = dict(merge_method=method, base_model=s.p["A"], dtype="float32", models=[dict(model=s.p[m], parameters=dict(weight=x, density=0.5)) for m, x in zip("BC", (0.5, 1.0))], parameters=dict(epsilon=0.1, rescale=False))
        if ctx.symbolic:
            Streams(ctx, w)
        res = []
        for other in (11, 12):
            torch.manual_seed(other)
            random.seed(other)
            res.append(mk.do_merge(w, c, random_seed=seed).tensors)
        same(ctx, *res)


def mismatched(ctx):
    """as many weights as models, or none"""
    from mergekit.scripts.layershuffle import main

    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, "AB", layers=1)
        n = ctx.choice("weights", [0, 1, 2, 3])
        full = ctx.flag("full")
        f = lambda: main.main([s.out, "-m", s.p["A"], "-m", s.p["B"], *["-w", "1"] * n, "--dry-run"] + (["--full-random"] if full else []), standalone_mode=False)
        e = ctx.raises(f)
        if n in (0, 2):
            ctx.check(e is None or (full and n == 0), f"accepted: {e!r}")
        else:
            ctx.check(e is not None, "a different number of weights is refused")


def bakllama(ctx, n):
    """legacy bakllama files: slices in order, scaled down projections, other ends"""
    from mergekit.scripts.bakllama import main

    with mk.SymWorld(ctx) as w:
        s = Setup(ctx, w, "AB", layers=2)
        seq, sc, ls = [], [], []
        for i in range(n):
            m = ctx.choice(f"model {i}", ["A", "B"])
            a, z = ctx.choice(f"layers {i}", [(0, 1), (0, 2), (1, 2)][i:])
            x = ctx.choice(f"scale {i}", [None, 0.0, 0.5] if i == 0 else [None, 2.0])
            ls.append(dict(model=s.p[m], start=a, end=z, **({} if x is None else dict(scale=x))))
            seq += [(m, j) for j in range(a, z)]
            sc += [x] * (z - a)
        emb, head = ctx.choice("embedding source", [None, "A", "B"] if n == 1 else [None, "B"]), ctx.choice("head source", [None, "B"] if n == 1 else [None])
        c = dict(layer_slices=ls, **(dict(embedding_source=s.p[emb]) if emb else {}), **(dict(lm_head_source=s.p[head]) if head else {}))
        f = os.path.join(w.root, "b.yml")
        with open(f, "w") as fp:
            yaml.dump(c, fp)
        half = ctx.flag("fp16") if n == 1 else False
        main.main([f, s.out] + (["--fp16"] if half else []) + (["--clone-tensors"] if n > 1 else []), standalone_mode=False)
        got = s.load()
        stacked(ctx, s, got, seq, emb or seq[0][0], head or seq[-1][0], sc)
        ctx.check({t.dtype for t in got.values()} == {torch.float16 if half else F32}, "data type")


OPTS = dict(branch_timeout_ms=1500, prove_timeout_ms=20000, time_s=300, keep_samples=3)
OBLIGATIONS = [
    Ob("options", options, cases=["flags", "values", "gpu"], bounds="every pair of switches on or off, every valued option with 1-4 values, device and GPU shortcuts together"),
    Ob("yaml", yaml_cli, bounds="2 models, 6 pairs of weights, file format, shard size, card and seed options"),
    Ob("legacy", legacy, cases=["linear", "ties", "slerp", "passthrough", "task_arithmetic"], bounds="2-3 models, both orders, base listed or not, 0-2 weights and densities, all other options"),
    Ob("naive_count", naive_count, bounds="one call"),
    Ob("shuffled", shuffled, cases=[("AB", 2), ("AB", 3)], tcases=[("ABC", 2), ("ABC", 3)], bounds="2 (3) models of 2-3 layers, 3 weightings, every random draw"),
    Ob("fully", fully, cases=[(0.5, 0.5), (1.0, 0.34)], tcases=[(1.0, 1.0)], bounds="models of 2 and 3 layers, 3 weightings, every random draw"),
    Ob("reproducible", reproducible, bounds="3 seeds, both modes"),
    Ob("seeded", seeded, cases=["dare_linear", "della_linear"], tcases=["dare_ties", "della"], bounds="3 models of 2-element tensors, one of them symbolic, 2 seeds, every outcome of every coin toss"),
    Ob("mismatched", mismatched, bounds="2 models, 0-3 weights"),
    Ob("bakllama", bakllama, cases=[1, 2], bounds="1-2 slices of 2 models and layers, scales, ends, fp16"),
]
