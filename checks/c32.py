"""fill_missing_params: the larger model with the submodel's weights put in place."""
import os
import re

from .lib import *

IMPORTS = ["mergekit.scripts.fill_missing_params"]
OUTSIDE = "hub downloads, ties between prefixes that explain equally many names, shared names with different shapes, pickled inputs, more than 5 tensors"
ASSUMPTIONS = ["checkpoint reader and writer replaced by an in-memory store"]

# names of the larger model, names of the submodel, prefix that explains the most names
LAYOUTS = {
    "prefixed": (["lm.embed.weight", "lm.l.0.weight", "vision.l.0.weight", "proj.weight", "lm.head.weight"], ["embed.weight", "l.0.weight", "head.weight"], "lm."),
    "same names": (["embed.weight", "l.0.weight", "l.1.weight", "head.weight"], ["l.0.weight", "head.weight"], ""),
    "decoy": (["lm.a.weight", "lm.b.weight", "a.weight", "vision.a.weight"], ["a.weight", "b.weight"], "lm."),
    "most decides": (["lm.a.weight", "a.weight", "b.weight", "c"], ["a.weight", "b.weight"], ""),
    "own prefix kept": (["lm.a.weight", "lm.b.weight", "vision.a.weight"], ["lm.a.weight"], ""),
    "extra in submodel": (["lm.a.weight", "lm.b.weight", "lm.c.weight", "vision.a.weight"], ["a.weight", "b.weight", "rope.freq"], "lm."),
    "nested": (["lm.model.a.weight", "lm.model.lm.a.weight", "lm.head.weight"], ["model.a.weight", "head.weight"], "lm."),
    "nothing shared": (["lm.a.weight", "vision.b.weight"], ["z.weight"], ""),
    "similar prefix": (["lm.b.weight", "lm_a.weight", "lm_c.weight", "v.a.weight", "v.c.weight"], ["a.weight", "b.weight", "c.weight"], "v."),
    "longer prefix": (["lm.b.weight", "lmx.a.weight", "lmx.c.weight", "v.x"], ["a.weight", "b.weight", "c.weight"], "lmx."),
    "repeated prefix": (["lm.lm.a.weight", "lm.b.weight", "v.x"], ["lm.a.weight", "b.weight"], "lm."),
}
SHAPES = [(2,), (1, 2), (2, 1)]


def shape(n):
    return SHAPES[len(n) % 3] if not n.endswith("x") else (1,)


class Setup:
    def __init__(self, ctx, w, base_names, sub_names, prefix, base_shards=1, sub_shards=1, orders=(False, False), base="big model.v1", sub="sub"):
        self.w = w
        base_names = base_names[::-1] if orders[0] else base_names
        sub_names = sub_names[::-1] if orders[1] else sub_names
        self.base = {n: ctx.tensor(f"B:{n}", shape(n)) for n in base_names}
        self.sub = {}
        for n in sub_names:
            sh = shape(prefix + n)
            self.sub[n] = ctx.tensor(f"S:{n}", sh)
        lay = lambda names, k: {f"model-{i + 1:05d}-of-{k:05d}.safetensors": list(names)[i::k] for i in range(k)} if k > 1 else None
        self.files = {"config.json": '{"x": 1}', "tokenizer.json": "tok", "notes.txt": "n"}
        self.bp = w.add_model(base, None, self.base, shards=lay(self.base, base_shards), files=self.files)
        os.makedirs(os.path.join(self.bp, "original", "deep"))
        for f in ("original/a.py", "original/deep/b.md"):
            with open(os.path.join(self.bp, f), "w") as fp:
                fp.write(f)
            self.files[f] = f
        self.sp = w.add_model(sub, None, self.sub, shards=lay(self.sub, sub_shards), files={"config.json": "submodel", "other.txt": "s"})
        self.want = {n: self.sub.get(n[len(prefix):]) if n.startswith(prefix) else None for n in self.base}
        for n in self.want:
            if self.want[n] is None:
                self.want[n] = self.base[n]


def snapshot(path):
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, path)] = fp.read()
    return out


def call(ctx, w, args):
    """the command line tool"""
    from mergekit.scripts import fill_missing_params as m

    m.main.main([str(a) for a in args], standalone_mode=False)


def verify(ctx, s, out, files=True, parts=None):
    got, layout, idx = s.w.load_output(out)
    ctx.check(set(got) == set(s.want), f"tensors {sorted(set(got) ^ set(s.want))}")
    for n, t in s.want.items():
        expect(ctx, got[n], tuple(t.shape), ctx.elems(t), n, F32)
    if len(layout) > 1:
        ctx.check(idx is not None, "index for a sharded output")
    if idx is not None and len(layout) > 1:
        ctx.check(idx["weight_map"] == {n: f for f, ns in layout.items() for n in ns}, "index describes the files")
    if parts is not None:
        ctx.check((len(layout) > 1) == parts, f"{len(layout)} files")
    if files:
        for f, txt in s.files.items():
            p = os.path.join(out, f)
            ctx.check(os.path.exists(p), f"{f} copied")
            with open(p) as fp:
                ctx.check(fp.read() == txt, f"{f} copied")
        ctx.check(not os.path.exists(os.path.join(out, "other.txt")), "files of the submodel stay out")


def filled(ctx, case):
    """shared tensors come from the submodel, all others from the larger model"""
    with mk.SymWorld(ctx) as w:
        b, n, p = LAYOUTS[case]
        s = Setup(ctx, w, b, n, p, orders=(ctx.flag("base reversed"), ctx.flag("sub reversed")))
        out = os.path.join(w.root, "made")
        call(ctx, w, [s.bp, s.sp, "--output_dir", out])
        verify(ctx, s, out)


def sharded(ctx):
    """inputs and output in one file or several, inputs left as they were"""
    with mk.SymWorld(ctx) as w:
        b, n, p = LAYOUTS["prefixed"]
        s = Setup(ctx, w, b, n, p, base_shards=ctx.choice("base shards", [1, 2, 3]), sub_shards=ctx.choice("sub shards", [1, 2]))
        small = ctx.choice("max_shard_size", [None, 8, 16, 10**6])
        before = snapshot(s.bp), snapshot(s.sp)
        out = os.path.join(w.root, "x", "made")
        call(ctx, w, [s.bp, s.sp, "--output_dir", out] + ([] if small is None else ["--max_shard_size", small]))
        verify(ctx, s, out, parts=small in (8, 16))
        if small in (8, 16):
            for ns in w.load_output(out)[1].values():
                sz = sum(4 * s.want[x].numel() for x in ns)
                ctx.check(sz <= small or len(ns) == 1, f"file of {sz} bytes with limit {small}")
        ctx.check((snapshot(s.bp), snapshot(s.sp)) == before, "inputs are left as they were")


def default_dir(ctx):
    """without --output_dir the result lies beside the submodel, named after both"""
    with mk.SymWorld(ctx) as w:
        b, n, p = LAYOUTS["same names"]
        bn, sn = ctx.choice("base", ["big", "Big-7.1B"]), ctx.choice("sub", ["sub", "merge.v2"])
        s = Setup(ctx, w, b, n, p, base=bn, sub=sn)
        have = set(os.listdir(w.root))
        call(ctx, w, [s.bp, s.sp])
        new = set(os.listdir(w.root)) - have
        stem = lambda x: x.rsplit(".", 1)[0]
        ctx.check(new == {f"{stem(bn)}--{stem(sn)}"}, f"output {new}")
        verify(ctx, s, os.path.join(w.root, new.pop()))


def refused(ctx):
    """a submodel that is not smaller than the model to fill is refused"""
    with mk.SymWorld(ctx) as w:
        names = ["a.weight", "b.weight", "c.weight"]
        nb, ns = ctx.choice("base tensors", [1, 2, 3]), ctx.choice("sub tensors", [1, 2, 3])
        s = Setup(ctx, w, names[:nb], names[:ns], "")
        out = os.path.join(w.root, "made")
        e = ctx.raises(lambda: call(ctx, w, [s.bp, s.sp, "--output_dir", out]))
        if nb > ns:
            ctx.check(e is None, f"accepted: {e!r}")
            verify(ctx, s, out)
        else:
            ctx.check(e is not None, "refused")
            ctx.check(not os.path.exists(out) or not [f for f in os.listdir(out) if f.endswith(".safetensors")], "no weights written")


OPTS = dict(time_s=150, keep_samples=3)
OBLIGATIONS = [
    Ob("filled", filled, cases=list(LAYOUTS), bounds="11 layouts of 2-5 tensors of 1-2 symbolic elements, both storage orders of each model"),
    Ob("sharded", sharded, bounds="1-3 input files, 1-2 submodel files, 4 output shard sizes"),
    Ob("default_dir", default_dir, bounds="names with and without dots"),
    Ob("refused", refused, bounds="1-3 tensors in each model"),
]
