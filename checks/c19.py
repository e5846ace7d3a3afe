"""Reading checkpoints: every tensor from the right file under every layout and access order."""
import json
import os

from vsym.sched import Sched

from .lib import *

IMPORTS = ["mergekit.io.lazy_tensor_loader", "mergekit.io.loader", "mergekit.io.tasks", "mergekit.io.tensor_writer"]
OUTSIDE = "a name stored in several shard files, more than 4 tensors, 3 files or 4 accesses, the pickle layer (see C20), remote repositories"
ASSUMPTIONS = ["safetensors / torch deserialisation replaced by stand-ins that return recorded tensors"]


class Disk:
    """checkpoint files in a scratch directory (recorded tensors in symbolic mode)"""

    def __init__(self, ctx, w):
        from mergekit.io.loader import TensorLoader

        self.ctx, self.w = ctx, w
        self.dir = os.path.join(w.root, "ckpt")
        os.makedirs(self.dir, exist_ok=True)
        self.opened = []
        if ctx.symbolic:
            w._patch(TensorLoader, "get", GET0)
            real_load = torch.load

            def load(f, *a, **k):
                d = w.read(f) if isinstance(f, (str, os.PathLike)) else None
                return d if d is not None else real_load(f, *a, **k)

            w._patch(torch, "load", load)

    def put(self, name, tensors):
        p = os.path.join(self.dir, name)
        if self.ctx.symbolic:
            k = f"stub#{len(self.w.saved)}"
            self.w.saved[k] = tensors
            with open(p, "w") as f:
                f.write(k)
        elif name.endswith(".safetensors"):
            import safetensors.torch

            safetensors.torch.save_file({k: v.contiguous().clone() for k, v in tensors.items()}, p, metadata={"format": "pt"})
        else:
            torch.save(tensors, p)
        return p

    def index(self, name, weight_map):
        with open(os.path.join(self.dir, name), "w") as f:
            json.dump({"metadata": {"total_size": 1}, "weight_map": weight_map}, f)


def _grab():
    from mergekit.io.loader import TensorLoader

    return TensorLoader.__dict__["get"]


GET0 = _grab()
FILES = {"safetensors": "model{}.safetensors", "bin": "pytorch_model{}.bin"}


def lay_out(ctx, d, ts, kind, nfiles):
    """any distribution of the tensors over up to nfiles files"""
    where = {n: ctx.choice(f"file-{n}", list(range(nfiles))) for n in ts}
    name = lambda i: FILES[kind].format(f"-{i + 1:05d}-of-{nfiles:05d}")
    for i in range(nfiles):
        part = {n: t for n, t in ts.items() if where[n] == i}
        if part:
            d.put(name(i), part)
    wm = {n: name(i) for n, i in where.items()}
    d.index(FILES[kind].format("") + ".index.json", wm)
    return wm


def loader(d, lazy=False):
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader

    return LazyTensorLoader.from_disk(d.dir, lazy_unpickle=lazy)


def mkts(ctx, n, pre="t"):
    return {f"{pre}{i}": ctx.tensor(f"{pre}{i}", (i % 2 + 1,), lo=-4, hi=4) for i in range(n)}


def sequence(ctx, case):
    """any sequence of accesses, with flushes, returns each tensor's own value"""
    kind, n, nfiles, acc = case
    with mk.SymWorld(ctx) as w:
        d = Disk(ctx, w)
        ts = mkts(ctx, n)
        wm = lay_out(ctx, d, ts, kind, nfiles)
        ld = loader(d)
        ctx.check(ld.index.tensor_paths == wm, "index lists every tensor")
        ctx.check(ld.index.is_safetensors == (kind == "safetensors"), "file type")
        ctx.check({s.filename: sorted(s.contained_keys) for s in ld.index.shards} == {f: sorted(k for k in wm if wm[k] == f) for f in wm.values()}, "shards")
        ctx.check(len(ld.index.shards) == len(set(wm.values())), "shards listed once")
        for i in range(acc):
            a = ctx.choice(f"acc{i}", list(ts) + ["flush", "missing"])
            if a == "flush":
                ld.flush()
            elif a == "missing":
                ctx.check(ld.get_tensor("nope", raise_on_missing=False) is None, "missing tensor is None")
                ctx.check(isinstance(ctx.raises(lambda: ld.get_tensor("nope")), KeyError), "missing tensor is a KeyError")
            else:
                expect(ctx, ld.get_tensor(a), tuple(ts[a].shape), ctx.elems(ts[a]), a, ts[a].dtype)


def single(ctx, kind):
    """unsharded files, files without index, precedence of formats"""
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex

    with mk.SymWorld(ctx) as w:
        d = Disk(ctx, w)
        st, bn = mkts(ctx, 2, "s"), mkts(ctx, 2, "b")
        have = {k: ctx.choice(f"has-{k}", ["no", "file", "index", "both"]) for k in ("safetensors", "bin")}
        src = {"safetensors": st, "bin": bn}
        for k, h in have.items():
            one = FILES[k].format("")
            if h == "file":
                d.put(one, src[k])
            if h in ("index", "both"):
                f = FILES[k].format("-00001-of-00001")
                d.put(f, src[k])
                d.index(one + ".index.json", {n: f for n in src[k]})
            if h == "both":  # a stale unsharded file next to the index
                d.put(one, {n: t + 1 for n, t in src[k].items()})
        if set(have.values()) == {"no"}:
            ctx.check(isinstance(ctx.raises(lambda: loader(d)), RuntimeError), "no model files is an error")
            return
        k = "safetensors" if have["safetensors"] != "no" else "bin"
        ld = loader(d)
        ctx.check(sorted(ld.index.tensor_paths) == sorted(src[k]), f"tensors {sorted(ld.index.tensor_paths)}")
        for n, t in list(src[k].items())[::-1]:
            expect(ctx, ld.get_tensor(n), tuple(t.shape), ctx.elems(t), n, t.dtype)
        nm = {"safetensors": "odd.Name.SAFETENSORS" if ctx.symbolic else "odd.name.safetensors", "bin": "weights.pt"}[kind]
        nested = kind == "bin" and ctx.flag("nested")
        p = d.put(nm, {"state_dict": src[kind]} if nested else src[kind])
        ix = ShardedTensorIndex.from_file(p)
        ctx.check(ix.tensor_paths == {n: nm for n in src[kind]}, f"file index {ix.tensor_paths}")
        ctx.check(ix.is_safetensors == (kind == "safetensors"), "file type")
        ld = LazyTensorLoader(ix, lazy_unpickle=False)
        for n, t in src[kind].items():
            expect(ctx, ld.get_tensor(n), tuple(t.shape), ctx.elems(t), n, t.dtype)
        ctx.check(isinstance(ctx.raises(lambda: ShardedTensorIndex.from_file(p + "x")), FileNotFoundError), "absent file is an error")


def aliases(ctx, task):
    """the own name wins, then aliases in order, then tied names; missing is an error or None"""
    from mergekit.common import ModelReference
    from mergekit.io.tasks import LoaderCache, LoadTensor

    with mk.SymWorld(ctx) as w:
        d = Disk(ctx, w)
        names = ["own", "alias1", "alias2"] + (["tied1", "tied2"] if task else [])
        ts = {n: ctx.tensor(n, (1,), lo=-4, hi=4) for n in names + ["other"]}
        have = [n for n in names if ctx.flag(f"has-{n}")]
        files = {n: ctx.choice(f"file-{n}", [0, 1]) if n in have[:2] else 0 for n in have + ["other"]}
        for i in (0, 1):
            part = {n: ts[n] for n in have + ["other"] if files[n] == i}
            if part:
                d.put(f"model-{i + 1}.safetensors", part)
        d.index("model.safetensors.index.json", {n: f"model-{files[n] + 1}.safetensors" for n in have + ["other"]})
        opt = ctx.flag("optional")
        al = ctx.choice("aliases", [["alias1", "alias2"], ["alias2", "alias1"], [], None])
        order = ["own"] + (al or []) + (["tied1", "tied2"] if task else [])
        want = next((n for n in order if n in have), None)
        if task:
            mk.llama_config(1, 1, 1, 1, 1).save_pretrained(d.dir)
            m = ModelReference.model_validate(d.dir)
            LoaderCache().loaders.clear()
            t = LoadTensor(model=m, tensor="own", aliases=tuple(al) if al is not None else None, tied_names=("tied1", "tied2"), optional=opt, dtype=ctx.choice("dt", [None, "float16"]))
            f = t.execute
            ctx.check(t.group_label() == want, "grouped by the stored name")
        else:
            ld = loader(d)
            if ctx.flag("warm"):
                ld.get_tensor("other")
            f = lambda: ld.get_tensor("own", aliases=al, raise_on_missing=not opt)
        if want is None and not opt:
            ctx.check(ctx.raises(f) is not None, "missing tensor is an error")
            return
        r = f()
        if want is None:
            ctx.check(r is None, "missing optional tensor is None")
        else:
            dt = torch.float16 if task and t.dtype else torch.float32
            expect(ctx, r, (1,), ctx.elems(ts[want]), f"read {want}", dt)


def concurrent(ctx, case):
    """two threads reading through one loader get their own tensors, under every interleaving"""
    import mergekit.io.lazy_tensor_loader as ltl

    lines, delays, warm = case
    with mk.SymWorld(ctx) as w:
        d = Disk(ctx, w)
        ts = mkts(ctx, 3)
        lay = {"t0": "model-1.safetensors", "t1": "model-2.safetensors", "t2": "model-1.safetensors"}
        for f in sorted(set(lay.values())):
            d.put(f, {n: ts[n] for n in ts if lay[n] == f})
        d.index("model.safetensors.index.json", lay)
        got = {}
        with Sched(ctx, lines=("lazy_tensor_loader.py",) if lines else (), delays=delays) as s:
            s.patch(ltl)
            ld = loader(d)
            if warm:
                ld.get_tensor("t0")
            jobs = [["t0", "t1"], ["t1", "t2"]]

            def work(i):
                for n in jobs[i]:
                    got[i, n] = ld.get_tensor(n)
                    if ctx_flush and i == 1:
                        ld.flush()

            ctx_flush = ctx.flag("flush")
            th = [s.spawn(lambda i=i: work(i), "reader") for i in (0, 1)]
            s.wait(lambda: all(t.done for t in th))
        for (i, n), t in got.items():
            expect(ctx, t, tuple(ts[n].shape), ctx.elems(ts[n]), f"thread {i} {n}", ts[n].dtype)
        ctx.check(len(got) == 4, "all reads done")


def roundtrip(ctx, case):
    """what the writer stores the loader returns, for every shard size limit"""
    n, safe = case
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader
    from mergekit.io.tensor_writer import TensorWriter

    with mk.SymWorld(ctx) as w:
        d = Disk(ctx, w)
        ts = mkts(ctx, n)
        tw = TensorWriter(d.dir, max_shard_size=ctx.int("limit", -1, 40), safe_serialization=safe)
        for k, t in ts.items():
            tw.save_tensor(k, t)
        tw.finalize()
        ld = loader(d)
        ctx.check(sorted(ld.index.tensor_paths) == sorted(ts), "same names")
        for k in (list(ts) if ctx.flag("forward") else list(ts)[::-1]):
            expect(ctx, ld.get_tensor(k), tuple(ts[k].shape), ctx.elems(ts[k]), k, ts[k].dtype)


def cache(ctx):
    """loaders are kept per model and flushing loses nothing"""
    from mergekit.common import ModelReference
    from mergekit.io.tasks import GatherTensors, LoaderCache
    from mergekit.architecture import WeightInfo
    from mergekit.common import ImmutableMap
    from mergekit.graph import Executor

    with mk.SymWorld(ctx) as w:
        refs, ts = {}, {}
        for k in "AB":
            ts[k] = {n: ctx.tensor(f"{k}{n}", (1,), lo=-4, hi=4) for n in ("x", "y")}
            drop = ctx.flag(f"lacks-{k}")
            p = w.add_model(k, mk.llama_config(1, 1, 1, 1, 1), {n: t for n, t in ts[k].items() if not (drop and n == "x")} )
            ts[k]["drop"] = drop
            refs[k] = ModelReference.model_validate(p)
        LoaderCache().loaders.clear()
        order = ctx.choice("order", ["AB", "BA"])
        names = {k: ctx.choice(f"name-{k}", ["x", "y"]) for k in "AB"}
        g = GatherTensors(weight_info=ImmutableMap(data={refs[k]: WeightInfo(name=names[k], optional=True) for k in order}), dtype=None)
        for rnd in range(2):
            (r,) = [v for _, v in Executor([g]).run(quiet=True)]
            want = [k for k in order if not (names[k] == "x" and ts[k]["drop"])]
            ctx.check(list(r) == [refs[k] for k in want], "present models in listing order")
            for k in want:
                expect(ctx, r[refs[k]], (1,), ctx.elems(ts[k][names[k]]), f"{k} {names[k]}", torch.float32)
            if ctx.flag("flush"):
                LoaderCache().flush_all()
        ctx.check(LoaderCache().get(refs["A"]) is LoaderCache().get(refs["A"]), "loader reused")


OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=300, keep_samples=3, max_paths=200000)
OBLIGATIONS = [
    Ob("sequence", sequence, cases=[("safetensors", 3, 2, 3), ("bin", 3, 2, 3), ("safetensors", 2, 3, 3)], tcases=[("safetensors", 4, 2, 4)], bounds="2-4 tensors over up to 3 files, every sequence of 3 (4) accesses, flushes and misses, every value"),
    Ob("single", single, cases=["safetensors", "bin"], bounds="every combination of plain file, index and stale file for both formats; direct files"),
    Ob("aliases", aliases, cases=[False, True], bounds="every subset of own name, two aliases and two tied names, two files, optional or not"),
    Ob("concurrent", concurrent, cases=[(1, 1, False), (1, 1, True), (0, 3, False)], tcases=[(1, 2, True)], bounds="two threads with two reads each, two files, every schedule with one (2) deviation at any line or 3 at locks"),
    Ob("roundtrip", roundtrip, cases=[(3, True), (3, False)], tcases=[(5, True)], bounds="3 (5) tensors, every shard size limit, both formats"),
    Ob("cache", cache, bounds="two models, a tensor missing from either, both listing orders, with and without flush"),
]
