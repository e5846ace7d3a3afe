"""Writing checkpoints: shards, index and file names, synchronous and threaded."""
import json
import os

from vsym.sched import Sched

from .lib import *

IMPORTS = ["mergekit.io.tensor_writer", "mergekit.io.tasks"]
OUTSIDE = "more than 5 tensors, saving one name twice, killing the process during a write, schedules further from the default than stated"
ASSUMPTIONS = ["safetensors / torch serialisation replaced by stand-ins that record the tensors", "threads are cooperative ones switched by the solver"]
BYTES = {torch.float32: 4, torch.float16: 2, torch.int64: 8}


def tensors(ctx, n, sizes=(1, 3)):
    """n named tensors of solver-chosen sizes and mixed types -> ({name: tensor}, {name: bytes})"""
    ts, nb = {}, {}
    for i in range(n):
        k = ctx.choice(f"size{i}", list(sizes))
        dt = torch.float16 if i % 2 else torch.float32
        ts[f"t{i}"] = ctx.tensor(f"t{i}", (k,) if i != 2 else (1, k), dt, lo=-4, hi=4)
        nb[f"t{i}"] = k * BYTES[dt]
    return ts, nb


def verify(ctx, w, out, ts, nb, limit, base, ext, greedy=True):
    """everything on disk: layout, index, values"""
    got, layout, idx = w.load_output(out, base, ext)
    files = sorted(os.listdir(out))
    ctx.check("__dup__" not in got, f"tensors stored twice {got.get('__dup__')}")
    ctx.check(set(got) == set(ts), f"stored {sorted(got)}")
    for n, t in ts.items():
        expect(ctx, got[n], tuple(t.shape), ctx.elems(t), n, t.dtype)
    k = len(layout)
    if not ts:
        return ctx.check(k == 0, "no shards")
    if k == 1:
        ctx.check(files == [f"{base}.{ext}"], f"single file {files}")
    else:
        want = [f"{base}-{i + 1:05d}-of-{k:05d}.{ext}" for i in range(k)]
        ctx.check(files == sorted(want + [f"{base}.{ext}.index.json"]), f"files {files}")
        ctx.check(idx["weight_map"] == {n: f for f, ns in layout.items() for n in ns}, f"index {idx['weight_map']} files {layout}")
        ctx.check(idx["metadata"]["total_size"] == sum(nb.values()), f"total size {idx['metadata']['total_size']}")
    sizes = [sum(nb[n] for n in layout[f]) for f in sorted(layout)]
    for f, s in zip(sorted(layout), sizes):
        if len(layout[f]) > 1:
            ctx.check(ctx.Or(limit <= 0, limit >= s), f"{f} holds {s} bytes")
    if greedy:
        order = [n for f in sorted(layout) for n in layout[f]]
        ctx.check(order == list(ts), f"order {order}")
        fs = sorted(layout)
        for i in range(len(fs) - 1):
            ctx.check(ctx.And(limit > 0, sizes[i] + nb[layout[fs[i + 1]][0]] > limit), f"{fs[i + 1]} started although the tensor fits")


def writer(ctx, out, **kw):
    from mergekit.io.tensor_writer import TensorWriter

    return TensorWriter(out, **kw)


def shards(ctx, case):
    """splitting into shards for every size limit"""
    n, safe, name = case
    with mk.SymWorld(ctx) as w:
        out = os.path.join(w.root, "out")
        ts, nb = tensors(ctx, n)
        limit = ctx.int("limit", -1, 40)
        tw = writer(ctx, out, max_shard_size=limit, safe_serialization=safe, override_basename=name)
        cl = ctx.flag("clone")
        if ctx.flag("with"):
            with tw:
                for k, t in ts.items():
                    tw.save_tensor(k, t, clone=cl)
        else:
            for k, t in ts.items():
                tw.save_tensor(name=k, tensor=t)
            tw.finalize()
        verify(ctx, w, out, ts, nb, limit, name or ("model" if safe else "pytorch_model"), "safetensors" if safe else "bin")


def overwrites(ctx, safe):
    """written over an earlier checkpoint of that format, the directory reads as the new one in every reader"""
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader

    base, ext = ("model", "safetensors") if safe else ("pytorch_model", "bin")
    with mk.SymWorld(ctx) as w:
        out = os.path.join(w.root, "out")
        n0, n1 = ctx.choice("tensors before", [0, 1, 3]), ctx.choice("tensors", [1, 2, 3])
        for tag, n in (("old", n0), ("new", n1)):
            ts = {f"t{i}": ctx.tensor(f"{tag}{i}", (2,), lo=-4, hi=4) for i in range(n)}
            tw = writer(ctx, out, max_shard_size=ctx.int(f"{tag} limit", 1, 30), safe_serialization=safe)
            for k, t in ts.items():
                tw.save_tensor(k, t)
            if n:
                tw.finalize()
        whole, idx = os.path.join(out, f"{base}.{ext}"), os.path.join(out, f"{base}.{ext}.index.json")
        for reader in ("mergekit", "single file first", "index first"):
            if reader == "mergekit":
                ld = LazyTensorLoader.from_disk(out, lazy_unpickle=False)
                got = {k: ld.get_tensor(k) for k in ld.index.tensor_paths}
            else:
                single = os.path.exists(whole) and (reader == "single file first" or not os.path.exists(idx))
                if single:
                    files = [f"{base}.{ext}"]
                else:
                    with open(idx) as f:
                        files = sorted(set(json.load(f)["weight_map"].values()))
                got = {}
                for f in files:
                    got.update(stored(ctx, w, os.path.join(out, f)))
            ctx.check(set(got) == set(ts), f"{reader}: tensors {sorted(got)}")
            for k, t in ts.items():
                expect(ctx, got[k], (2,), ctx.elems(t), f"{reader}: {k}", t.dtype)


def stored(ctx, w, path):
    if ctx.symbolic:
        return w.read(path)
    if path.endswith(".bin"):
        return torch.load(path, weights_only=True)
    import safetensors.torch

    return safetensors.torch.load_file(path)


def views(ctx, safe):
    """views, transposed and shared tensors are stored with their own values"""
    with mk.SymWorld(ctx) as w:
        out = os.path.join(w.root, "out")
        a = ctx.tensor("a", (2, 3), lo=-4, hi=4)
        ts = {"a": a, "t": a.t(), "same": a, "row": a[1], "col": a[:, 1:]}
        ts = {k: v for k, v in ts.items() if ctx.flag("use-" + k)}
        ctx.assume(bool(ts))
        tw = writer(ctx, out, max_shard_size=ctx.choice("limit", [1000, 24]), safe_serialization=safe)
        for k, t in ts.items():
            tw.save_tensor(k, t, clone=ctx.flag(f"clone-{k}") if k in ("a", "same") else False)
        if ctx.symbolic:
            share(w)
        tw.finalize()
        verify(ctx, w, out, ts, {k: t.numel() * 4 for k, t in ts.items()}, 1000, "model" if safe else "pytorch_model", "safetensors" if safe else "bin", False) if tw.max_shard_size == 1000 else None
        got, _, _ = w.load_output(out, "model" if safe else "pytorch_model", "safetensors" if safe else "bin")
        for n, t in ts.items():
            expect(ctx, got[n], tuple(t.shape), ctx.elems(t), n, t.dtype)


def share(w):
    """the stand-in refuses aliased tensors the way safetensors does"""
    import safetensors.torch

    real = safetensors.torch.save_file

    def save_file(tensors, filename, metadata=None):
        if len({id(t) for t in tensors.values()}) != len(tensors):
            raise RuntimeError("Some tensors share memory, this will lead to duplicate memory on disk")
        return real(tensors, filename, metadata)

    w._patch(safetensors.torch, "save_file", save_file)


def threads(ctx, case):
    """background writing and several producers, every interleaving"""
    producers, workers, lines, delays, limit = case
    import mergekit.io.tensor_writer as tw_mod

    with mk.SymWorld(ctx) as w:
        out = os.path.join(w.root, "out")
        n = 4
        ts = {f"t{i}": ctx.tensor(f"t{i}", (i % 2 + 1,), lo=-4, hi=4) for i in range(n)}
        nb = {f"t{i}": 4 * (i % 2 + 1) for i in range(n)}
        with Sched(ctx, lines=("tensor_writer.py",) if lines else (), delays=delays) as s:
            s.patch(tw_mod)
            tw = writer(ctx, out, max_shard_size=limit, use_async=workers > 0, max_write_threads=max(workers, 1))
            if producers == 1:
                for k, t in ts.items():
                    tw.save_tensor(k, t)
            else:
                names = list(ts)
                th = [s.spawn(lambda p=p: [tw.save_tensor(k, ts[k]) for k in names[p::producers]], "producer") for p in range(producers)]
                s.wait(lambda: all(t.done for t in th))
            tw.finalize()
            ctx.check(all(t.done for t in s.ts[1:] if t.name.startswith("producer")), "producers done")
        verify(ctx, w, out, ts, nb, limit, "model", "safetensors", producers == 1)


def failure(ctx, case):
    """a shard that cannot be written is reported, whichever it is"""
    workers, delays = case
    import mergekit.io.tensor_writer as tw_mod
    import safetensors.torch

    with mk.SymWorld(ctx) as w:
        out = os.path.join(w.root, "out")
        ts = {f"t{i}": ctx.tensor(f"t{i}", (1,), lo=-4, hi=4) for i in range(3)}
        bad = ctx.choice("bad", list(ts))
        kind = ctx.choice("kind", [OSError("disk full"), RuntimeError("cannot write"), RuntimeError()])
        real = safetensors.torch.save_file

        def save_file(tensors, filename, metadata=None):
            if bad in tensors:
                raise kind
            return real(tensors, filename, metadata)

        w._patch(safetensors.torch, "save_file", save_file)
        with Sched(ctx, delays=delays) as s:
            s.patch(tw_mod)

            def go():
                tw = writer(ctx, out, max_shard_size=4, use_async=workers > 0, max_write_threads=max(workers, 1))
                for k, t in ts.items():
                    tw.save_tensor(k, t)
                tw.finalize()

            e = ctx.raises(go)
        ctx.check(e is kind, f"error reported, got {e!r}")
        ctx.check(not os.path.exists(os.path.join(out, "model.safetensors.index.json")), "no index for an incomplete model")


def options(ctx, case):
    """merge options reach the writer; a whole merge writes what was asked for"""
    import mergekit.io.tensor_writer as tw_mod
    from mergekit.io.tensor_writer import TensorWriter

    with mk.SymWorld(ctx) as w:
        ts = mk.llama_tensors(ctx, "A", 1)
        p = w.add_model("A", mk.llama_config(1, 1, 1, 1, 1), ts)
        limit = ctx.choice("limit", [8, 12, 1000])
        asy, nth, safe = ctx.flag("async"), ctx.choice("threads", [1, 3]), ctx.flag("safetensors")
        seen = []
        real = TensorWriter.__init__

        def init(self, *a, **k):
            real(self, *a, **k)
            seen.append(self)

        w._patch(TensorWriter, "__init__", init)
        with Sched(ctx, delays=0) as s:
            s.patch(tw_mod)
            r = mk.do_merge(w, {"merge_method": "passthrough", "models": [{"model": p}], "dtype": "float32"}, out_shard_size=limit, async_write=asy, write_threads=nth, safe_serialization=safe)
            ctx.check({f.split(".")[1] for f in os.listdir(r.path) if f.split("-")[0].split(".")[0] in ("model", "pytorch_model")} == {"safetensors" if safe else "bin"}, f"file format: {sorted(os.listdir(r.path))}")
            ctx.check(len(seen) == 1, "one writer")
            if asy:
                ctx.check(seen[0]._executor.max == nth, "number of writer threads")
            ctx.check(seen[0].use_async == asy, "async as asked")
        nb = {k: t.numel() * 4 for k, t in ts.items()}
        ts2 = {n: ts[n] for f in sorted(r.layout) for n in r.layout[f]}
        ctx.check(set(ts2) == set(ts), "all tensors")
        for f in r.layout:
            ctx.check(len(r.layout[f]) == 1 or sum(nb[n] for n in r.layout[f]) <= limit, f"{f} too large")
        if len(r.layout) > 1:
            ctx.check(r.index["weight_map"] == {n: f for f, ns in r.layout.items() for n in ns}, "index")
        for n, t in ts.items():
            expect(ctx, r.tensors[n], tuple(t.shape), ctx.elems(t), n, t.dtype)


def optional(ctx):
    """a missing required value is an error; a missing optional one is left out"""
    from mergekit.graph import Executor, Task
    from mergekit.io.tasks import FinalizeModel, SaveTensor, TensorWriterTask

    with mk.SymWorld(ctx) as w:
        out = os.path.join(w.root, "out")
        vals = {k: (ctx.tensor(k, (1,), lo=-4, hi=4) if ctx.flag(f"has-{k}") else None) for k in ("a", "b")}
        opt = {k: ctx.flag(f"opt-{k}") for k in vals}
        dt = ctx.choice("dtype", [None, "float16"])

        class V(Task):
            k: str

            def arguments(self):
                return {}

            def execute(self):
                return vals[self.k]

        wt = TensorWriterTask(out_path=out, max_shard_size=1000)
        saves = tuple(SaveTensor(tensor_name=k, tensor_task=V(k=k), writer_task=wt, clone=False, optional=opt[k], dtype=dt) for k in vals)
        fin = FinalizeModel(tensor_save_tasks=saves, writer_task=wt)
        e = ctx.raises(lambda: [None for _ in Executor([fin]).run(quiet=True)])
        if any(vals[k] is None and not opt[k] for k in vals):
            ctx.check(isinstance(e, RuntimeError), f"missing required tensor refused, got {e!r}")
            return
        ctx.check(e is None, f"no error, got {e!r}")
        got, _, _ = w.load_output(out)
        ctx.check(set(got) == {k for k in vals if vals[k] is not None}, f"stored {sorted(got)}")
        for k, t in got.items():
            expect(ctx, t, (1,), ctx.elems(vals[k]), k, torch.float16 if dt else torch.float32)


OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=300, keep_samples=3, max_paths=200000)
OBLIGATIONS = [
    Ob("shards", shards, cases=[(4, True, None), (3, False, None), (3, True, "custom"), (1, True, None), (0, True, None)], tcases=[(5, True, None)], bounds="0-4 (5) tensors of one or three elements and two types, every shard size limit from -1 to 40 bytes, every value"),
    Ob("overwrites", overwrites, cases=[True, False], bounds="0, 1 or 3 earlier and 1-3 new tensors, every limit from 1 to 30 bytes for both, three ways of reading"),
    Ob("views", views, cases=[True, False], bounds="plain, transposed, sliced and shared tensors in every combination"),
    Ob("threads", threads, cases=[(1, 1, 1, 1, 8), (1, 2, 0, 2, 8), (2, 0, 1, 1, 8), (2, 2, 0, 2, 8), (2, 1, 1, 1, 12)], tcases=[(1, 2, 0, 3, 8), (2, 0, 1, 2, 8), (1, 2, 1, 2, 8), (2, 2, 0, 3, 4)],
       bounds="1-2 producers, 0-2 writer threads, 4 tensors, every schedule with one (2) deviation at any line of the writer or 2-3 at synchronisation points"),
    Ob("failure", failure, cases=[(0, 0), (1, 1), (2, 2)], bounds="any of three shards failing with three kinds of error, 0-2 writer threads"),
    Ob("options", options, cases=[0], bounds="1 layer llama, 3 shard limits, asynchronous or not, 1 or 3 threads, both formats, every value"),
    Ob("optional", optional, bounds="two tensors, present or not, optional or not, with and without dtype"),
]
