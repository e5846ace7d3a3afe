"""Lazy reading of PyTorch pickles gives the tensors torch.load gives."""
import io
import os
import pickle
import types
import zipfile

from .lib import *

IMPORTS = ["mergekit.io.lazy_unpickle", "mergekit.io.loader"]
OUTSIDE = "tensor types torch.save does not store as plain v2 tensors (float8, unsigned 16-64 bit), complex numbers, parameters, quantised tensors"
ASSUMPTIONS = ["addresses unit: storage and file objects are stand-ins that record byte ranges", "reader unit: the zip archive is a stand-in with symbolic positions"]
TYPES = [torch.float32, torch.float64, torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8, torch.bool]


class Storage:
    device = "cpu"

    def __init__(self, start, n):
        self.start, self.n = start, n


class Fake:
    """records how the tensor is laid over the storage"""

    def set_(self, storage, offset=0, size=(), stride=()):
        self.storage, self.offset, self.size, self.strides = storage, offset, tuple(size), tuple(stride)
        return self


class File:
    def __init__(self, name, log):
        self.name, self.pos, self.log, self.closed = name, 0, log, False

    def tell(self):
        assert not self.closed
        return self.pos

    def seek(self, n, whence=0):
        assert not self.closed
        self.pos = n if whence == 0 else self.pos + n
        return self.pos

    def read(self, n=-1):
        assert not self.closed
        self.log.append((self.name, self.pos, n))
        r = Storage(self.pos, n)
        self.pos = self.pos + n
        return r

    def close(self):
        self.closed = True


def addresses(ctx, case):
    """every element comes from its own bytes, for every offset, shape and stride"""
    import mergekit.io.lazy_unpickle as lu

    nd, dt = case
    dt = getattr(torch, dt)
    size = torch.empty(0, dtype=dt).element_size()
    shape = tuple(ctx.int(f"n{i}", 1, 6) for i in range(nd))
    stride = tuple(ctx.int(f"s{i}", 0, 12) for i in range(nd))
    off = ctx.int("offset", 0, 50)
    idx = tuple(ctx.int(f"i{i}", 0, 5) for i in range(nd))
    for i, n in zip(idx, shape):
        ctx.assume(i < n)
    load = lu.LazyTorchUnpickler(io.BytesIO(b"")).persistent_load(("storage", dt if ctx.flag("dtype") else getattr(torch, {"float32": "FloatStorage", "bfloat16": "BFloat16Storage", "int64": "LongStorage", "bool": "BoolStorage"}[str(dt)[6:]]), "key7", "cpu", 400))
    load = lu.DeferredLoad.rebuild(load, off, shape, stride)
    at = ssum(i * s for i, s in zip(idx, stride)) if nd else 0
    if ctx.symbolic:
        log, undo = [], []

        def patch(o, n, v):
            undo.append((o, n, o.__dict__.get(n, getattr(o, n))))
            setattr(o, n, v)

        class Untyped:
            @staticmethod
            def from_buffer(buf, order, dtype=None, **k):
                ctx.check(dtype == dt, "storage type")
                return buf

        try:
            patch(torch, "UntypedStorage", Untyped)
            patch(torch.serialization, "_get_restore_location", lambda loc: (lambda st, location: st))
            patch(torch, "tensor", lambda *a, **k: Fake())
            t = load.execute(types.SimpleNamespace(open_file=lambda file_name, offset=0: opened(log, file_name, offset)))
        finally:
            for o, n, v in reversed(undo):
                setattr(o, n, v)
        ctx.check(log[0][0] == "key7", "storage file")
        ctx.check(len(t.size) == nd and len(t.strides) == nd, "rank")
        for a, b, i, s in zip(t.size, shape, idx, t.strides):
            ctx.check(a == b, "shape kept")
        got = t.storage.start + size * (t.offset + ssum(i * s for i, s in zip(idx, t.strides)) if nd else t.offset)
        ctx.check(got == size * (off + at), "element address")
        ctx.check(ctx.And(got >= t.storage.start, got + size <= t.storage.start + t.storage.n), "element inside the bytes read")
    else:
        n = 50 + 1 + 5 * 12 * 3 + 8
        full = (torch.arange(n) % (2 if dt == torch.bool else 100)).to(dt)
        raw = bytes(full.view(torch.uint8).numpy().tobytes())

        def open_file(file_name, offset=0):
            f = io.BytesIO(raw)
            f.seek(offset)
            return f

        t = load.execute(types.SimpleNamespace(open_file=open_file))
        ctx.check(t.dtype == dt and tuple(t.shape) == shape, "type and shape")
        ctx.check(t[idx].item() == full[off + at].item(), "element value")


def opened(log, name, off):
    f = File(name, log)
    f.pos = off
    return f


def reader(ctx, n):
    """every sequence of reads starts at the requested byte of the requested file"""
    import mergekit.io.lazy_unpickle as lu

    log, opens = [], []
    prefix = ctx.choice("prefix", ["archive", "pytorch_model"])

    class Zip:
        def __init__(self, path, mode="r"):
            pass

        def open(self, name, mode="r"):
            if not name.startswith(prefix + "/data/"):
                raise KeyError(name)
            opens.append(File(name, log))
            return opens[-1]

    real = zipfile.ZipFile
    lu.zipfile.ZipFile = Zip
    try:
        r = lu.TorchArchiveReader("/some/where/pytorch_model.bin")
        for i in range(n):
            k = ctx.choice(f"file{i}", ["0", "1"])
            off, ln = ctx.int(f"off{i}", 0, 1000), ctx.int(f"len{i}", 0, 100)
            f = r.open_file(file_name=k, offset=off)
            f.read(ln)
            name, pos, m = log[-1]
            ctx.check(name == f"{prefix}/data/{k}", f"file {name}")
            ctx.check(pos == off, "position")
            ctx.check(m == ln, "length")
            ctx.check(sum(not o.closed for o in opens) == 1, "one open file")
    finally:
        lu.zipfile.ZipFile = real


def files(ctx, case):
    """whole files: views of shared storages, every type, any access order, against the original tensors"""
    from mergekit.io.loader import LazyPickleLoader, TensorLoader

    dt = ctx.choice("dtype", [getattr(torch, t) for t in case])
    shape, stride, off = ctx.choice("view", [((), (), 3), ((4,), (1,), 0), ((4,), (2,), 1), ((2, 3), (3, 1), 2), ((3, 2), (1, 3), 2), ((2, 2), (4, 1), 3), ((3,), (0,), 5), ((0, 2), (2, 1), 0), ((2, 1, 2), (2, 2, 1), 1)])
    share, nest = ctx.flag("shared"), ctx.choice("container", ["dict", "ordered", "state_dict"])
    order = ctx.choice("order", [("a", "b", "c", "a"), ("c", "b", "a", "b"), ("b", "a", "c", "c")])

    def go():
        root = mk.fresh_dir("pkl")
        base = (torch.arange(12) * 3 % (2 if dt == torch.bool else 100)).to(dt)
        other = base if share else (torch.arange(6) + 50).to(dt)
        d = {"a": torch.as_strided(base, shape, stride, off), "b": other[2:5], "c": base.reshape(3, 4).t()}
        want = {k: v.clone() for k, v in d.items()}
        import collections

        obj = collections.OrderedDict(d) if nest == "ordered" else d
        p = os.path.join(root, "pytorch_model.bin")
        torch.save({"state_dict": obj, "epoch": 3} if nest == "state_dict" else obj, p)
        before = (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor)
        ld = TensorLoader.get(p, use_lazy_unpickle=True)
        lazy = isinstance(ld, LazyPickleLoader)
        clean = before == (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor)
        res = []
        for k in order:
            t = ld.get_tensor(k)
            res.append((k, t.dtype, tuple(t.shape), t.clone().tolist(), want[k].tolist(), tuple(want[k].shape)))
        try:
            ld.get_tensor("missing")
            miss = None
        except KeyError:
            miss = True
        return lazy, clean, res, miss, sorted(ld.keys())

    lazy, clean, res, miss, keys = off_thread(go)
    ctx.check(lazy, "lazy loader used")
    ctx.check(clean, "pickle and torch are restored")
    ctx.check(keys == ["a", "b", "c"], f"keys {keys}")
    ctx.check(miss, "missing key is a KeyError")
    for k, t, sh, got, want, wsh in res:
        ctx.check(t == dt and sh == wsh and got == want, f"{k}: {t} {sh} {got} expected {want}")


BAD = [("os", "system"), ("posix", "system"), ("builtins", "eval"), ("builtins", "exec"), ("builtins", "getattr"), ("subprocess", "Popen"), ("torch", "load"), ("torch._utils", "_rebuild_parameter"),
       ("torch.serialization", "load"), ("collections", "Counter"), ("numpy.core.multiarray", "_reconstruct"), ("_codecs", "decode"), ("torch", "hub"), ("torch.hub", "load"), ("os", "getpid"), ("operator", "attrgetter"), ("importlib", "import_module"),
       ("torch", "UntypedStorage"), ("collections", "OrderedDict.fromkeys"), ("torch._utils", "_rebuild_tensor_v2.__globals__")]


def refused(ctx):
    """pickles that name anything else are refused and nothing stays patched"""
    import mergekit.io.lazy_unpickle as lu

    mod, name = ctx.choice("symbol", BAD)
    ref = ctx.choice("route", ["direct", "file"])

    def go():
        before = (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor)
        try:
            if ref == "direct":
                lu.LazyTorchUnpickler(io.BytesIO(b"")).find_class(mod, name)
            else:
                p = os.path.join(mk.fresh_dir("bad"), "pytorch_model.bin")
                torch.save({"a": torch.zeros(2)}, p)
                q = p + ".zip"
                payload = b"\x80\x02}q\x00X\x01\x00\x00\x00aq\x01c" + mod.encode() + b"\n" + name.encode() + b"\nq\x02s."
                with zipfile.ZipFile(p) as src, zipfile.ZipFile(q, "w", zipfile.ZIP_STORED) as dst:
                    for n in src.namelist():
                        dst.writestr(n, payload if n.endswith("data.pkl") else src.read(n))
                from mergekit.io.loader import LazyPickleLoader

                LazyPickleLoader(q)
            e = None
        except Exception as x:
            e = x
        return e, before == (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor)

    e, clean = off_thread(go)
    ctx.check(isinstance(e, pickle.UnpicklingError), f"{mod}.{name} refused, got {e!r}")
    ctx.check(clean, "pickle and torch are restored")


def pids(ctx):
    """unexpected persistent ids are refused"""
    import mergekit.io.lazy_unpickle as lu

    pid = ctx.choice("pid", [("module", 1), "storage", ("x", torch.FloatStorage, "0", "cpu", 1), None, 3])
    e = ctx.raises(lambda: lu.LazyTorchUnpickler(io.BytesIO(b"")).persistent_load(pid))
    ctx.check(isinstance(e, (RuntimeError, pickle.UnpicklingError)), f"{pid!r} refused, got {e!r}")


OPTS = dict(branch_timeout_ms=3000, prove_timeout_ms=20000, time_s=200, keep_samples=3)
OBLIGATIONS = [
    Ob("addresses", addresses, cases=[(0, "float32"), (1, "bfloat16"), (2, "float32"), (1, "bool"), (3, "int64")], bounds="every offset up to 50, 0-3 dimensions of size 1-6, every stride 0-12, every element"),
    Ob("reader", reader, cases=[2, 3], tcases=[4], bounds="2-3 (4) reads from two files, every offset up to 1000 and length up to 100"),
    Ob("files", files, cases=[("float32", "bfloat16"), ("float64", "float16"), ("int64", "int32", "bool"), ("int16", "int8", "uint8")], bounds="10 element types, 9 layouts, shared storages, 3 containers, 3 access orders"),
    Ob("refused", refused, bounds=f"{len(BAD)} symbols, looked up directly and from a file"),
    Ob("pids", pids, bounds="5 malformed persistent ids"),
]
