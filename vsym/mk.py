"""Drivers that run real mergekit code on symbolic or concrete models.

Environment stubs (symbolic mode only; part of every claim that uses them):
  * checkpoint bytes: `TensorLoader.get(path)` hands out in-memory symbolic
    tensors instead of opening a file; the index/shard logic above it is real;
  * `safetensors.torch.save_file` / `torch.save` record the tensors they are
    given and write a small marker file;
  * `AutoConfig.from_pretrained` returns a copy of the harness's config object.
In concrete mode real files are written and read in a scratch directory.
"""
import copy
import json
import os
import shutil
import sys
import tempfile
import types

import torch

_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None or not os.path.isdir(_SCRATCH) or _SCRATCH_PID != os.getpid():
        _new_scratch()
    return _SCRATCH


def _new_scratch():
    global _SCRATCH, _SCRATCH_PID
    import atexit

    base = os.environ.get("VSYM_TMP") or tempfile.gettempdir()
    _SCRATCH = tempfile.mkdtemp(prefix="vsym-", dir=base)
    _SCRATCH_PID = os.getpid()
    atexit.register(shutil.rmtree, _SCRATCH, True)


_SCRATCH_PID = None
_n = [0]


def cleanup():
    if _SCRATCH and _SCRATCH_PID == os.getpid():
        shutil.rmtree(_SCRATCH, True)


def fresh_dir(tag="d"):
    _n[0] += 1
    p = os.path.join(scratch(), f"{tag}{_n[0]}")
    os.makedirs(p, exist_ok=True)
    return p


class MemIndex:
    def __init__(self, names):
        self.tensor_paths = {n: "model.safetensors" for n in names}


class MemLoader:
    """In-memory stand-in for a checkpoint reader."""

    def __init__(self, tensors):
        self.tensors = tensors
        self.index = MemIndex(tensors)

    def get_tensor(self, key, device="cpu", aliases=None, raise_on_missing=True):
        if key not in self.tensors:
            for a in aliases or []:
                if a in self.tensors:
                    return self.tensors[a]
            if raise_on_missing:
                raise KeyError(key)
            return None
        return self.tensors[key]

    def flush(self):
        pass


_mdirs = {}


def mref(name):
    """A local model directory holding only a (real) config.json."""
    from mergekit.common import ModelReference

    k = (scratch(), name)
    if k not in _mdirs:
        p = os.path.join(scratch(), "mdl", name)
        llama_config(1, 1, 1, 1, 1).save_pretrained(p)
        _mdirs[k] = p
    return ModelReference.model_validate(_mdirs[k])


def set_loaders(models):
    """models: {ModelReference: {tensor name: tensor}}"""
    from mergekit.io.tasks import LoaderCache

    lc = LoaderCache()
    lc.loaders.clear()
    for m, ts in models.items():
        lc.loaders[m] = MemLoader(ts)
    return lc


def run_method(method, tensors, params=None, tensor_params=None, base=None, name="w",
               is_embed=False, optional=False, dtype=None, order=None):
    """Run one registered merge method on one weight through the real task graph.

    tensors: {model name: tensor or None}; tensor_params: {model name: {..}}.
    Missing parameters take the method's declared defaults, exactly as the
    planner does it.
    """
    import mergekit.merge_methods as mm
    from mergekit.architecture import WeightInfo
    from mergekit.common import ImmutableMap
    from mergekit.graph import Executor
    from mergekit.io.tasks import GatherTensors

    meth = mm.get(method)
    refs = {k: mref(k) for k in (order or tensors)}
    set_loaders({refs[k]: ({name: t} if t is not None else {}) for k, t in tensors.items()})
    opt = optional or any(t is None for t in tensors.values())
    wi = WeightInfo(name=name, is_embed=is_embed, optional=opt)
    gp = {}
    for p in meth.parameters():
        if params is not None and p.name in params:
            gp[p.name] = params[p.name]
        else:
            assert not p.required, f"harness must supply {p.name}"
            gp[p.name] = p.default_value
    tp = {}
    for k, r in refs.items():
        d = {}
        for p in meth.tensor_parameters():
            v = (tensor_params or {}).get(k, {})
            d[p.name] = v[p.name] if p.name in v else p.default_value
        tp[r] = ImmutableMap(data=d)
    task = meth.make_task(
        output_weight=wi,
        tensors=GatherTensors(
            weight_info=ImmutableMap(data={r: wi for r in refs.values()}), dtype=dtype
        ),
        parameters=ImmutableMap(data=gp),
        tensor_parameters=ImmutableMap(data=tp),
        base_model=mref(base) if base else None,
    )
    out = None
    for _t, v in Executor([task]).run(quiet=True):
        out = v
    return out


# ------------------------------------------------------------ whole pipeline
class FakeShard:
    def __init__(self, d, shared=False):
        self.d, self.shared = d, shared

    def keys(self):
        return list(self.d.keys())

    def get_tensor(self, k):  # a loaded pickle hands out its own tensors
        return self.d[k] if self.shared else self.d[k].clone()


_alias_cache = {}


def aliases(fn):
    """(module, name) of every mergekit module that imported fn under a name of its own"""
    k = (id(fn), len(sys.modules))
    if k not in _alias_cache:
        found = []
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").split(".")[0] == "mergekit":
                found += [(m, n) for n, v in list(vars(m).items()) if v is fn]
        _alias_cache[k] = (fn, found)  # fn kept alive, so that its id stays its own
    return _alias_cache[k][1]


class SymWorld:
    """Symbolic-mode environment for run_merge and the other entry points."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = fresh_dir("world")
        self.models = {}
        self.saved = {}
        self._undo = []
        self.rev = None
        self.pickled = False  # models given without a file layout become one pickle each

    # -- models on "disk"
    def add_model(self, name, config, tensors, shards=None, files=None):
        """shards: {file name: [tensor names]} (default one file)."""
        if self.rev:
            rev, self.rev = self.rev, None
            try:
                self.add_model(f"{name}@{rev}", config, tensors, shards, files)
            finally:
                self.rev = rev
            return f"hub/{name}@{rev}"
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        if config is not None:
            config.save_pretrained(p)
        for fn, txt in (files or {}).items():
            with open(os.path.join(p, fn), "w") as f:
                f.write(txt)
        self.models[p] = (config, tensors)
        pickled = self.pickled and not shards
        if self.ctx.symbolic:
            layout = shards or {"pytorch_model.bin" if pickled else "model.safetensors": list(tensors)}
            wm = {t: fn for fn, ts in layout.items() for t in ts}
            for fn, ts in layout.items():
                with open(os.path.join(p, fn), "w") as f:
                    f.write("stub")
                self.saved[os.path.join(p, fn)] = {t: tensors[t] for t in ts}
            with open(os.path.join(p, "pytorch_model.bin.index.json" if pickled else "model.safetensors.index.json"), "w") as f:
                json.dump({"metadata": {}, "weight_map": wm}, f)
        elif pickled:
            torch.save({t: x.contiguous().clone() for t, x in tensors.items()}, os.path.join(p, "pytorch_model.bin"))
        else:
            import safetensors.torch

            layout = shards or {"model.safetensors": list(tensors)}
            for fn, ts in layout.items():
                safetensors.torch.save_file(
                    {t: tensors[t].contiguous().clone() for t in ts}, os.path.join(p, fn),
                    metadata={"format": "pt"})
            if shards:
                wm = {t: fn for fn, ts in layout.items() for t in ts}
                with open(os.path.join(p, "model.safetensors.index.json"), "w") as f:
                    json.dump({"metadata": {}, "weight_map": wm}, f)
        return p

    # -- stubs
    def __enter__(self):
        from mergekit.io.tasks import LoaderCache

        LoaderCache().loaders.clear()
        if self.ctx.symbolic:
            self._install()
        return self

    def __exit__(self, *a):
        for o, n, v in reversed(self._undo):
            setattr(o, n, v)
        self._undo = []
        shutil.rmtree(self.root, True)

    def _patch(self, obj, name, val):
        old = obj.__dict__[name] if isinstance(obj, type) else getattr(obj, name)
        self._undo.append((obj, name, old))
        setattr(obj, name, val)
        if isinstance(obj, types.ModuleType) and obj.__name__.split(".")[0] != "mergekit":  # "from module import name" elsewhere in the package
            for mod, n in aliases(old):
                self._undo.append((mod, n, old))
                setattr(mod, n, val)

    def dir(self, ref):
        return os.path.join(self.root, ref[4:]) if ref.startswith("hub/") else ref

    def hub(self, rev=None):
        """hub/NAME at a revision is the model added as NAME@REVISION (main if not given);
        rev: models are added as that revision from here on"""
        import huggingface_hub
        import transformers

        self.rev = rev
        self.asked = []  # (what, name, revision, keyword arguments)

        def find(what, path, kw):
            if not str(path).startswith("hub/"):
                return path
            rev = kw.pop("revision", None) or "main"
            d = os.path.join(self.root, f"{path[4:]}@{rev}")
            self.asked.append((what, path[4:], rev, kw))
            if not os.path.isdir(d):
                raise OSError(f"no {path} at {rev}")
            return d

        for what, cls in (("config", transformers.AutoConfig), ("tokenizer", transformers.AutoTokenizer)):
            def load(path, *a, what=what, cls=cls, old=cls.__dict__["from_pretrained"], **kw):
                return old.__func__(cls, find(what, path, kw), *a, **kw)

            self._patch(cls, "from_pretrained", staticmethod(load))

        def listing(path, *a, **kw):
            return sorted(os.listdir(find("listing", path, kw)))

        def snapshot(path, *a, **kw):
            return find("snapshot", path, kw)

        self._patch(huggingface_hub, "list_repo_files", listing)
        self._patch(huggingface_hub, "snapshot_download", snapshot)

    def _install(self):
        import safetensors
        import safetensors.torch
        from mergekit.io.loader import TensorLoader

        world = self
        real_get = TensorLoader.get

        def get(shard_path, use_lazy_unpickle=False, device=None):
            sh = world.read(shard_path)
            if sh is None:
                return real_get(shard_path, use_lazy_unpickle, device)
            if str(shard_path).endswith(".safetensors") or use_lazy_unpickle:
                return FakeShard(sh)
            return FakeShard({k: t.clone() for k, t in sh.items()}, True)

        self._patch(TensorLoader, "get", staticmethod(get))

        def save_file(tensors, filename, metadata=None):
            world.write(filename, tensors)

        self._patch(safetensors.torch, "save_file", save_file)
        real_save = torch.save

        def tsave(obj, f, *a, **k):
            if isinstance(obj, dict) and isinstance(f, (str, os.PathLike)):
                world.write(f, obj)
            else:
                real_save(obj, f, *a, **k)

        self._patch(torch, "save", tsave)
        real_load = torch.load

        def tload(f, *a, **k):
            d = world.read(f) if isinstance(f, (str, os.PathLike)) else None
            return real_load(f, *a, **k) if d is None else d

        self._patch(torch, "load", tload)
        real_open = safetensors.safe_open

        class SafeOpen:
            def __init__(self, path, framework="pt", device="cpu"):
                self.d = world.read(path)
                if self.d is None:
                    raise FileNotFoundError(path)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def keys(self):
                return list(self.d)

            def get_tensor(self, k):
                return self.d[k]

        self._patch(safetensors, "safe_open", SafeOpen)

    def add_file(self, name, tensors):
        """a lone .safetensors or pickle file"""
        p = os.path.join(self.root, name)
        if self.ctx.symbolic:
            self.write(p, tensors)
        elif name.endswith(".safetensors"):
            import safetensors.torch

            safetensors.torch.save_file({k: t.contiguous().clone() for k, t in tensors.items()}, p)
        else:
            torch.save({k: t.contiguous().clone() for k, t in tensors.items()}, p)
        return p

    def write(self, path, tensors):
        """A checkpoint file: marker content identifies the recorded tensors."""
        k = f"stub#{len(self.saved)}"
        for n, t in tensors.items():
            assert isinstance(n, str)
        self.saved[k] = dict(tensors)
        with open(path, "w") as f:
            f.write(k)

    def read(self, path):
        path = str(path)
        try:
            with open(path) as f:
                k = f.read()
        except (OSError, UnicodeDecodeError):
            return None
        if k == "stub":
            return self.saved.get(os.path.normpath(path))
        return self.saved.get(k)

    # -- reading results the way a user would (index first, then shards)
    def load_output(self, path, base="model", ext="safetensors"):
        """-> (tensors, {file: [names]}, index dict or None)"""
        files = sorted(f for f in os.listdir(path) if f.endswith("." + ext))
        idx_p = os.path.join(path, f"{base}.{ext}.index.json")
        idx = None
        if os.path.exists(idx_p):
            with open(idx_p) as f:
                idx = json.load(f)
        out, layout = {}, {}
        for fn in files:
            fp = os.path.join(path, fn)
            if self.ctx.symbolic:
                d = self.read(fp)
            elif ext == "safetensors":
                import safetensors.torch

                d = safetensors.torch.load_file(fp)
            else:
                d = torch.load(fp, weights_only=True)
            layout[fn] = list(d)
            for k, v in d.items():
                if k in out:
                    out.setdefault("__dup__", []).append(k)
                out[k] = v
        return out, layout, idx


def llama_config(layers, hidden=2, vocab=3, heads=1, inter=2, tie=False, **kw):
    from transformers import LlamaConfig

    c = LlamaConfig(vocab_size=vocab, hidden_size=hidden, intermediate_size=inter,
                    num_hidden_layers=layers, num_attention_heads=heads,
                    num_key_value_heads=heads, tie_word_embeddings=tie, **kw)
    c.architectures = ["LlamaForCausalLM"]
    return c


LLAMA_LAYER = {
    "input_layernorm.weight": ("h",),
    "self_attn.q_proj.weight": ("h", "h"),
    "self_attn.k_proj.weight": ("h", "h"),
    "self_attn.v_proj.weight": ("h", "h"),
    "self_attn.o_proj.weight": ("h", "h"),
    "post_attention_layernorm.weight": ("h",),
    "mlp.up_proj.weight": ("i", "h"),
    "mlp.gate_proj.weight": ("i", "h"),
    "mlp.down_proj.weight": ("h", "i"),
}


def llama_tensors(ctx, name, layers, hidden=1, vocab=1, inter=1, lm_head=True, dtype=torch.float32,
                  vocab_rows=None):
    sz = {"h": hidden, "i": inter}
    out = {}
    mk = lambda n, sh: ctx.tensor(f"{name}:{n}", sh, dtype)
    out["model.embed_tokens.weight"] = mk("embed", (vocab_rows or vocab, hidden))
    for l in range(layers):
        for k, sh in LLAMA_LAYER.items():
            out[f"model.layers.{l}.{k}"] = mk(f"L{l}.{k}", [sz[s] for s in sh])
    out["model.norm.weight"] = mk("norm", (hidden,))
    if lm_head:
        out["lm_head.weight"] = mk("lm_head", (vocab_rows or vocab, hidden))
    return out


def do_merge(world, cfg, **opts):
    """run_merge through the public entry point; returns (tensors, config json, ...)"""
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    out = os.path.join(world.root, f"out{len(os.listdir(world.root))}")
    o = dict(copy_tokenizer=False, write_model_card=False, quiet=True, lazy_unpickle=False)
    o.update(opts)
    mc = cfg if isinstance(cfg, MergeConfiguration) else MergeConfiguration.model_validate(cfg)
    run_merge(mc, out, MergeOptions(**o))
    names = () if o.get("safe_serialization", True) else ("pytorch_model", "bin")
    ts, layout, idx = world.load_output(out, *names)
    with open(os.path.join(out, "config.json")) as f:
        cj = json.load(f)
    return types.SimpleNamespace(tensors=ts, layout=layout, index=idx, config=cj, path=out)
