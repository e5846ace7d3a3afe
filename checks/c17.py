"""Multi-GPU execution: same results as serial execution under every thread interleaving."""
import json
import os
import types

from vsym.sched import Sched

from .c16 import Box, World, graph, subset, task_class, _fake
from .lib import *

IMPORTS = ["mergekit.graph", "mergekit.multigpu_executor", "mergekit.merge", "mergekit.merge_methods", "mergekit.tokenizer.build", "mergekit.tokenizer.embed"]
OUTSIDE = "more than 2 accelerators or 5 tasks, schedules further from the default than stated, the accelerators themselves (streams, asynchronous copies)"
ASSUMPTIONS = ["accelerators, streams and device contexts are stand-ins; threads, queues, events and pools are cooperative ones switched by the solver at every line of the executor"]


def gpu_class():
    base = task_class()
    if not hasattr(base, "_gpu"):
        class G(base):
            def main_thread_only(self):
                return self.world.main.get(self.name, False)

            def duplicate_per_gpu(self):
                return self.world.dup.get(self.name, False)

        base._gpu = G
    return base._gpu


class GWorld(World):
    def __init__(self, ctx, sched):
        super().__init__(ctx)
        self.main, self.dup, self.sched, self.where, self.boom = {}, {}, sched, {}, None

    def fresh(self, name):
        t = self.tasks[name]
        return gpu_class()(name=t.name, deps=t.deps, world=self)

    def add(self, name, deps):
        self.tasks[name] = gpu_class()(name=name, deps=tuple((a, self.fresh(d)) for a, d in deps), world=self)
        self.spec = getattr(self, "spec", {})
        self.spec[name] = list(deps)

    def execute(self, task, kw):
        self.where.setdefault(task.name, []).append(self.sched.cur)
        if task.name == self.boom:
            raise RuntimeError("boom")
        s = self.own(task.name)
        for a, v in kw.items():
            s = s + self.coef(task.name, a) * (v.v if isinstance(v, Box) else v)
        return Box(s)


def install(s, kind="cuda"):
    import mergekit.common as common
    import mergekit.multigpu_executor as mg

    class Null:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    extra = [("get_torch_accelerator_type", lambda: kind), ("get_torch_accelerator_count", lambda: 2),
             ("get_torch_accelerator_module", lambda t=None: types.SimpleNamespace(synchronize=lambda device=None: None, Stream=Null, stream=Null))]
    s.patch(mg, extra=extra)
    s.patch(common, extra=extra)
    for o, n, v in ((torch, "Stream", Null), (torch.cuda, "Stream", Null), (torch.cuda, "stream", Null), (torch.cuda, "synchronize", lambda *a, **k: None), (torch.cuda, "set_device", lambda *a, **k: None)):
        s._undo.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    return mg


def place(w):
    """(leading, trailing) main-thread tasks of the graph"""
    users = {t: [u for u in w.spec if any(d == t for _, d in w.spec[u])] for t in w.spec}
    lead, trail = set(), set()
    for t in w.spec:  # topological
        if w.main.get(t) and all(d in lead for _, d in w.spec[t]):
            lead.add(t)
    for t in reversed(list(w.spec)):
        if w.main.get(t) and all(u in trail for u in users[t]):
            trail.add(t)
    return lead, trail


def run(ctx, mg, s, w, targets, n, storage=None):
    """-> results by task name, after checking thread placement and execution counts"""
    lead, trail = place(w)
    stuck = [t for t in w.spec if w.main.get(t) and t not in lead | trail]
    both = [t for t in w.spec if w.main.get(t) and w.dup.get(t)]
    if stuck or [t for t in both if t not in lead | trail]:
        ctx.check(isinstance(ctx.raises(lambda: mg.MultiGPUExecutor([w.fresh(t) for t in targets], num_gpus=n, storage_device=storage)), RuntimeError), f"{stuck} {both} refused")
        return None
    ctx.assume(not both)
    ex = mg.MultiGPUExecutor([w.fresh(t) for t in targets], num_gpus=n, storage_device=storage)
    got = [(t.name, v) for t, v in ex.run(quiet=True)]
    ctx.check(sorted(t for t, _ in got) == sorted(targets), f"yielded {[t for t, _ in got]} for targets {targets}")
    for t in w.spec:
        on = w.where.get(t, [])
        if w.main.get(t):
            ctx.check(on == [s.main], f"{t} runs once on the main thread")
        elif w.dup.get(t):
            ctx.check(1 <= len(on) <= n + 1, f"{t} runs {len(on)} times")
            ctx.check(len(set(id(x) for x in on)) == len(on), f"{t} runs once per thread")
        else:
            ctx.check(len(on) == 1, f"{t} runs {len(on)} times")
            ctx.check(on[0] is not s.main, f"{t} runs on a device thread")
    for t, v in got:
        ctx.check(isinstance(v, Box), f"value of {t} delivered")
        ctx.eqs(v.v, w.value(t), f"value of {t}")
    return got


def shapes(ctx, case):
    """every small graph and flag combination, one interleaving"""
    n, gpus = case
    with Sched(ctx, delays=0) as s:
        mg = install(s)
        w = GWorld(ctx, s)
        for i in range(n):
            w.add(f"t{i}", [(f"a{j}", f"t{j}") for j in range(i) if ctx.flag(f"e{i}{j}")])
            k = ctx.choice(f"kind{i}", ["plain", "main", "dup"])
            w.main[f"t{i}"], w.dup[f"t{i}"] = k == "main", k == "dup"
        # per-device tasks only need leading or per-device tasks (as tensor loads do)
        lead, _ = place(w)
        ctx.assume(all(d in lead or w.dup[d] for t in w.spec if w.dup[t] for _, d in w.spec[t]))
        used = {d for t in w.spec for _, d in w.spec[t]}
        targets = [t for t in w.spec if t not in used or ctx.flag(f"target{t}")]
        ctx.assume(any(not w.main[t] and not w.dup[t] for t in w.spec))
        run(ctx, mg, s, w, targets, gpus)


def four(ctx):
    """four tasks: main-thread tasks between parallel ones are refused, everything else runs"""
    with Sched(ctx, delays=0) as s:
        mg = install(s)
        w = GWorld(ctx, s)
        for i in range(4):
            w.add(f"t{i}", [(f"a{j}", f"t{j}") for j in range(i) if ctx.flag(f"e{i}{j}")])
            w.main[f"t{i}"] = ctx.flag(f"main{i}")
        used = {d for t in w.spec for _, d in w.spec[t]}
        ctx.assume(any(not w.main[t] for t in w.spec))
        run(ctx, mg, s, w, [t for t in w.spec if t not in used], 1)


MERGES = {
    "task": dict(merge_method="task_arithmetic", base_model="A"),
    "linear": dict(merge_method="linear"),
    "passthrough": dict(merge_method="passthrough"),
    "union": dict(merge_method="linear", tokenizer_source="union"),
}


def whole(ctx, case):
    """a merge run with several devices writes what the serial one writes, for every option that only concerns execution"""
    kind, layers = case
    with mk.SymWorld(ctx) as w, Sched(ctx, delays=0) as s:
        install(s, "cpu")
        from mergekit.io.tasks import LoaderCache

        p = {}
        for m, v in zip("A" if kind == "passthrough" else "AB", (("aa", "bb"), ("cc", "bb"))):
            if kind == "union":
                from .c22 import _tokfiles

                _tokfiles(os.path.join(w.root, m), {t: i for i, t in enumerate(v)}, [])
            p[m] = w.add_model(m, mk.llama_config(layers, 1, 2, 1, 1), mk.llama_tensors(ctx, m, layers, vocab_rows=2))
        c = dict(MERGES[kind], dtype="float32", models=[dict(model=p[m], parameters=dict(weight=x)) for m, x in zip(p, (0.5, 2.0))])
        if "base_model" in c:
            c["base_model"] = p["A"]
        a = mk.do_merge(w, c, device="cpu")
        LoaderCache().loaders.clear()
        done = []
        from mergekit.io.tensor_writer import TensorWriter

        for meth in ("__init__", "save_tensor", "finalize"):
            def spy(*args, _m=meth, _f=getattr(TensorWriter, meth), **kw):
                done.append(_m)
                ctx.check(_m == "save_tensor" or s.cur is s.main, f"{_m} of the writer is called on the main thread")
                return _f(*args, **kw)

            w._patch(TensorWriter, meth, spy)
        b = mk.do_merge(w, c, multi_gpu=True, out_shard_size=ctx.choice("shard", [5_000_000_000, 8]), low_cpu_memory=ctx.flag("low cpu memory"), clone_tensors=ctx.flag("clone"))
        ctx.check(set(a.tensors) == set(b.tensors), f"tensors {sorted(set(a.tensors) ^ set(b.tensors))}")
        ctx.check([done.count(m) for m in ("__init__", "save_tensor")] == [1, len(a.tensors)] and done[0] == "__init__" and done[-1] == "finalize", f"one writer opened, filled, closed: {done}")
        ctx.check(a.config == b.config, "configuration")
        for n, t in a.tensors.items():
            ctx.check(tuple(t.shape) == tuple(b.tensors[n].shape) and t.dtype == b.tensors[n].dtype, f"{n}: {b.tensors[n].shape}")
            for x, y in zip(ctx.elems(t), ctx.elems(b.tensors[n])):
                ctx.eq(y, x, n)
        if kind == "union":
            tok = [json.load(open(os.path.join(r.path, "tokenizer.json"))) for r in (a, b)]
            ctx.check(tok[0] == tok[1] and len(tok[0]["model"]["vocab"]) + len(tok[0]["added_tokens"]) == 3, f"tokenizer {tok[1]}")


GRAPHS = {
    # like a merge: writer (main) -> load (per device) -> merge -> save (main, last)
    "merge": ([("W", "main", []), ("L", "dup", []), ("A", "plain", ["L"]), ("B", "plain", ["L"]), ("S", "main", ["W", "A", "B"])], ["S", "A"]),
    "chain": ([("W", "main", []), ("A", "plain", ["W"]), ("B", "plain", ["A"]), ("C", "plain", ["W"]), ("F", "main", ["B", "C"])], ["F", "B"]),
    "plain": ([("A", "plain", []), ("B", "plain", []), ("C", "plain", ["A"])], ["A", "B", "C"]),
    "tail": ([("A", "plain", []), ("S1", "main", ["A"]), ("S2", "main", ["S1"])], ["S1", "S2"]),
}


def build(ctx, s, kind):
    w = GWorld(ctx, s)
    g, targets = GRAPHS[kind]
    for t, k, deps in g:
        w.add(t, [(f"a{d}", d) for d in deps])
        w.main[t], w.dup[t] = k == "main", k == "dup"
    return w, targets


def interleave(ctx, case):
    """every interleaving (line by line) of device threads, progress thread and main thread"""
    kind, lines, delays, gpus = case
    with Sched(ctx, lines=("multigpu_executor.py",) if lines else (), delays=delays) as s:
        mg = install(s)
        w, targets = build(ctx, s, kind)
        run(ctx, mg, s, w, targets, gpus)


def failure(ctx, case):
    """an exception on a device thread is raised to the caller, under every interleaving"""
    kind, lines, delays, gpus = case
    with Sched(ctx, lines=("multigpu_executor.py",) if lines else (), delays=delays) as s:
        mg = install(s)
        w, targets = build(ctx, s, kind)
        w.boom = ctx.choice("boom", list(w.spec))
        e = ctx.raises(lambda: list(mg.MultiGPUExecutor([w.fresh(t) for t in targets], num_gpus=gpus).run(quiet=True)))
        ctx.check(isinstance(e, RuntimeError) and "boom" in str(e), f"exception reaches the caller, got {e!r}")


def placement(ctx, storage):
    """tensors used by accelerated tasks are on their thread's device; results rest on the storage device"""
    fake = _fake()
    st = torch.device(storage) if storage else None
    seen = {}
    with Sched(ctx, delays=0) as s:
        mg = install(s)
        w = GWorld(ctx, s)
        for t, k, d in (("W", "main", []), ("L", "dup", ["W"]), ("A", "plain", ["L", "W"]), ("B", "plain", ["L"]), ("C", "plain", ["A"]), ("S", "main", ["W", "B", "C"])):
            w.add(t, [(f"a{x}", x) for x in d])
            w.main[t], w.dup[t] = k == "main", k == "dup"
            w.accel[t] = ctx.flag(f"accel{t}")
        born = torch.device(ctx.choice("born", ["cpu", "cuda:1"]))

        def execute(task, kw):
            seen.setdefault(task.name, []).append((s.cur, {a: x.dev for a, x in kw.items()}))
            v = w.own(task.name)
            for a, x in kw.items():
                v = v + w.coef(task.name, a) * x.val
            return fake(v, born)

        w.execute = execute
        got = {t.name: v for t, v in mg.MultiGPUExecutor([w.fresh(t) for t in ("S", "C")], num_gpus=2, storage_device=st).run(quiet=True)}
        ctx.check(set(got) == {"S", "C"}, "targets yielded")
        dev = {}
        for t, runs in seen.items():
            for th, kw in runs:
                if th is s.main:
                    want = [st or torch.device("cpu")]
                elif w.accel[t]:
                    want = [torch.device("cuda:0"), torch.device("cuda:1")]
                else:
                    continue
                for d in kw.values():
                    if w.accel[t]:
                        ctx.check(d in want, f"{t} gets a tensor on {d}")
                        if th is not s.main:
                            ctx.check(dev.setdefault(id(th), d) == d, f"{t}: one device per thread")
        ctx.check(len(set(map(str, dev.values()))) == len(dev), "threads use different devices")
        ctx.check(got["S"].dev == (st or torch.device("cpu")), f"S rests on {got['S'].dev}")
        if st is not None:
            ctx.check(got["C"].dev == st, f"C rests on {got['C'].dev}")
        for t, v in got.items():
            ctx.eqs(v.val, w.value(t), f"value of {t}")


OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=300, keep_samples=3, max_paths=200000)
OBLIGATIONS = [
    Ob("shapes", shapes, cases=[(2, 2), (3, 2), (3, 1)], tcases=[(4, 2)], bounds="every acyclic graph of up to 3 (4) tasks with every task kind (plain, main thread, per device) and target set, 1-2 devices"),
    Ob("four", four, bounds="every acyclic graph of 4 tasks, each plain or main-thread, one device"),
    Ob("whole", whole, cases=[("linear", 2), ("task", 1), ("passthrough", 2), ("union", 1)], bounds="merges of 1-2 models with 1-2 layers by 3 methods, with and without a built tokenizer, symbolic tensors, 2 devices, every combination of execution options, one interleaving"),
    Ob("interleave", interleave, cases=[(k, 1, 1, 2) for k in GRAPHS] + [(k, 0, 2, 2) for k in GRAPHS], tcases=[(k, 0, 3, 2) for k in GRAPHS] + [("tail", 1, 2, 1), ("plain", 1, 2, 2), ("merge", 0, 5, 2)],
       bounds="4 graphs, 1-2 devices, every schedule with one deviation at any line of the executor or up to 2 (3) at synchronisation points"),
    Ob("failure", failure, cases=[("chain", 1, 1, 2), ("merge", 0, 2, 2)], bounds="2 graphs, any task failing, every schedule with up to one deviation at any line or 2 at synchronisation points"),
    Ob("placement", placement, cases=["", "cpu", "cuda:0"], bounds="6 tasks, every choice of accelerated tasks, 2 devices, storage on host, device 0 or undeclared"),
]
