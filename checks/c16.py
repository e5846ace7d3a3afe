"""Task graph execution: order, arguments, caching, release of results, devices."""
import gc
import weakref
from typing import Any, Optional

from .lib import *

IMPORTS = ["mergekit.graph"]
OUTSIDE = "graphs of more than 5 tasks; devices are stand-ins that record moves (no accelerator here)"
ASSUMPTIONS = []


class Box:
    """a result that can be tracked by the garbage collector"""

    def __init__(self, v):
        self.v = v


class Label:
    """group label whose order is decided by the solver"""

    def __init__(self, k):
        self.k = k

    def _o(self, o):
        return o.k if isinstance(o, Label) else -1  # the empty label sorts first

    def __eq__(self, o):
        return bool(self.k == self._o(o))

    def __lt__(self, o):
        return bool(self.k < self._o(o))

    def __gt__(self, o):
        return bool(self.k > self._o(o))

    __hash__ = None


_T = []


def task_class():
    if _T:
        return _T[0]
    from mergekit.graph import Task

    class T(Task):
        name: str
        deps: Any = ()
        world: Any = None

        def __hash__(self):
            return hash(self.name)

        def __eq__(self, o):
            return isinstance(o, T) and self.name == o.name

        def arguments(self):
            return dict(self.deps)

        def execute(self, **kw):
            return self.world.execute(self, kw)

        def priority(self):
            return self.world.prio.get(self.name, 0)

        def group_label(self):
            return self.world.label.get(self.name)

        def uses_accelerator(self):
            return self.world.accel.get(self.name, False)

    _T.append(T)
    return T


class World:
    def __init__(self, ctx):
        self.ctx, self.log, self.live = ctx, [], {}
        self.prio, self.label, self.accel = {}, {}, {}
        self.tasks, self.hook = {}, None

    def add(self, name, deps):
        """deps: [(argument name, task name)]; equal tasks are separate objects"""
        T = task_class()
        self.tasks[name] = T(name=name, deps=tuple((a, self.fresh(d)) for a, d in deps), world=self)
        self.spec = getattr(self, "spec", {})
        self.spec[name] = list(deps)

    def fresh(self, name):
        t = self.tasks[name]
        return task_class()(name=t.name, deps=t.deps, world=self)

    def execute(self, task, kw):
        if self.hook:
            self.hook(task.name)
        self.log.append(task.name)
        s = self.own(task.name)
        for a, v in kw.items():
            s = s + self.coef(task.name, a) * v.v
        b = Box(s)
        self.live[task.name] = weakref.ref(b)
        return b

    def own(self, n):
        return self.ctx.real(f"c-{n}", -4, 4)

    def coef(self, n, a):
        return self.ctx.real(f"k-{n}-{a}", -4, 4)

    def value(self, name, cached={}):
        if name in cached:
            return cached[name]
        return self.own(name) + ssum(self.coef(name, a) * self.value(d, cached) for a, d in self.spec[name])


def graph(ctx, n, fixed=()):
    """any acyclic graph over n tasks (edges go from later to earlier tasks)"""
    w = World(ctx)
    for i in range(n):
        deps = []
        for j in range(i):
            if (i, j) in fixed or ctx.flag(f"e{i}{j}"):
                deps.append((f"a{j}", f"t{j}"))
        w.add(f"t{i}", deps)
    return w


def closure(w, targets, cached=()):
    need, todo = set(), list(targets)
    while todo:
        t = todo.pop()
        if t in need or t in cached:
            continue
        need.add(t)
        todo += [d for _, d in w.spec[t]]
    return need


def subset(ctx, name, items, nonempty=False):
    r = [x for x in items if ctx.flag(f"{name}{x}")]
    if nonempty:
        ctx.assume(bool(r))
    return r


def values(ctx, n):
    """every needed task runs once, after its arguments, and every target is yielded"""
    from mergekit.graph import Executor

    w = graph(ctx, n)
    names = list(w.tasks)
    targets = subset(ctx, "target", names, True)
    if ctx.flag("reverse"):
        targets = targets[::-1]
    ex = Executor([w.fresh(t) for t in targets])
    got = [(t.name, v.v) for t, v in ex.run(quiet=True)]
    need = closure(w, targets)
    ctx.check(sorted(w.log) == sorted(need), f"executed {w.log}, needed {sorted(need)}")
    for i, t in enumerate(w.log):
        ctx.check(all(d in w.log[:i] for _, d in w.spec[t]), f"{t} ran before its arguments: {w.log}")
    ctx.check(sorted(t for t, _ in got) == sorted(targets), f"yielded {[t for t, _ in got]} for targets {targets}")
    for t, v in got:
        ctx.eqs(v, w.value(t), f"value of {t}")


def cached(ctx, n):
    """cached values are used instead of running the task"""
    from mergekit.graph import Executor, TaskUniverse

    w = graph(ctx, n)
    names = list(w.tasks)
    ca = subset(ctx, "cached", names[:-1], True)
    targets = subset(ctx, "target", [t for t in names if t not in ca], True)
    u = TaskUniverse()
    hs = {t: u.add_task(w.tasks[t]) for t in names}
    vals = {t: ctx.real(f"v-{t}", -4, 4) for t in ca}
    ex = Executor([hs[t] for t in targets], cached_values={hs[t]: Box(vals[t]) for t in ca})
    got = [(t.name, v.v) for t, v in ex.run(quiet=True)]
    need = closure(w, targets, ca)
    ctx.check(sorted(w.log) == sorted(need), f"executed {w.log}, needed {sorted(need)} cached {ca}")
    ctx.check(sorted(t for t, _ in got) == sorted(targets), f"yielded {[t for t, _ in got]} for targets {targets}")
    for t, v in got:
        ctx.eqs(v, w.value(t, vals), f"value of {t}")


def shared(ctx):
    """different arguments may come from one task; equal tasks run once"""
    from mergekit.graph import Executor

    w = World(ctx)
    w.add("t0", [])
    w.add("t1", [("a", "t0"), ("b", "t0")])
    w.add("t2", [("x", ctx.choice("x", ["t0", "t1"])), ("y", ctx.choice("y", ["t0", "t1"])), ("z", "t1")])
    targets = subset(ctx, "target", list(w.tasks), True)
    ts = [w.fresh(t) for t in targets] + ([w.fresh(targets[0])] if ctx.flag("twice") else [])
    got = {t.name: v.v for t, v in Executor(ts).run(quiet=True)}
    ctx.check(sorted(w.log) == sorted(closure(w, targets)), f"executed {w.log}")
    ctx.check(sorted(got) == sorted(targets), "targets yielded")
    for t, v in got.items():
        ctx.eqs(v, w.value(t), f"value of {t}")


def released(ctx, n):
    """a result is dropped as soon as its last consumer has run (and not before)"""
    from mergekit.graph import Executor

    w = graph(ctx, n, {(i, i - 1) for i in (n - 1,)})
    names = list(w.tasks)
    targets = subset(ctx, "target", names, True)
    need = closure(w, targets)
    users = {t: [u for u in need if any(d == t for _, d in w.spec[u])] for t in names}

    def hook(name):
        for t, r in w.live.items():
            if t == last[0]:
                continue  # being handed to the caller
            if not [u for u in users[t] if u not in w.log]:  # no consumer left (the current one is not in the log yet)
                ctx.check(r() is None, f"result of {t} still held when {name} starts, after {w.log}")
            else:
                ctx.check(r() is not None, f"result of {t} lost before its use")

    w.hook = hook
    last = [None]
    for t, v in Executor([w.fresh(t) for t in targets]).run(quiet=True):
        last[0] = t.name
        del v
    ctx.check(all(r() is None for r in w.live.values()), "no result survives the run")


def order(ctx, case):
    """among the tasks that can run, the smallest label goes first, then the highest priority"""
    from mergekit.graph import Executor

    n, labels = case
    w = graph(ctx, n)
    key = {}
    for t in w.tasks:
        p = ctx.int(f"p-{t}", -3, 3)
        w.prio[t] = p
        if labels and ctx.flag(f"lab-{t}"):
            k = ctx.int(f"l-{t}", 0, 9)
            w.label[t] = Label(k)
            key[t] = (k, p)
        else:
            key[t] = (-1, p)
    done = []

    def hook(name):
        ready = [t for t in w.tasks if t not in done and all(d in done for _, d in w.spec[t])]
        ctx.check(name in ready, f"{name} is ready")
        la, pa = key[name]
        for t in ready:
            l, p = key[t]
            ctx.check(ctx.Or(la < l, ctx.And(la == l, pa >= p)), f"{name} before {t}")
        done.append(name)

    w.hook = hook
    for _ in Executor([w.fresh(t) for t in w.tasks]).run(quiet=True):
        pass
    ctx.check(len(done) == n, "all ran")


def _fake():
    class FakeT(torch.Tensor):
        @property
        def device(self):
            return self.dev

        def to(self, *a, device=None, **kw):
            d = device if device is not None else a[0]
            return fake(self.val, torch.device(d))

    def fake(val, dev):
        t = off_thread(FakeT)
        t.val, t.dev = val, dev
        return t

    return fake


def devices(ctx, nest):
    """accelerated tasks get every tensor on the math device, results rest on the storage device"""
    from mergekit.graph import Executor

    fake = _fake()
    math = torch.device(ctx.choice("math", ["cpu", "cuda:0", "cuda:1"]))
    store = torch.device(ctx.choice("store", ["cpu", "cuda:0"]))
    born = torch.device(ctx.choice("born", ["cpu", "cuda:1"]))
    w = World(ctx)
    v = [ctx.real(f"v{i}", -4, 4) for i in range(3)]
    seen = {}

    def pack(ts, extra):
        return {"flat": ts[0], "dict": {"a": ts[0], "b": ts[1]}, "list": [ts[0], [ts[1]], extra],
                "tuple": (ts[0], {"k": (ts[1],)}), "mixed": {"a": [ts[0], extra], "b": None}}[nest]

    def flat(x):
        if isinstance(x, torch.Tensor):
            return [x]
        if isinstance(x, dict):
            return [z for y in x.values() for z in flat(y)]
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in flat(y)]
        return []

    def skeleton(x):
        if isinstance(x, torch.Tensor):
            return "T"
        if isinstance(x, dict):
            return {k: skeleton(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(skeleton(y) for y in x)
        return x

    def execute(task, kw):
        seen[task.name] = {k: x for k, x in kw.items()}
        w.log.append(task.name)
        if task.name == "t0":
            return pack([fake(v[0], born), fake(v[1], born)], "text")
        return fake(v[2], born)

    w.execute = execute
    w.add("t0", [])
    w.add("t1", [("x", "t0")])
    for t in w.tasks:
        w.accel[t] = ctx.flag(f"accel-{t}")
    ex = Executor([w.fresh("t0"), w.fresh("t1")], math_device=math if ctx.flag("obj") else str(math), storage_device=store)
    got = {t.name: x for t, x in ex.run(quiet=True)}
    src = pack([fake(v[0], born), fake(v[1], born)], "text")
    x = seen["t1"]["x"]
    for y, where in ((x, math if w.accel["t1"] else store), (got["t0"], store)):
        ctx.check(skeleton(y) == skeleton(src), f"structure {skeleton(y)}")
        ctx.check(all(t.dev == where for t in flat(y)), f"devices {[str(t.dev) for t in flat(y)]}, expected {where}")
        for a, b in zip(flat(y), flat(src)):
            ctx.eqs(a.val, b.val, "moved value")
    ctx.check(got["t1"].dev == store, "result on the storage device")


OPTS = dict(branch_timeout_ms=2000, prove_timeout_ms=10000, time_s=200, keep_samples=3)
OBLIGATIONS = [
    Ob("values", values, cases=[2, 3, 4], tcases=[5], bounds="every acyclic graph of up to 4 (5) tasks, every set of targets, every value and coefficient", max_paths=200000),
    Ob("cached", cached, cases=[2, 3, 4], bounds="every acyclic graph of up to 4 tasks, every disjoint set of targets and cached tasks"),
    Ob("shared", shared, bounds="3 tasks, repeated arguments, equal but distinct task objects"),
    Ob("released", released, cases=[2, 3, 4], bounds="every acyclic graph of up to 4 tasks, every set of targets"),
    Ob("order", order, cases=[(2, True), (3, True), (4, False)], bounds="every acyclic graph of up to 4 tasks, every priority and label order", max_paths=200000),
    Ob("devices", devices, cases=["flat", "dict", "list", "tuple", "mixed"], bounds="nested results, every combination of math, storage and creation device"),
]
