"""Harness contexts: one harness source, two modes (symbolic / concrete)."""
import json
import math
import os
import random
import re
import subprocess
import tempfile
import time
import traceback
import types
from fractions import Fraction

import numpy as np
import torch

from . import core
from .core import (BudgetExceeded, CexFound, HarnessFailure, Path, PathAbort, Stats,
                   Unsupported, rv, z3num)
from .scalars import *  # noqa
from .scalars import _inf
from .tensor import A0, SymMode, SymTensor, arr_of, cast, from_plain, wrap
from .z3load import z3

DT = {"float32": torch.float32, "float64": torch.float64, "bool": torch.bool,
      "int64": torch.int64, "float": torch.float32, "bfloat16": torch.bfloat16,
      "float16": torch.float16}


class BaseCtx:
    symbolic = False

    # shared conveniences -------------------------------------------------
    def flag(self, name):
        return self.choice(name, [False, True])

    def eqs(self, a, b, msg):
        self.eq(a, b, msg)

    def fail(self, msg):
        self.check(False, msg)

    def raises(self, f, exc=Exception):
        try:
            f()
        except exc as e:
            return e
        return None


def _flat(x):
    """value -> (shape, list of element values)"""
    if isinstance(x, torch.Tensor):
        t = wrap(x)
        return tuple(t.arr.shape), list(t.arr.reshape(-1))
    if isinstance(x, np.ndarray):
        from .tensor import _nested_arr

        a = _nested_arr(x)
        return tuple(a.shape), list(a.reshape(-1))
    if isinstance(x, (list, tuple)):
        from .tensor import _nested_arr

        a = _nested_arr(x)
        return tuple(a.shape), list(a.reshape(-1))
    return (), [norm_const(x)]


def _same(x, y):
    (x, xo), (y, yo) = split(x), split(y)
    if xo is not True or yo is not True or _inf(x) or _inf(y):
        return False
    if not is_z3(x) and not is_z3(y):
        return x == y
    d = z3.simplify(zt(x, True) - zt(y, True), som=True)
    return z3.is_rational_value(d) and d.numerator_as_long() == 0


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, path, opts):
        self.path = path
        self.opts = opts
        self.stats = path.stats
        self.reached = 0

    # -- inputs
    def real(self, name, lo=None, hi=None, strict=False):
        v = z3.Real(name)
        self.path.inputs[name] = ("real", v)
        if lo is not None:
            self.path.add(v > rv(Fraction(lo)) if strict else v >= rv(Fraction(lo)))
        if hi is not None:
            self.path.add(v < rv(Fraction(hi)) if strict else v <= rv(Fraction(hi)))
        return SymReal(v)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.path.inputs[name] = ("int", v)
        self.path.add(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def cint(self, name, lo, hi):
        """An integer input, forked to a concrete Python int."""
        return int(self.int(name, lo, hi))

    def bool(self, name):
        v = z3.Bool(name)
        self.path.inputs[name] = ("bool", v)
        return SymBool(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = z3.Int(name)
        self.path.inputs[name] = ("choice", (v, len(options)))
        self.path.add(z3.And(v >= 0, v < len(options)))
        return options[self.path.concretize_int(v)]

    def tensor(self, name, shape, dtype=torch.float32, lo=None, hi=None):
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        flat = []
        for i in range(n):
            nm = f"{name}[{','.join(map(str, np.unravel_index(i, shape)))}]" if shape else name
            v = z3.Real(nm)
            if lo is not None:
                self.path.add(v >= rv(Fraction(lo)))
            if hi is not None:
                self.path.add(v <= rv(Fraction(hi)))
            flat.append(v)
        self.path.inputs[name] = ("tensor", (shape, flat, str(dtype).replace("torch.", "")))
        return SymTensor(arr_of(flat, shape), dtype)

    def mk_tensor(self, nested, dtype=torch.float32):
        """tensor from nested Python scalars (symbolic or not)."""
        from .tensor import _nested_arr

        return SymTensor(cast(_nested_arr(nested), dtype), dtype)

    def elems(self, t):
        """flat list of Python scalars of a tensor (spec side)."""
        return [self._py(x) for x in _flat(t)[1]]

    def _py(self, x):
        v, ok = split(x)
        if ok is not True:
            # spec code never consumes undefined values: make it a failure
            if ok is False:
                return float("nan")
        if isinstance(v, Fraction):
            return SymReal(v)
        if isinstance(v, (bool, int, float)):
            return v
        return SymReal(v) if z3.is_real(v) else SymBool(v) if z3.is_bool(v) else SymInt(v)

    # -- spec helpers
    def If(self, c, a, b):
        cv = c.v if isinstance(c, SymBool) else c
        r = ite(cv, norm_const(a), norm_const(b))
        return self._py(r)

    def sqrt(self, x):
        return self._py(split(vsqrt(norm_const(x)))[0])

    def probs(self):
        """keep probabilities of every Bernoulli draw so far (None: other draws used)"""
        log = self.path.memo.get("draws", [])
        if any(k != "bernoulli" for k, _, _ in log):
            return None
        return [self._py(x) for _, a, _ in log for x in a.reshape(-1)]

    def quot(self, a, b):
        """a / b where the caller has assumed b != 0 (no branching)"""
        import vsym.scalars as S

        return self._py(split(S.div(norm_const(a), norm_const(b)))[0])

    def fn(self, name, x):
        import vsym.scalars as S

        return self._py(split(getattr(S, "v" + name)(norm_const(x)))[0])

    def And(self, *cs):
        return self._py(b_and(*[c.v if isinstance(c, SymBool) else bool(c) for c in cs]))

    def Or(self, *cs):
        return self._py(b_or(*[c.v if isinstance(c, SymBool) else bool(c) for c in cs]))

    def Not(self, c):
        return self._py(b_not(c.v if isinstance(c, SymBool) else bool(c)))

    def assume(self, c):
        self.path.assume(c.v if isinstance(c, SymBool) else bool(c))

    def near(self, a, b):
        """spec-side: equality (exact in the symbolic semantics)."""
        return self._py(split(eq(norm_const(a), norm_const(b)))[0])

    # -- obligations
    def _goal(self, goal, msg, margin=None):
        st = self.stats
        st.asserts += 1
        self.reached += 1
        if isinstance(goal, bool):
            if goal:
                st.trivial += 1
                return
            self._cex(None, msg, margin)
        g = z3.simplify(goal)
        if z3.is_true(g):
            # decided by z3's rewriter: the negation is literally false
            st.trivial += 1
            st.assert_queries += 1
            return
        if z3.is_false(g):
            self._cex(None, msg, margin)
        r, model = self._prove(g)
        if r == "unsat":
            return
        if r == "sat":
            self._cex(z3.Not(g), msg, margin, model)
        st.unknown += 1
        self.path.trace.append(f"unknown: {msg}")

    def _prove(self, g):
        p = self.path
        st = self.stats
        st.assert_queries += 1
        p.deadline()
        t1 = self.opts.get("prove_timeout_ms", 10000)
        r = p.check(z3.Not(g), timeout=t1)
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", p.solver.model()
        # portfolio on a fresh solver
        for mk in self._portfolio():
            p.deadline()
            t0 = time.time()
            try:
                s = mk()
                s.set("timeout", self.opts.get("prove_timeout2_ms", 20000))
                for c in p.pc:
                    s.add(c)
                s.add(z3.Not(g))
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            st.queries += 1
            st.solver_s += time.time() - t0
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                return "sat", s.model()
        r = cvc5_check(p.pc + [z3.Not(g)], self.opts.get("cvc5_timeout_s", 20), st)
        if r == "unsat":
            return "unsat", None
        return "unknown", None

    def _portfolio(self):
        def a():
            s = z3.SolverFor("QF_NRA")
            return s

        def b():
            return z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "smt").solver()

        return [a, b]

    def _cex(self, negated, msg, margins, model=None):
        """Pick a robust model (margin, bounded inputs) and abort the path."""
        p = self.path
        base = [negated] if negated is not None else []
        bnd = []
        for name, (kind, payload) in p.inputs.items():
            ts = payload[1] if kind == "tensor" else [payload] if kind == "real" else []
            for t in ts:
                if is_z3(t) and z3.is_real(t):
                    bnd.append(z3.And(t <= 16, t >= -16))
        tries = []
        for mg in (margins or []):
            tries.append(base[:0] + [mg] + bnd)
        tries += [base + bnd, base]
        best = None
        for t in tries:
            if best is not None:
                break
            if not t:
                r = p.check(timeout=8000)
            else:
                r = p.check(*t, timeout=8000)
            if r == z3.sat:
                best = p.solver.model()
        if best is None:
            best = model
        if best is None:
            if p.check(timeout=20000) == z3.sat:
                best = p.solver.model()
            else:
                self.stats.unknown += 1
                raise Unsupported("no model for failing path: " + msg)
        raise CexFound("assert", msg, p.model_values(best))

    def native(self, f, *args, **kwargs):
        """f on constant tensors, computed outside the symbolic interpreter."""
        from .tensor import native

        return native(f, *args, **kwargs)

    def known_svd(self, u, s, v, what):
        """Register u diag(s) v as the decomposition of its own product.

        u, s, v: nested lists of scalars; u, v orthonormal, s sorted, by the
        caller's assumptions.  A decomposition of any other matrix is reported
        as a candidate violation (and so only counts if it replays)."""
        from .tensor import _nested_arr, _op_diag, _op_mm

        U, S, V = _nested_arr(u), _nested_arr(s), _nested_arr(v)
        M = _op_mm(_op_mm(U, _op_diag(S)), V)
        reg = getattr(self.path, "svds", None)
        if reg is None:
            reg = self.path.svds = []
            self.path.svd = self._find_svd
        reg.append((M, U, S, V))
        return [[self._py(x) for x in r] for r in M]

    def _find_svd(self, a):
        for M, U, S, V in self.path.svds:
            for k in (1, -1):
                if M.shape == a.shape and all(_same(x, k * y) for x, y in zip(a.reshape(-1), M.reshape(-1))):
                    return U, S, (V if k == 1 else -V)
        self._cex(None, "a matrix other than the task vector is decomposed", None)

    def check(self, cond, msg):
        if isinstance(cond, SymBool):
            cond = cond.v
        elif isinstance(cond, torch.Tensor):
            sh, fl = _flat(cond)
            cond = b_and(*[b_and(*split(lift(as_bool)(x))) for x in fl])
        else:
            cond = True if cond else False
        self._goal(cond, msg)

    def eq(self, a, b, msg, tol=None):
        """a == b elementwise, same shape, all values defined."""
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if sa != sb:
            self._goal(False, f"{msg}: shape {sa} vs expected {sb}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            xv, xok = split(x)
            yv, yok = split(y)
            if _inf(xv) or _inf(yv):
                self._goal(xv == yv if not is_z3(xv) and not is_z3(yv) else False, msg)
                continue
            g = split(eq(xv, yv))[0]
            if is_z3(g) and z3.is_eq(g) and z3.is_real(g.arg(0)):
                # cheap: both sides have the same polynomial normal form
                d = z3.simplify(g.arg(0) - g.arg(1), som=True)
                if z3.is_rational_value(d):
                    g = z3.BoolVal(d.numerator_as_long() == 0)
            g = b_and(g, xok, yok)
            marg = []
            if not isinstance(g, bool) and (is_z3(xv) or is_z3(yv)) and not (
                is_z3(xv) and z3.is_bool(xv)) and not isinstance(xv, bool):
                d = zt(xv, True) - zt(yv, True)
                for m in (Fraction(1), Fraction(1, 8), Fraction(1, 128)):
                    marg.append(z3.And(zt(yok), z3.Or(d >= rv(m), d <= -rv(m), z3.Not(zt(xok)))))
            self._goal(g, f"{msg} [elem {i}]", marg)

    def defined(self, a, msg):
        for i, x in enumerate(_flat(a)[1]):
            v, ok = split(x)
            self._goal(b_and(ok, not _inf(v)), f"{msg}: element {i} finite")

    def le(self, a, b, msg, tol=None):
        (a_, aok), (b_, bok) = split(norm_const(a)), split(norm_const(b))
        g = b_and(split(le(a_, b_))[0], aok, bok)
        marg = []
        if is_z3(a_) or is_z3(b_):
            d = zt(a_, True) - zt(b_, True)
            marg = [d >= rv(m) for m in (Fraction(1), Fraction(1, 8), Fraction(1, 128))]
        self._goal(g, msg, marg)


def cvc5_check(constraints, timeout_s, st):
    s = z3.Solver()
    for c in constraints:
        s.add(c)
    txt = s.to_smt2()
    t0 = time.time()
    st.queries += 1
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
        r = subprocess.run(["cvc5", "--tlimit", str(int(timeout_s * 1000)), f.name],
                           capture_output=True, text=True, timeout=timeout_s + 10)
        out = r.stdout.strip().splitlines()
        if "(error" in r.stdout or "(error" in r.stderr:
            return "unknown"
        return out[-1] if out and out[-1] in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        st.solver_s += time.time() - t0
        try:
            os.unlink(f.name)
        except Exception:
            pass


# ------------------------------------------------------------------ concrete
def _unnum(x):
    if isinstance(x, dict) and "q" in x:
        n, d = x["q"]
        return n / d
    return x


class ConcCtx(BaseCtx):
    def native(self, f, *args, **kwargs):
        return f(*args, **kwargs)

    def known_svd(self, u, s, v, what):
        U, S, V = (torch.tensor(x, dtype=torch.float64) for x in (u, s, v))
        return (U @ torch.diag(S) @ V).tolist()

    """Runs a harness on concrete inputs against the unmodified code."""

    symbolic = False

    def __init__(self, values, rng=None, rtol=2e-4, atol=2e-4):
        self.values = values or {}
        self.rng = rng
        self.rtol, self.atol = rtol, atol
        self.reached = 0
        self.ndraw = 0
        self.log = {}

    def _get(self, name, default):
        v = self.values.get(name) or self.log.get(name)
        if v is None:
            v = {"data": default()}
        self.log[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict=False):
        def d():
            if self.rng is None:
                return float(lo if lo is not None else 0.0)
            a = -4 if lo is None else float(lo)
            b = (a + 8 if hi is None else float(hi))
            k = self.rng.randint(1, 15) if strict else self.rng.randint(0, 16)
            return a + (b - a) * k / 16

        return float(_unnum(self._get(name, d)["data"]))

    def int(self, name, lo, hi):
        return int(_unnum(self._get(name, lambda: self.rng.randint(lo, hi) if self.rng else lo)["data"]))

    cint = int

    def bool(self, name):
        return bool(self._get(name, lambda: bool(self.rng.randint(0, 1)) if self.rng else False)["data"])

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self._get(name, lambda: self.rng.randrange(len(options)) if self.rng else 0)["data"]
        return options[int(_unnum(i))]

    def tensor(self, name, shape, dtype=torch.float32, lo=None, hi=None):
        n = int(np.prod(shape)) if shape else 1

        def d():
            if self.rng is None:
                return [float(lo or 0.0)] * n
            a = -4 if lo is None else float(lo)
            b = (a + 8 if hi is None else float(hi))
            return [a + (b - a) * self.rng.randint(0, 64) / 64 for _ in range(n)]

        data = [_unnum(x) for x in self._get(name, d)["data"]]
        return torch.tensor(data, dtype=torch.float64).reshape(tuple(shape)).to(dtype)

    def mk_tensor(self, nested, dtype=torch.float32):
        return torch.tensor(nested, dtype=dtype)

    def elems(self, t):
        if isinstance(t, torch.Tensor):
            if t.dtype == torch.bool:
                return [bool(x) for x in t.reshape(-1).tolist()]
            return t.detach().to(torch.float64 if t.dtype.is_floating_point else t.dtype).reshape(-1).tolist()
        return list(np.asarray(t).reshape(-1).tolist())

    def If(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0))

    def probs(self):
        log = self.dm.log if self.dm is not None else []
        if any(k != "bernoulli" for k, _ in log):
            return None
        return [x for _, p in log for x in p]

    dm = None

    def quot(self, a, b):
        return a / b

    def fn(self, name, x):
        if name == "acos":
            return math.acos(max(-1.0, min(1.0, x)))
        return getattr(math, name)(x)

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def near(self, a, b):
        return abs(a - b) <= self.atol + self.rtol * abs(b)

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, cond, msg):
        self.reached += 1
        if isinstance(cond, torch.Tensor):
            cond = bool(cond.all())
        if not cond:
            raise HarnessFailure(msg)

    def eq(self, a, b, msg, tol=None):
        self.reached += 1
        ta = a if isinstance(a, torch.Tensor) else torch.tensor(_py(a))
        tb = b if isinstance(b, torch.Tensor) else torch.tensor(_py(b))
        if tuple(ta.shape) != tuple(tb.shape):
            raise HarnessFailure(f"{msg}: shape {tuple(ta.shape)} vs expected {tuple(tb.shape)}")
        if ta.dtype == torch.bool or tb.dtype == torch.bool:
            if not torch.equal(ta.bool(), tb.bool()):
                raise HarnessFailure(f"{msg}: {ta.tolist()} vs expected {tb.tolist()}")
            return
        da, db = ta.detach().double(), tb.detach().double()
        k = 1.0
        if isinstance(a, torch.Tensor) and a.dtype in (torch.bfloat16, torch.float16):
            k = 200.0
        if tol is not None:
            k *= tol
        if not torch.allclose(da, db, rtol=self.rtol * k, atol=self.atol * k):
            raise HarnessFailure(f"{msg}: got {da.tolist()} expected {db.tolist()}")

    def defined(self, a, msg):
        self.reached += 1
        t = a if isinstance(a, torch.Tensor) else torch.tensor(_py(a))
        if not bool(torch.isfinite(t.double()).all()):
            raise HarnessFailure(f"{msg}: non-finite values {t.tolist()}")

    def le(self, a, b, msg, tol=None):
        self.reached += 1
        k = tol or 1.0
        a, b = float(a), float(b)
        if not (a <= b + (self.atol + self.rtol * abs(b)) * k):
            raise HarnessFailure(f"{msg}: {a} > {b}")


def _py(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_py(y) for y in x]
    if isinstance(x, torch.Tensor):
        return x.tolist()
    return x


class DrawMode(torch.overrides.TorchFunctionMode):
    """Replays the random draws of a counterexample (torch.bernoulli & co)."""

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.n = 0
        self.log = []

    def __torch_function__(self, func, types, args=(), kwargs=None):
        n = getattr(func, "__name__", "")
        if n in ("bernoulli", "rand", "randn", "rand_like", "randn_like", "bernoulli_"):
            self.n += 1
            if n.startswith("bernoulli"):
                self.log.append(("bernoulli", args[0].detach().clone().reshape(-1).tolist()))
            else:
                self.log.append((n, None))
            v = self.values.get(f"rand#{self.n}")
            real = func(*args, **(kwargs or {}))
            if v is not None:
                data = [float(_unnum(x)) for x in v["data"]]
                if len(data) == real.numel():
                    t = torch.tensor(data, dtype=real.dtype).reshape(real.shape)
                    if n == "bernoulli_":
                        args[0].copy_(t)
                        return args[0]
                    return t
            return real
        return func(*args, **(kwargs or {}))


# ------------------------------------------------------------------ explorer
def explore(fn, opts):
    """Explore every feasible path of harness fn.  Returns a result dict."""
    st = Stats()
    t0 = time.time()
    opts = dict(opts)
    opts["deadline"] = t0 + opts.get("time_s", 120)
    work = [[]]
    res = dict(status="holds", cex=[], notes=[], samples=[])
    reached = 0
    max_paths = opts.get("max_paths", 20000)
    keep = opts.get("keep_samples", 4)
    while work:
        prefix = work.pop()
        if st.paths >= max_paths or time.time() > opts["deadline"]:
            res["status"] = "inconclusive"
            res["notes"].append(f"budget exhausted after {st.paths} paths, {len(work) + 1} pending")
            break
        p = Path(prefix, st, opts)
        core.CUR = p
        ctx = SymCtx(p, opts)
        st.paths += 1
        try:
            try:
                with SymMode():
                    fn(ctx)
            finally:
                pass
        except PathAbort:
            pass
        except CexFound as c:
            res["status"] = "cex"
            res["cex"].append(dict(kind=c.kind, message=c.message, values=c.values))
        except (Unsupported, BudgetExceeded) as e:
            if res["status"] == "holds":
                res["status"] = "inconclusive"
            res["notes"].append(f"{type(e).__name__}: {e} @ {_where(e)}")
            if len(res["notes"]) > 10:
                break
        except z3.Z3Exception as e:
            res["status"] = "inconclusive"
            res["notes"].append(f"Z3Exception: {e} @ {_where(e)}")
            if len(res["notes"]) > 10:
                break
        except Exception as e:
            if mismatch(e):
                res["status"] = "inconclusive"
                res["notes"].append(f"the harness does not fit the code: {type(e).__name__}: {e}")
                break
            # the code under test raised on a feasible path
            r = p.check(timeout=20000)
            if r == z3.sat:
                res["status"] = "cex"
                res["cex"].append(dict(kind="exception", message=f"{type(e).__name__}: {e} @ {_where(e)}",
                                       values=p.model_values(p.solver.model()),
                                       tb=traceback.format_exc(limit=-6)))
            elif r == z3.unknown:
                res["status"] = "inconclusive"
                res["notes"].append(f"exception on undecided path: {type(e).__name__}: {e}")
        else:
            if ctx.reached:
                reached += 1
                if len(res["samples"]) < keep:
                    if p.check(timeout=5000) == z3.sat:
                        res["samples"].append(p.model_values(p.solver.model()))
        work.extend(p.alts)
        core.CUR = None
        if len(res["cex"]) >= opts.get("max_cex", 6):
            break
        for t in p.trace:
            if len(res["notes"]) < 10:
                res["notes"].append(t)
    core.CUR = None
    if res["status"] == "holds" and st.unknown:
        res["status"] = "inconclusive"
    if res["status"] == "holds" and reached == 0:
        res["status"] = "vacuous"
    res["reached_paths"] = reached
    res["stats"] = st.as_dict()
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/repo/" in f.filename] or tb[-1:]
    f = fr[-1]
    extra = tb[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno} ({os.path.basename(extra.filename)}:{extra.lineno})"


_VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mismatch(e):
    """True when the harness itself no longer fits the code (a renamed internal, another
    signature): no statement about the property, hence neither a violation nor `holds`."""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return False
    own = tb[-1].filename.startswith(_VERIF)
    if isinstance(e, ImportError):
        return own or (e.name or "").startswith("mergekit") and any(f.filename.startswith(_VERIF) for f in tb[-8:])
    if own and isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        return isinstance(o, (types.ModuleType, type)) or type(o).__module__.startswith("mergekit")
    if own and isinstance(e, TypeError):
        return bool(re.search(r"unexpected keyword argument|missing \d+ required|takes .*positional argument", str(e)))
    if type(e).__name__ == "ValidationError" and hasattr(e, "errors"):
        fr = [f for f in tb if "pydantic" not in f.filename]
        return bool(fr) and fr[-1].filename.startswith(_VERIF) and all(x["type"] in ("missing", "extra_forbidden") for x in e.errors())
    return False


def run_concrete(fn, values=None, rng=None):
    """Returns None when the harness holds on these inputs, else a message."""
    ctx = ConcCtx(values, rng)
    try:
        with DrawMode(values or {}) as dm:
            ctx.dm = dm
            fn(ctx)
    except PathAbort:
        return None, ctx, "skipped"
    except HarnessFailure as e:
        return f"property assertion failed: {e}", ctx, "fail"
    except Exception as e:
        if mismatch(e):
            return None, ctx, "harness does not fit the code"
        return f"exception {type(e).__name__}: {e} @ {_where(e)}", ctx, "exc"
    return None, ctx, "ok"
