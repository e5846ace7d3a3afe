"""Path-forking symbolic execution core.

A harness is an ordinary function h(ctx).  It is re-executed once per feasible
path; whenever the code under test branches on a symbolic truth value the
engine asks z3 which sides are feasible under the path condition, follows one
and queues the other.  Assertions become queries `path condition AND NOT prop`.
"""
import time
from fractions import Fraction

from .z3load import z3


class PathAbort(BaseException):
    """Path is infeasible / cut (BaseException so product code can't eat it)."""


class Unsupported(BaseException):
    """The symbolic engine cannot model an operation."""


class BudgetExceeded(BaseException):
    pass


class CexFound(BaseException):
    """An assertion can fail on this path; carries the concrete inputs."""

    def __init__(self, kind, message, values):
        super().__init__(message)
        self.kind, self.message, self.values = kind, message, values


class HarnessFailure(Exception):
    """Concrete mode: a property assertion does not hold."""


# ---------------------------------------------------------------- statistics
class Stats:
    def __init__(self):
        self.queries = 0
        self.assert_queries = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown = 0
        self.asserts = 0
        self.trivial = 0
        self.cut = []

    def as_dict(self):
        return dict(
            queries=self.queries,
            assert_queries=self.assert_queries,
            branch_queries=self.branch_queries,
            solver_s=round(self.solver_s, 3),
            paths=self.paths,
            unknown=self.unknown,
            asserts=self.asserts,
            trivially_true_asserts=self.trivial,
        )


CUR = None  # the running Path


def cur():
    if CUR is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return CUR


_frac_cache = {}


def rv(x):
    """Fraction/int -> z3 Real numeral."""
    x = Fraction(x)
    r = _frac_cache.get(x)
    if r is None:
        r = z3.Q(x.numerator, x.denominator)
        _frac_cache[x] = r
    return r


class Path:
    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alts = []
        self.stats = stats
        self.opts = opts
        self.pc = []  # path condition + definitional constraints
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_timeout_ms", 1500))
        self.solver.set("random_seed", opts.get("seed", 1) % 1000)
        self.inputs = {}  # name -> (kind, payload)
        self.fresh = 0
        self.memo = {}
        self.trace = []
        self.known = {}  # decided literals on this path

    # -- basic
    def new_name(self, base):
        self.fresh += 1
        return f"{base}!{self.fresh}"

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra, timeout=None):
        t0 = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.opts.get("branch_timeout_ms", 1500))
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r

    def deadline(self):
        d = self.opts.get("deadline")
        if d and time.time() > d:
            raise BudgetExceeded("time budget of obligation exhausted")

    # -- branching
    def _decide(self, cond, val, tag):
        self.pos += 1
        self.decisions.append((val, tag))
        self.add(cond if val else z3.Not(cond))
        self.known[cond.get_id()] = (cond, val)
        return val

    def branch(self, cond, tag=None):
        """Decide the z3 Bool `cond`, forking when both sides are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.known:
            return self.known[k][1]
        self.deadline()
        if tag is None:
            tag = ("b", _fingerprint(cond))
        if self.pos < len(self.prefix):
            val, ptag = self.prefix[self.pos]
            if ptag != tag:
                raise Unsupported("non-deterministic re-execution")
            return self._decide(cond, val, tag)
        self.stats.branch_queries += 1
        rt = self.check(cond)
        if rt == z3.unsat:
            return self._decide(cond, False, tag)
        rf = self.check(z3.Not(cond))
        if rf == z3.unsat:
            return self._decide(cond, True, tag)
        # both sides feasible (or undecided: exploring both stays sound)
        self.alts.append(self.decisions + [(False, tag)])
        if len(self.alts) > self.opts.get("max_alts", 5000):
            raise BudgetExceeded("too many forks on one path")
        return self._decide(cond, True, tag)

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        self.add(cond)
        if not self.opts.get("lazy_assume") and self.check() == z3.unsat:
            raise PathAbort()

    def concretize_int(self, term, limit=64):
        """Fork over the values of an Int term."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        kid = ("i", term.get_id())
        if kid in self.known:
            return self.known[kid][1]
        v = self._concretize_int(term, limit)
        self.known[kid] = (term, v)
        return v

    def _concretize_int(self, term, limit):
        for _ in range(limit):
            if self.pos < len(self.prefix):
                val, tag = self.prefix[self.pos]
                if tag[0] != "v":
                    raise Unsupported("non-deterministic re-execution")
                v = tag[1]
            else:
                r = self.check()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise BudgetExceeded("solver unknown while concretising")
                v = self.solver.model().eval(term, model_completion=True).as_long()
            c = z3.simplify(term == v)
            if z3.is_true(c):
                return v
            if self.branch(c, tag=("v", v)):
                return v
        raise BudgetExceeded("too many values when concretising an int")

    # -- naming
    def model_values(self, model):
        out = {}
        for name, (kind, payload) in self.inputs.items():
            out[name] = _concretize(kind, payload, model)
        return out


def _fingerprint(t, cap=400):
    """order-insensitive name set of a condition (re-execution check)."""
    seen, names, work = set(), set(), [t]
    while work and len(seen) < cap:
        x = work.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(str(x))
        else:
            work.extend(x.children())
    if work:
        return "big"
    return ",".join(sorted(names))


def z3num(v):
    """z3 numeral -> Fraction (algebraic numbers approximated)."""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"cannot read model value {v}")


def _concretize(kind, payload, model):
    def ev(t):
        if isinstance(t, (bool, int, Fraction, float, str)):
            return t
        v = model.eval(t, model_completion=True)
        if z3.is_bool(v):
            return z3.is_true(v)
        f = z3num(v)
        return f

    def num(x):
        if isinstance(x, Fraction):
            return {"q": [x.numerator, x.denominator]}
        return x

    if kind == "tensor":
        shape, flat, dt = payload
        return {"kind": kind, "shape": list(shape), "dtype": dt,
                "data": [num(ev(t)) for t in flat]}
    if kind in ("real", "int", "bool"):
        v = ev(payload)
        if kind == "int":
            v = int(v)
        return {"kind": kind, "data": num(v)}
    if kind == "choice":
        term, n = payload
        return {"kind": kind, "data": int(ev(term))}
    raise Unsupported(kind)
