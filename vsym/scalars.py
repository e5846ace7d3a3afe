"""Element values and symbolic Python scalars.

An *element value* is one of
  bool | int | Fraction            concrete, exact
  float inf/-inf                   concrete, special
  z3 BoolRef / Int / Real term     symbolic
  Und(val, ok)                     value that is only defined when `ok` holds
                                   (NaN/inf/bernoulli-out-of-range tracking)
"""
import math
from fractions import Fraction

from . import core
from .core import Unsupported, cur, rv
from .z3load import z3


class Und:
    __slots__ = ("val", "ok")

    def __init__(self, val, ok):
        self.val, self.ok = val, ok


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def und(val, ok):
    if isinstance(ok, bool):
        return val if ok else Und(val, False)
    ok = z3.simplify(ok)
    if z3.is_true(ok):
        return val
    if z3.is_false(ok):
        return Und(val, False)
    return Und(val, ok)


def split(x):
    if type(x) is Und:
        return x.val, x.ok
    return x, True


def b_and(*xs):
    ys = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def b_or(*xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def b_not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


_fr = {}


def frac(x):
    """float -> the simplest rational that rounds to it (0.1 is 1/10, 1/3 is 1/3)."""
    r = _fr.get(x)
    if r is None:
        r = Fraction(x)
        if r.denominator > 4096:
            q = r.limit_denominator(10**9)
            if float(q) == x:
                r = q
            elif x != 0 and abs(x) < 1e-6:
                q = 1 / (1 / r).limit_denominator(10**3)
                if float(q) == x:
                    r = q
        if len(_fr) > 100000:
            _fr.clear()
        _fr[x] = r
    return r


def norm_const(x):
    """Python/numpy number -> element value."""
    if type(x) in (bool, int, Fraction):
        return x
    if isinstance(x, (SymReal, SymInt, SymBool)):
        return x.v
    if is_z3(x) or type(x) is Und:
        return x
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return bool(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float) or hasattr(x, "dtype"):
        if hasattr(x, "dtype") and x.dtype.kind in "iu":
            return int(x)
        if hasattr(x, "dtype") and x.dtype.kind == "b":
            return bool(x)
        x = float(x)
        if math.isnan(x):
            return Und(Fraction(0), False)
        if math.isinf(x):
            return x
        return frac(x)
    if isinstance(x, complex):
        raise Unsupported("complex")
    raise Unsupported(f"element {type(x)}")


def conc(x):
    return not is_z3(x) and type(x) is not Und


def as_bool(x):
    if isinstance(x, bool):
        return x
    if is_z3(x):
        if z3.is_bool(x):
            return x
        return x != 0
    return x != 0


def as_num(x):
    """bool -> 0/1."""
    if isinstance(x, bool):
        return int(x)
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def as_real(x):
    x = as_num(x)
    if is_z3(x):
        return z3.ToReal(x) if x.is_int() else x
    if isinstance(x, int):
        return Fraction(x)
    return x


def zt(x, real=None):
    """element value -> z3 term."""
    if is_z3(x):
        if real and z3.is_bool(x):
            x = as_num(x)
        if real and x.is_int():
            return z3.ToReal(x)
        return x
    if isinstance(x, bool):
        if real:
            return rv(int(x))
        return z3.BoolVal(x)
    if isinstance(x, int) and not real:
        return z3.IntVal(x)
    if isinstance(x, float):
        raise Unsupported("infinite value in symbolic arithmetic")
    return rv(x)


def lift(f):
    def g(*a):
        if any(type(x) is Und for x in a):
            vs, oks = zip(*[split(x) for x in a])
            r = f(*vs)
            rv_, rok = split(r)
            return und(rv_, b_and(*oks, rok))
        return f(*a)

    return g


def _isint(x):
    return isinstance(x, int) or (is_z3(x) and x.is_int())


def _pair(a, b):
    a, b = as_num(a), as_num(b)
    if _isint(a) and _isint(b):
        return a, b, False
    return as_real(a), as_real(b), True


def _inf(x):
    return isinstance(x, float)


@lift
def add(a, b):
    a, b, real = _pair(a, b)
    if _inf(a) or _inf(b):
        if _inf(a) and _inf(b):
            return a if a == b else Und(Fraction(0), False)
        return a if _inf(a) else b
    if not is_z3(a) and not is_z3(b):
        return a + b
    if not is_z3(a) and a == 0:
        return b
    if not is_z3(b) and b == 0:
        return a
    return _post(zt(a, real) + zt(b, real))


def ckey(t):
    """key of a sum-of-monomials term that ignores the order of summands and
    factors (z3's normal form depends on the order terms were created in)"""
    if z3.is_add(t):
        return ("+",) + tuple(sorted((ckey(c) for c in t.children()), key=repr))
    if z3.is_mul(t):
        return ("*",) + tuple(sorted((ckey(c) for c in t.children()), key=repr))
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        return ("^", ckey(t.arg(0)), t.arg(1).get_id())
    return t.get_id()


def _post(t):
    """opts['abstract']=N: name subterms with more than N monomials, so that
    equal intermediate results of code and spec share one constant."""
    p = core.CUR
    if p is None or not z3.is_real(t):
        return t
    n = p.opts.get("abstract")
    if not n:
        return t
    s = z3.simplify(t, som=True)
    if z3.is_add(s) and s.num_args() > n:
        def mk():
            v = z3.Real(p.new_name("def"))
            p.add(v == s)
            return (s, v)

        return _memo(("abs", ckey(s)), mk)
    return s


@lift
def neg(a):
    a = as_num(a)
    if is_z3(a):
        return -a
    return -a


def sub(a, b):
    return add(a, neg(b))


@lift
def mul(a, b):
    a, b, real = _pair(a, b)
    if _inf(a) or _inf(b):
        x, y = (a, b) if _inf(a) else (b, a)
        if not is_z3(y):
            if y == 0:
                return Und(Fraction(0), False)
            return x if y > 0 else -x
        return Und(Fraction(0), False)
    if not is_z3(a) and not is_z3(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_z3(x):
            if x == 0:
                return Fraction(0) if real else 0
            if x == 1:
                return y
            if x == -1:
                return -zt(y, real)
    # a * ite(c, k, 0) -> ite(c, a*k, 0): keeps 0/1 masks linear
    for x, y in ((a, b), (b, a)):
        if is_z3(y) and z3.is_app_of(y, z3.Z3_OP_ITE):
            t, e = y.arg(1), y.arg(2)
            if _isnum(t) and _isnum(e):
                return ite(y.arg(0), mul(x, num(t)), mul(x, num(e)))
        if is_z3(y) and z3.is_to_real(y) and z3.is_app_of(y.arg(0), z3.Z3_OP_ITE):
            w = y.arg(0)
            if _isnum(w.arg(1)) and _isnum(w.arg(2)):
                return ite(w.arg(0), mul(x, Fraction(num(w.arg(1)))), mul(x, Fraction(num(w.arg(2)))))
    return _post(zt(a, real) * zt(b, real))


def _isnum(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def num(t):
    if z3.is_int_value(t):
        return t.as_long()
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


@lift
def div(a, b):
    a, b = as_real(a), as_real(b)
    if _inf(b):
        return Fraction(0) if not _inf(a) else Und(Fraction(0), False)
    if not is_z3(b):
        if b == 0:
            return Und(Fraction(0), False)
        if _inf(a):
            return a if b > 0 else -a
        if not is_z3(a):
            return a / b
        return mul(a, 1 / b)
    if _inf(a):
        return Und(Fraction(0), False)
    sb = z3.simplify(b)
    if _isnum(sb):
        return div(a, Fraction(num(sb)))
    return und(_mulz(zt(a, True), _inv(b)), b != 0)


def _mulz(x, y):
    return y if _isnum(x) and num(x) == 1 else x * y


def _inv(b):
    """1/b as a defined constant, split over the factors of b."""
    t = z3.simplify(b, som=True)
    if z3.is_mul(t):
        k, fs = Fraction(1), []
        for c in t.children():
            if _isnum(c):
                k *= Fraction(num(c))
            else:
                fs.append(c)
        r = None
        for f in fs:
            i = _inv1(f)
            r = i if r is None else r * i
        if r is None:
            return rv(1 / k)
        return r if k == 1 else rv(1 / k) * r
    return _inv1(t)


def _inv1(t):
    if z3.is_app_of(t, z3.Z3_OP_POWER) and _isnum(t.arg(1)):
        n = num(t.arg(1))
        if n == int(n) and 0 < n < 8:
            i = _inv1(t.arg(0))
            r = i
            for _ in range(int(n) - 1):
                r = r * i
            return r

    def mk():
        p = cur()
        i = z3.Real(p.new_name("inv"))
        p.add(z3.Implies(t != 0, t * i == 1))
        return (t, i)

    return _memo(("inv", ckey(t)), mk)


@lift
def lt(a, b):
    a, b, real = _pair(a, b)
    if not is_z3(a) and not is_z3(b):
        return bool(a < b)
    if _inf(a):
        return a < 0
    if _inf(b):
        return b > 0
    return zt(a, real) < zt(b, real)


@lift
def le(a, b):
    a, b, real = _pair(a, b)
    if not is_z3(a) and not is_z3(b):
        return bool(a <= b)
    if _inf(a):
        return a < 0
    if _inf(b):
        return b > 0
    return zt(a, real) <= zt(b, real)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


@lift
def eq(a, b):
    if (isinstance(a, bool) or (is_z3(a) and z3.is_bool(a))) and (
        isinstance(b, bool) or (is_z3(b) and z3.is_bool(b))
    ):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return a if b else z3.Not(a)
        return a == b
    a, b, real = _pair(a, b)
    if not is_z3(a) and not is_z3(b):
        return bool(a == b)
    if _inf(a) or _inf(b):
        return False
    a, b = zt(a, real), zt(b, real)
    if a.eq(b):
        return True
    return a == b


def ne(a, b):
    return lnot(eq(a, b))


@lift
def land(a, b):
    return b_and(as_bool(a), as_bool(b))


@lift
def lor(a, b):
    return b_or(as_bool(a), as_bool(b))


@lift
def lnot(a):
    return b_not(as_bool(a))


@lift
def lxor(a, b):
    a, b = as_bool(a), as_bool(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return z3.Xor(zt(a), zt(b))


def ite(c, a, b):
    c, cok = split(c)
    c = as_bool(c)
    if isinstance(c, bool):
        r = a if c else b
        if cok is True:
            return r
        v, ok = split(r)
        return und(v, b_and(cok, ok))
    if is_z3(c) and core.CUR is not None:
        if core.CUR.opts.get("ite") == "fork":
            return ite(und(core.CUR.branch(c), cok), a, b)
        k = core.CUR.known.get(c.get_id())
        if k is not None:
            return ite(k[1], a, b)
    av, aok = split(a)
    bv, bok = split(b)
    if aok is True and bok is True:
        ok = cok
    else:
        ok = b_and(cok, b_or(b_and(c, aok), b_and(b_not(c), bok)))
    if av is bv or (is_z3(av) and is_z3(bv) and av.eq(bv)):
        return und(av, ok)
    isb = lambda x: isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))
    if isb(av) and isb(bv):
        if av is True and bv is False:
            return und(c, ok)
        if av is False and bv is True:
            return und(b_not(c), ok)
        return und(z3.If(c, zt(av), zt(bv)), ok)
    if _inf(av) or _inf(bv):
        if not is_z3(av) and not is_z3(bv) and av == bv:
            return und(av, ok)
        # infinite on one side: fork so the special value stays concrete
        if cur().branch(c):
            return und(av, b_and(cok, aok))
        return und(bv, b_and(cok, bok))
    av, bv, real = _pair(av, bv)
    if not is_z3(av) and not is_z3(bv) and av == bv:
        return und(av, ok)
    return und(z3.If(c, zt(av, real), zt(bv, real)), ok)


def absv(a):
    v, ok = split(a)
    v = as_num(v)
    if not is_z3(v):
        return und(abs(v), ok)
    if _forking():
        return und(v if core.CUR.branch(v >= 0) else -v, ok)
    return und(z3.If(v >= 0, v, -v), ok)


def _forking():
    return core.CUR is not None and core.CUR.opts.get("ite") == "fork"


def sign(a):
    v, ok = split(a)
    v = as_num(v)
    if not is_z3(v):
        s = (v > 0) - (v < 0)
        return und(s if isinstance(v, int) else Fraction(s), ok)
    if v.is_int():
        one, zero = z3.IntVal(1), z3.IntVal(0)
    else:
        one, zero = rv(1), rv(0)
    if _forking():
        s = one if core.CUR.branch(v > 0) else -one if core.CUR.branch(v < 0) else zero
        return und(num(z3.simplify(s)) if v.is_int() else Fraction(num(z3.simplify(s))), ok)
    return und(z3.If(v > 0, one, z3.If(v < 0, -one, zero)), ok)


def vmax(a, b):
    return ite(ge(a, b), a, b)


def vmin(a, b):
    return ite(le(a, b), a, b)


# -------------------------------------------------- transcendental functions
_UF = {}


def uf(name, arity=1):
    if name not in _UF:
        _UF[name] = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
    return _UF[name]


def _memo(key, mk):
    p = cur()
    if key not in p.memo:
        p.memo[key] = mk()
    return p.memo[key][-1]


def _perfect_root(q):
    n = math.isqrt(q.numerator)
    d = math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


def vsqrt(a):
    v, ok = split(a)
    v = as_real(v)
    if not is_z3(v):
        if _inf(v):
            return und(v, ok) if v > 0 else Und(Fraction(0), False)
        if v < 0:
            return Und(Fraction(0), False)
        r = _perfect_root(v)
        if r is None and cur().opts.get("approx"):
            r = Fraction(math.sqrt(v)).limit_denominator(10**18)
        if r is not None:
            return und(r, ok)
        t = rv(v)
    else:
        t = z3.simplify(v, som=True)
        if _isnum(t):
            return vsqrt(und(Fraction(num(t)), ok))

    def mk():
        p = cur()
        s = z3.Real(p.new_name("sqrt"))
        p.add(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)))
        return (t, s)

    s = _memo(("sqrt", ckey(t)), mk)
    return und(s, b_and(ok, True if not is_z3(v) else t >= 0))


PI = z3.Real("pi!const")


def _uf1(name, axioms, special=None, domain=None):
    def f(a):
        v, ok = split(a)
        v = as_real(v)
        if not is_z3(v) and not _inf(v) and cur().opts.get("approx"):
            # opts['approx']: functions of constants are their double values
            # (the obligation compares within a tolerance far above 1e-15)
            if name == "acos" and abs(v) > 1 or name == "log" and v <= 0:
                return Und(Fraction(0), False)
            return und(Fraction(getattr(math, name)(v)).limit_denominator(10**18), ok)
        if special is not None and not is_z3(v):
            r = special(v)
            if r is not None:
                return und(r, ok)
        if _inf(v):
            return Und(Fraction(0), False)
        t = z3.simplify(zt(v, True), som=True)
        if special is not None and _isnum(t):
            r = special(Fraction(num(t)))
            if r is not None:
                return und(r, ok)
        fn = uf(name)

        def mk():
            p = cur()
            y = fn(t)
            prev = [q for (k, q) in p.memo.items() if isinstance(k, tuple) and k[0] == name]
            for ax in axioms(t, y, prev):
                p.add(ax)
            return (t, y)

        y = _memo((name, ckey(t)), mk)
        if domain is not None:
            ok = b_and(ok, domain(t))
        return und(y, ok)

    return f


def _pi_ax():
    p = cur()
    if "pi" not in p.memo:
        p.memo["pi"] = (PI,)
        p.add(z3.And(PI > rv(Fraction(314, 100)), PI < rv(Fraction(315, 100))))


def _sp_exp(v):
    if _inf(v):
        return Fraction(0) if v < 0 else v
    return Fraction(1) if v == 0 else None


def _mono(t, y, prev, strict=True):
    for (t2, y2) in prev:
        yield z3.And(z3.Implies(t < t2, y < y2), z3.Implies(t2 < t, y2 < y),
                     z3.Implies(t == t2, y == y2))


vexp = _uf1("exp", lambda t, y, prev: [y > 0, z3.Implies(t == 0, y == 1),
                                       z3.Implies(t > 0, y > 1), z3.Implies(t < 0, y < 1),
                                       y >= t + 1] + list(_mono(t, y, prev)), _sp_exp)
vlog = _uf1("log", lambda t, y, prev: [z3.Implies(t == 1, y == 0), z3.Implies(t > 1, y > 0),
                                       z3.Implies(z3.And(t > 0, t < 1), y < 0)],
            lambda v: Fraction(0) if v == 1 else None, lambda t: t > 0)


def _ax_acos(t, y, prev):
    _pi_ax()
    return [z3.Implies(z3.And(t >= -1, t <= 1), z3.And(y >= 0, y <= PI)),
            z3.Implies(t == 1, y == 0), z3.Implies(t == -1, y == PI),
            z3.Implies(z3.And(t > -1, t < 1), z3.And(y > 0, y < PI)),
            z3.Implies(t == 0, 2 * y == PI)]


vacos = _uf1("acos", _ax_acos, lambda v: Fraction(0) if v == 1 else None,
             lambda t: z3.And(t >= -1, t <= 1))


def _ax_sin(t, y, prev):
    _pi_ax()
    return [y <= 1, y >= -1, z3.Implies(z3.And(t > 0, t < PI), y > 0), z3.Implies(t == 0, y == 0),
            z3.Implies(t == PI, y == 0), z3.Implies(z3.And(t < 0, t > -PI), y < 0)]


def _ax_cos(t, y, prev):
    _pi_ax()
    return [y <= 1, y >= -1, z3.Implies(t == 0, y == 1), z3.Implies(t == PI, y == -1)]


vsin = _uf1("sin", _ax_sin, lambda v: Fraction(0) if v == 0 else None)
vcos = _uf1("cos", _ax_cos, lambda v: Fraction(1) if v == 0 else None)
vtanh = _uf1("tanh", lambda t, y, prev: [y < 1, y > -1, z3.Implies(t == 0, y == 0)],
             lambda v: Fraction(0) if v == 0 else None)


def vpow(a, b):
    bv, bok = split(b)
    if not is_z3(bv):
        bf = Fraction(as_num(bv)) if not _inf(bv) else None
        if bf is not None:
            if bf == 2:
                return mul(a, a)
            if bf == Fraction(1, 2):
                return vsqrt(a)
            if bf == Fraction(-1, 2):
                return div(Fraction(1), vsqrt(a))
            if bf.denominator == 1 and abs(bf.numerator) <= 12:
                n = abs(bf.numerator)
                r = Fraction(1)
                for _ in range(n):
                    r = mul(r, a)
                return r if bf.numerator >= 0 else div(Fraction(1), r)
    av, aok = split(a)
    if not is_z3(av) and not is_z3(bv):
        return und(Fraction(float(av) ** float(bv)), b_and(aok, bok))
    fn = uf("pow", 2)
    return und(fn(zt(av, True), zt(bv, True)), b_and(aok, bok))


def vfloor(a):
    v, ok = split(a)
    v = as_num(v)
    if not is_z3(v):
        if isinstance(v, int):
            return a
        return und(math.floor(v), ok)
    if v.is_int():
        return a
    return und(z3.ToInt(v), ok)


def vtrunc(a):
    v, ok = split(a)
    v = as_num(v)
    if not is_z3(v):
        return und(int(v), ok)
    if v.is_int():
        return und(v, ok)
    return und(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)), ok)


def vceil(a):
    return neg(vfloor(neg(a)))


def vround(a):
    """round half to even."""
    v, ok = split(a)
    v = as_num(v)
    if not is_z3(v):
        return und(round(v), ok)
    if v.is_int():
        return a
    f = z3.ToInt(v)
    fr = v - z3.ToReal(f)
    half = rv(Fraction(1, 2))
    r = z3.If(fr < half, f, z3.If(fr > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return und(r, ok)


# ------------------------------------------------------------ Python scalars
def mk_scalar(v):
    """element value -> Python object handed to code under test."""
    val, ok = split(v)
    if ok is not True:
        # touching an undefined value from Python: fork on definedness
        if ok is False or not cur().branch(ok):
            return float("nan")
    if isinstance(val, (bool, int)):
        return val
    if isinstance(val, float):
        return val
    if isinstance(val, Fraction):
        return SymReal(val)
    val = z3.simplify(val)
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    if z3.is_bool(val):
        return SymBool(val)
    if z3.is_int_value(val):
        return val.as_long()
    if val.is_int():
        return SymInt(val)
    if z3.is_rational_value(val):
        return mk_scalar(num(val) if not isinstance(num(val), int) else Fraction(num(val)))
    return SymReal(val)


def _operand(o):
    if isinstance(o, (SymReal, SymInt, SymBool)):
        return o.v
    if isinstance(o, (bool, int, Fraction)):
        return o
    if isinstance(o, float):
        return norm_const(o)
    if type(o).__module__ == "numpy" and getattr(o, "ndim", 1) == 0:
        return norm_const(o)
    return NotImplemented


def _bin(f, swap=False):
    def g(self, o):
        w = _operand(o)
        if w is NotImplemented:
            return NotImplemented
        return mk_scalar(f(w, self.v) if swap else f(self.v, w))

    return g


class SymBool:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return cur().branch(self.v)

    def __and__(self, o):
        return mk_scalar(land(self.v, _operand(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_scalar(lor(self.v, _operand(o)))

    __ror__ = __or__

    def __invert__(self):
        return mk_scalar(lnot(self.v))

    __xor__ = _bin(lxor)

    def __eq__(self, o):
        w = _operand(o)
        if w is NotImplemented:
            return False
        return mk_scalar(eq(self.v, w))

    def __ne__(self, o):
        w = _operand(o)
        if w is NotImplemented:
            return True
        return mk_scalar(ne(self.v, w))

    def __hash__(self):
        return self.v.hash()

    __add__ = _bin(add)
    __radd__ = _bin(add, True)
    __mul__ = _bin(mul)
    __rmul__ = _bin(mul, True)
    __sub__ = _bin(sub)
    __rsub__ = _bin(sub, True)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return f"SymBool({self.v})"


class _NumMixin:
    __add__ = _bin(add)
    __radd__ = _bin(add, True)
    __sub__ = _bin(sub)
    __rsub__ = _bin(sub, True)
    __mul__ = _bin(mul)
    __rmul__ = _bin(mul, True)

    def __truediv__(self, o):
        w = _operand(o)
        if w is NotImplemented:
            return NotImplemented
        return _pydiv(self.v, w)

    def __rtruediv__(self, o):
        w = _operand(o)
        if w is NotImplemented:
            return NotImplemented
        return _pydiv(w, self.v)

    __lt__ = _bin(lt)
    __le__ = _bin(le)
    __gt__ = _bin(gt)
    __ge__ = _bin(ge)

    def __eq__(self, o):
        w = _operand(o)
        if w is NotImplemented:
            return False
        return mk_scalar(eq(self.v, w))

    def __ne__(self, o):
        w = _operand(o)
        if w is NotImplemented:
            return True
        return mk_scalar(ne(self.v, w))

    def __neg__(self):
        return mk_scalar(neg(self.v))

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_scalar(absv(self.v))

    def __pow__(self, o, mod=None):
        w = _operand(o)
        if w is NotImplemented:
            return NotImplemented
        return mk_scalar(vpow(self.v, w))

    def __rpow__(self, o):
        return mk_scalar(vpow(_operand(o), self.v))

    def __bool__(self):
        return cur().branch(zt(ne(self.v, 0)))

    def __floordiv__(self, o):
        return _floordiv(self.v, _operand(o))

    def __rfloordiv__(self, o):
        return _floordiv(_operand(o), self.v)

    def __mod__(self, o):
        return _mod(self.v, _operand(o))

    def __rmod__(self, o):
        return _mod(_operand(o), self.v)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return _floordiv(_operand(o), self.v), _mod(_operand(o), self.v)

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        return mk_scalar(vround(self.v))

    def __floor__(self):
        return mk_scalar(vfloor(self.v))

    def __ceil__(self):
        return mk_scalar(vceil(self.v))

    def __trunc__(self):
        return mk_scalar(vtrunc(self.v))

    def __int__(self):
        t = vtrunc(self.v)
        t, ok = split(t)
        if isinstance(t, int):
            return t
        return cur().concretize_int(t)

    def __hash__(self):
        return hash(self.v) if isinstance(self.v, Fraction) else self.v.hash()

    def __repr__(self):
        return f"{type(self).__name__}({self.v})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _pydiv(a, b):
    """Python scalar division: ZeroDivisionError on zero."""
    z = eq(b, 0)
    if z is True or (z is not False and cur().branch(z)):
        raise ZeroDivisionError("division by zero")
    v, _ = split(div(a, b))
    return mk_scalar(v)


def _floordiv(a, b):
    z = eq(b, 0)
    if z is True or (z is not False and cur().branch(z)):
        raise ZeroDivisionError("division by zero")
    a, b, real = _pair(a, b)
    if real:
        q, _ = split(div(a, b))
        return mk_scalar(as_real(vfloor(q)))
    if not is_z3(b) and b > 0:
        return mk_scalar(zt(a) / b if is_z3(a) else a // b)
    if cur().branch(zt(gt(b, 0))):
        return mk_scalar(zt(a) / zt(b))
    return mk_scalar((-zt(a)) / (-zt(b)))


def _mod(a, b):
    q = _floordiv(a, b)
    q = q.v if isinstance(q, (SymInt, SymReal)) else q
    return mk_scalar(sub(a, mul(norm_const(q), b)))


class SymReal(_NumMixin, float):
    """A symbolic real; a float subclass so isinstance(x, float) holds.

    The embedded C double is NaN: anything that reads it behind the engine's
    back produces NaN, which the engine treats as an error, never as a value.
    """

    def __new__(cls, v):
        o = float.__new__(cls, float(v) if type(v) is Fraction else float("nan"))
        o.v = v
        return o

    def __float__(self):
        return self

    def is_integer(self):
        return SymBool(z3.IsInt(self.v))

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .tensor import SymNd

        return SymNd.__array_ufunc__(self, ufunc, method, *inputs, **kw)


class SymInt(_NumMixin):
    """A symbolic Python int (not an int subclass: C code must call __index__)."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return cur().concretize_int(self.v)

    def __float__(self):
        raise Unsupported("float() of symbolic int")

    def bit_length(self):
        return int(self).bit_length()
