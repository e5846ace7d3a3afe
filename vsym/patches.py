"""Process-wide preparation of a symbolic run (never installed in replays).

* pydantic `float`/`int` fields pass symbolic scalars through unchanged;
* `float`, `math` names inside mergekit modules accept symbolic scalars.
"""
import math
import sys
import types

from . import scalars as S

_installed = False


def install_pydantic():
    """Must run before mergekit is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    import pydantic._internal._generate_schema as G
    from pydantic_core import core_schema

    class Proxy(types.ModuleType):
        def __init__(self):
            super().__init__("core_schema_proxy")

        def __getattr__(self, n):
            return getattr(core_schema, n)

        @staticmethod
        def float_schema(*a, **k):
            inner = core_schema.float_schema(*a, **k)

            def f(v, handler):
                if isinstance(v, (S.SymReal, S.SymInt)):
                    return v
                return handler(v)

            return core_schema.no_info_wrap_validator_function(f, inner)

        @staticmethod
        def int_schema(*a, **k):
            inner = core_schema.int_schema(*a, **k)

            def f(v, handler):
                if isinstance(v, S.SymInt):
                    return v
                return handler(v)

            return core_schema.no_info_wrap_validator_function(f, inner)

        @staticmethod
        def bool_schema(*a, **k):
            inner = core_schema.bool_schema(*a, **k)

            def f(v, handler):
                if isinstance(v, S.SymBool):
                    return v
                return handler(v)

            return core_schema.no_info_wrap_validator_function(f, inner)

    G.core_schema = Proxy()


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class float_shim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, S.SymReal):
            return x
        if isinstance(x, S.SymInt):
            return S.mk_scalar(S.as_real(x.v))
        import torch

        from .tensor import SymNd, SymTensor

        if isinstance(x, SymTensor):
            return x.item()
        if isinstance(x, SymNd):
            return x.item()
        return float(x)


class _Math(types.ModuleType):
    def __init__(self):
        super().__init__("math_shim")

    def __getattr__(self, n):
        f = getattr(math, n)
        h = _MATH.get(n)
        if h is None:
            return f

        def g(*a):
            from .tensor import SymTensor

            a = [x.item() if isinstance(x, SymTensor) else x for x in a]
            if any(isinstance(x, (S.SymReal, S.SymInt)) for x in a):
                return S.mk_scalar(h(*[S._operand(x) for x in a]))
            return f(*a)

        return g


_MATH = dict(
    sqrt=S.vsqrt, exp=S.vexp, log=S.vlog, sin=S.vsin, cos=S.vcos, acos=S.vacos,
    floor=S.vfloor, ceil=S.vceil, trunc=S.vtrunc, fabs=S.absv, tanh=S.vtanh, pow=S.vpow,
    isnan=lambda x: False, isinf=lambda x: False, isfinite=lambda x: True,
    isclose=lambda a, b: S.le(S.absv(S.sub(a, b)), S.mul(S.Fraction(1, 10**9), S.vmax(S.absv(a), S.absv(b)))),
)


def install_modules(prefix="mergekit"):
    """Shim names in already imported modules of the code under test."""
    mshim = _Math()
    for n, m in list(sys.modules.items()):
        if m is None or not (n == prefix or n.startswith(prefix + ".")):
            continue
        d = m.__dict__
        if isinstance(d.get("math"), types.ModuleType) and d["math"] is math:
            d["math"] = mshim
        for k in ("sqrt", "floor", "ceil", "exp", "log", "acos", "sin", "cos"):
            if d.get(k) is getattr(math, k):
                d[k] = getattr(mshim, k)
        if "float" not in d:
            d["float"] = float_shim
