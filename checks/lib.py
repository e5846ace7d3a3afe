"""Shared pieces of the harnesses (spec side)."""
import itertools

import torch

from vsym import mk
from vsym.obl import Ob  # noqa: F401

F32 = torch.float32


def dot(a, b):
    return ssum(x * y for x, y in zip(a, b))


def ssum(xs):
    xs = list(xs)
    from vsym.scalars import SymInt, SymReal, mk_scalar, norm_const

    if any(isinstance(x, SymReal) for x in xs):
        from vsym.tensor import vsum

        return mk_scalar(vsum([norm_const(x) for x in xs]))
    r = 0
    for x in xs:
        r = r + x
    return r


def absv(ctx, x):
    return ctx.If(x >= 0, x, -x)


def vmax(ctx, a, b):
    return ctx.If(a >= b, a, b)


def vmin(ctx, a, b):
    return ctx.If(a <= b, a, b)


def clamp(ctx, x, lo, hi):
    return vmin(ctx, vmax(ctx, x, lo), hi)


def shape_of(t):
    return tuple(t.shape)


def expect(ctx, got, shape, elems, msg, dtype=None, tol=None):
    """got has the shape/dtype and the elements of the reference."""
    ctx.check(got is not None, f"{msg}: result present")
    ctx.check(tuple(got.shape) == tuple(shape), f"{msg}: shape {tuple(got.shape)} expected {tuple(shape)}")
    if dtype is not None:
        ctx.check(got.dtype == dtype, f"{msg}: dtype {got.dtype} expected {dtype}")
    ctx.eq(got.reshape(-1), list(elems), msg, tol=tol)


def models(ctx, n, shape, pre="m", **kw):
    return {f"{pre}{i}": ctx.tensor(f"{pre}{i}", shape, **kw) for i in range(n)}


def rows(elems, shape):
    """flat elements -> list of rows along the last dim"""
    k = shape[-1] if shape else 1
    return [elems[i : i + k] for i in range(0, len(elems), k)]


def perms(n):
    return list(itertools.permutations(range(n)))


def off_thread(fn):
    """run fn on a thread of its own (no torch modes are active there)"""
    import threading

    out = []

    def go():
        try:
            out.append((True, fn()))
        except BaseException as e:  # noqa
            out.append((False, e))

    t = threading.Thread(target=go)
    t.start()
    t.join()
    ok, v = out[0]
    if not ok:
        raise v
    return v
