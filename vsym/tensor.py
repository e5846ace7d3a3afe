"""Symbolic tensors: torch.Tensor wrapper subclass over object arrays of terms.

While SymMode is active every aten operation the code under test performs is
executed on exact-real / integer / boolean terms; shapes and dtypes come from
torch's own meta kernels, so broadcasting and promotion are torch's.
"""
import itertools
import math
import operator
from fractions import Fraction

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map

from . import core
from .core import Unsupported, cur
from .scalars import *  # noqa
from .scalars import _inf, _isint, _operand
from .scalars import _post as post
from .z3load import z3

MAX_ELEMS = 20000


def A(shape):
    return np.empty(shape, dtype=object)


def A0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def arr_of(flat, shape):
    a = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        a[i] = x
    return a.reshape(shape)


class SymTensor(torch.Tensor):
    __torch_function__ = torch._C._disabled_torch_function_impl

    @staticmethod
    def __new__(cls, arr, dtype):
        with torch._C._DisableTorchDispatch():
            t = torch.Tensor._make_wrapper_subclass(
                cls, tuple(arr.shape), dtype=dtype, device="cpu", requires_grad=False
            )
        t.arr = arr
        return t

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __repr__(self, *a, **k):
        return f"SymTensor({tuple(self.arr.shape)})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __reduce_ex__(self, proto):
        raise Unsupported("pickle of symbolic tensor")

    def __deepcopy__(self, memo):
        return SymTensor(self.arr.copy(), self.dtype)


def cast(arr, dtype):
    if dtype is None:
        return arr
    if dtype == torch.bool:
        f = lift(as_bool)
    elif dtype.is_floating_point:
        f = lift(as_real)
    elif dtype.is_complex:
        raise Unsupported("complex tensors")
    else:
        f = lambda x: vtrunc(x) if not isinstance(split(x)[0], bool) and not (
            is_z3(split(x)[0]) and z3.is_bool(split(x)[0])) else lift(as_num)(x)
    out = A(arr.shape)
    fo, fi = out.reshape(-1), arr.reshape(-1)
    for i in range(fi.size):
        fo[i] = f(fi[i])
    return fo.reshape(arr.shape)


def from_plain(t):
    if t.numel() > MAX_ELEMS:
        raise Unsupported("large concrete tensor in symbolic run")
    if t.dtype == torch.bool:
        flat = [bool(x) for x in _raw_list(t)]
    elif t.dtype.is_floating_point:
        flat = [norm_const(float(x)) for x in _raw_list(t.to(torch.float64))]
    elif t.dtype.is_complex:
        raise Unsupported("complex tensor")
    else:
        flat = [int(x) for x in _raw_list(t)]
    return SymTensor(arr_of(flat, tuple(t.shape)), t.dtype)


def _raw_list(t):
    with torch._C._DisableTorchDispatch(), torch._C.DisableTorchFunction():
        return torch.Tensor.tolist(torch.Tensor.reshape(torch.Tensor.detach(t), (-1,)))


def wrap(x):
    if isinstance(x, torch.Tensor) and not isinstance(x, SymTensor):
        if x.device.type == "meta":
            return x
        return from_plain(x)
    return x


def ew(f, nin):
    uf_ = np.frompyfunc(f, nin, 1)

    def g(*arrs):
        arrs = [a if isinstance(a, np.ndarray) else A0(norm_const(a)) for a in arrs]
        r = uf_(*arrs)
        if not isinstance(r, np.ndarray):
            r = A0(r)
        return r

    return g


TABLE = {}  # packet name -> fn(arrays...)-> array(s)
VIEWS = {}


def op(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f

    return d


def view(*names):
    def d(f):
        for n in names:
            VIEWS[n] = f
        return f

    return d


# ------------------------------------------------------------- elementwise
_add, _mul, _div = ew(add, 2), ew(mul, 2), ew(div, 2)
for _n, _f in dict(
    mul=mul, eq=eq, ne=ne, lt=lt, le=le, gt=gt, ge=ge, logical_and=land,
    logical_or=lor, logical_xor=lxor, maximum=vmax, minimum=vmin, fmax=vmax,
    fmin=vmin, greater=gt, multiply=mul,
).items():
    TABLE[_n] = (lambda g: lambda a, b: g(a, b))(ew(_f, 2))
for _n, _f in dict(
    neg=neg, abs=absv, sign=sign, sgn=sign, sqrt=vsqrt, exp=vexp, log=vlog,
    sin=vsin, cos=vcos, acos=vacos, tanh=vtanh, floor=vfloor, ceil=vceil,
    trunc=vtrunc, round=vround, logical_not=lnot,
    rsqrt=lambda x: div(Fraction(1), vsqrt(x)),
    reciprocal=lambda x: div(Fraction(1), x),
    square=lambda x: mul(x, x),
    sigmoid=lambda x: div(Fraction(1), add(Fraction(1), vexp(neg(x)))),
    relu=lambda x: ite(gt(x, 0), x, 0),
    log2=lambda x: div(vlog(x), vlog(Fraction(2))), log1p=lambda x: vlog(add(x, 1)),
    isnan=lambda x: b_not(split(x)[1]) if split(x)[1] is not True else False,
    isinf=lambda x: _inf(split(x)[0]),
).items():
    TABLE[_n] = (lambda g: lambda a: g(a))(ew(_f, 1))


@op("isfinite")
def _isfinite(a):
    return ew(lambda x: b_and(split(x)[1], not _inf(split(x)[0])), 1)(a)


@op("add")
def _op_add(a, b, alpha=1):
    return _add(a, _mul(b, alpha) if not (isinstance(alpha, (int, float)) and alpha == 1) else b)


@op("sub", "subtract")
def _op_sub(a, b, alpha=1):
    return _op_add(a, ew(neg, 1)(b), alpha)


@op("rsub")
def _op_rsub(a, b, alpha=1):
    return _op_sub(b, a, alpha)


@op("div", "divide", "true_divide")
def _op_div(a, b, rounding_mode=None):
    r = _div(a, b)
    if rounding_mode == "floor":
        return ew(vfloor, 1)(r)
    if rounding_mode == "trunc":
        return ew(vtrunc, 1)(r)
    return r


@op("floor_divide")
def _op_fdiv(a, b):
    return ew(vfloor, 1)(_div(a, b))


@op("remainder")
def _op_rem(a, b):
    q = ew(vfloor, 1)(_div(a, b))
    return _op_sub(a, _mul(q, b))


@op("fmod")
def _op_fmod(a, b):
    q = ew(vtrunc, 1)(_div(a, b))
    return _op_sub(a, _mul(q, b))


@op("pow")
def _op_pow(a, b):
    return ew(vpow, 2)(a, b)


@op("bitwise_and", "__and__", "__iand__")
def _op_band(a, b):
    return ew(land, 2)(a, b)


@op("bitwise_or", "__or__")
def _op_bor(a, b):
    return ew(lor, 2)(a, b)


@op("bitwise_xor", "__xor__")
def _op_bxor(a, b):
    return ew(lxor, 2)(a, b)


@op("bitwise_not")
def _op_bnot(a):
    def f(x):
        v = split(x)[0]
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
            return lnot(x)
        return sub(neg(x), 1)

    return ew(f, 1)(a)


@op("where")
def _op_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where(cond)")
    return ew(ite, 3)(c, a, b)


@op("clamp", "clip")
def _op_clamp(a, min=None, max=None):
    if min is not None:
        a = ew(vmax, 2)(a, min)
    if max is not None:
        a = ew(vmin, 2)(a, max)
    return a


TABLE["clamp_min"] = lambda a, m: ew(vmax, 2)(a, m)
TABLE["clamp_max"] = lambda a, m: ew(vmin, 2)(a, m)


@op("lerp")
def _op_lerp(a, b, w):
    return _add(a, _mul(w, _op_sub(b, a)))


@op("addcmul")
def _op_addcmul(a, b, c, value=1):
    return _add(a, _mul(_mul(b, c), value))


@op("addcdiv")
def _op_addcdiv(a, b, c, value=1):
    return _add(a, _mul(_div(b, c), value))


TABLE["signbit"] = lambda a: ew(lambda x: lt(x, 0), 1)(a)
TABLE["copysign"] = lambda a, b: ew(lambda x, y: ite(lt(y, 0), neg(absv(x)), absv(x)), 2)(a, b)
TABLE["hypot"] = lambda a, b: ew(lambda x, y: vsqrt(add(mul(x, x), mul(y, y))), 2)(a, b)
TABLE["expm1"] = lambda a: ew(lambda x: sub(vexp(x), Fraction(1)), 1)(a)
TABLE["logaddexp"] = lambda a, b: ew(lambda x, y: vlog(add(vexp(x), vexp(y))), 2)(a, b)
TABLE["logsumexp"] = lambda a, dim, keepdim=False: reduce_(a, dim, keepdim, lambda xs: vlog(vsum([vexp(x) for x in xs])))


def _rank(v, bounds, right):
    """how many of the (ascending) bounds lie before v"""
    n = 0
    for b in bounds:
        n = add(n, ite(lnot(lt(v, b)) if right else lt(b, v), 1, 0))
    return n


@op("searchsorted")
def _op_searchsorted(bounds, v, out_int32=False, right=False, side=None, sorter=None):
    if sorter is not None or bounds.ndim > 1:
        raise Unsupported("searchsorted")
    return ew(lambda x: _rank(x, bounds, right or side == "right"), 1)(np.asarray(v, dtype=object))


@op("bucketize")
def _op_bucketize(v, bounds, out_int32=False, right=False):
    return ew(lambda x: _rank(x, bounds, right), 1)(np.asarray(v, dtype=object))


@op("masked_fill")
def _op_mf(a, m, v):
    return ew(ite, 3)(m, v, a)


@op("nan_to_num")
def _op_n2n(a, nan=None, posinf=None, neginf=None):
    def f(x):
        v, ok = split(x)
        if ok is True and not _inf(v):
            return v
        if _inf(v):
            raise Unsupported("nan_to_num of inf")
        return ite(ok, v, norm_const(nan or 0.0))

    return ew(f, 1)(a)


@op("isclose")
def _op_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    tol = _add(A0(Fraction(atol)), _mul(ew(absv, 1)(b), Fraction(rtol)))
    return ew(le, 2)(ew(absv, 1)(_op_sub(a, b)), tol)


# -------------------------------------------------------------- reductions
def _dims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, (int, np.integer)):
        dim = [dim]
    return tuple(sorted(d % nd if nd else 0 for d in dim)) if nd else ()


def lanes(a, dims):
    """move reduced dims last and flatten them: returns (kept_shape, 2-D)."""
    nd = a.ndim
    keep = [i for i in range(nd) if i not in dims]
    b = np.transpose(a, keep + list(dims))
    ks = tuple(a.shape[i] for i in keep)
    n = int(np.prod([a.shape[i] for i in dims])) if dims else 1
    return ks, b.reshape((int(np.prod(ks)) if ks else 1, n))


def reduce_(a, dim, keepdim, f):
    dims = _dims(dim, a.ndim)
    ks, b = lanes(a, dims)
    out = arr_of([f(list(row)) for row in b], ks)
    if keepdim:
        out = out.reshape([1 if i in dims else a.shape[i] for i in range(a.ndim)])
    return out


def vsum(xs):
    acc = Fraction(0)
    isint = all(_isint(as_num(split(x)[0])) for x in xs)
    acc = 0 if isint else Fraction(0)
    oks = []
    terms = []
    for x in xs:
        v, ok = split(x)
        if ok is not True:
            oks.append(ok)
        v = as_num(v) if isint else as_real(v)
        if _inf(v):
            r = acc
            for y in xs:
                r = add(r, y)
            return r
        if is_z3(v):
            terms.append(v)
        else:
            acc += v
    if not terms:
        r = acc
    else:
        if acc != 0:
            terms.append(zt(acc, not isint))
        r = terms[0] if len(terms) == 1 else post(z3.Sum(terms))
    return und(r, b_and(*oks)) if oks else r


def fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


@op("sum")
def _op_sum(a, dim=None, keepdim=False, dtype=None):
    return reduce_(a, dim, keepdim, vsum)


TABLE["nansum"] = lambda a, dim=None, keepdim=False, dtype=None: reduce_(
    a, dim, keepdim, lambda xs: vsum([ite(split(x)[1], split(x)[0], 0) for x in xs]))


@op("mean")
def _op_mean(a, dim=None, keepdim=False, dtype=None):
    return reduce_(a, dim, keepdim, lambda xs: div(vsum(xs), Fraction(len(xs)))
                   if xs else Und(Fraction(0), False))


@op("prod")
def _op_prod(a, dim=None, keepdim=False, dtype=None):
    return reduce_(a, dim, keepdim, lambda xs: fold(mul, xs) if xs else Fraction(1))


@op("any")
def _op_any(a, dim=None, keepdim=False):
    return reduce_(a, dim, keepdim, lambda xs: fold(lor, [False] + [lift(as_bool)(x) for x in xs]))


@op("all")
def _op_all(a, dim=None, keepdim=False):
    return reduce_(a, dim, keepdim, lambda xs: fold(land, [True] + [lift(as_bool)(x) for x in xs]))


def _var(xs, correction):
    m = div(vsum(xs), Fraction(len(xs)))
    s = vsum([mul(sub(x, m), sub(x, m)) for x in xs])
    return div(s, Fraction(len(xs)) - Fraction(correction))


@op("var")
def _op_var(a, dim=None, unbiased=None, correction=None, keepdim=False):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    c = 1 if correction is None else correction
    if unbiased is not None and not isinstance(unbiased, np.ndarray):
        c = 1 if unbiased else 0
    return reduce_(a, dim, keepdim, lambda xs: _var(xs, c))


@op("std")
def _op_std(a, dim=None, unbiased=None, correction=None, keepdim=False):
    return ew(vsqrt, 1)(_op_var(a, dim, unbiased, correction, keepdim))


@op("amax")
def _op_amax(a, dim=(), keepdim=False):
    return reduce_(a, dim, keepdim, lambda xs: fold(vmax, xs))


@op("amin")
def _op_amin(a, dim=(), keepdim=False):
    return reduce_(a, dim, keepdim, lambda xs: fold(vmin, xs))


def _argbest(xs, better):
    """index of the first best element; better(new, old) strict."""
    bi, bv = 0, xs[0]
    for i, x in enumerate(xs[1:], 1):
        c = better(x, bv)
        bi = ite(c, i, bi)
        bv = ite(c, x, bv)
    return bv, bi


def _minmax(a, dim, keepdim, better):
    v = reduce_(a, dim, keepdim, lambda xs: _argbest(xs, better)[0])
    i = reduce_(a, dim, keepdim, lambda xs: _argbest(xs, better)[1])
    return v, i


@op("max")
def _op_max(a, dim=None, keepdim=False):
    if isinstance(dim, np.ndarray):
        return ew(vmax, 2)(a, dim)
    if dim is None:
        return reduce_(a, None, False, lambda xs: fold(vmax, xs))
    return _minmax(a, dim, keepdim, gt)


@op("min")
def _op_min(a, dim=None, keepdim=False):
    if isinstance(dim, np.ndarray):
        return ew(vmin, 2)(a, dim)
    if dim is None:
        return reduce_(a, None, False, lambda xs: fold(vmin, xs))
    return _minmax(a, dim, keepdim, lt)


@op("argmax")
def _op_argmax(a, dim=None, keepdim=False):
    return reduce_(a, dim, keepdim, lambda xs: _argbest(xs, gt)[1])


@op("argmin")
def _op_argmin(a, dim=None, keepdim=False):
    return reduce_(a, dim, keepdim, lambda xs: _argbest(xs, lt)[1])


def _norm(xs, p):
    p = Fraction(p) if not (isinstance(p, float) and math.isinf(p)) else p
    if p == 2:
        return vsqrt(vsum([mul(x, x) for x in xs]))
    if p == 1:
        return vsum([absv(x) for x in xs])
    if isinstance(p, float):
        return fold(vmax if p > 0 else vmin, [absv(x) for x in xs])
    if p == 0:
        return vsum([ite(ne(x, 0), Fraction(1), Fraction(0)) for x in xs])
    return vpow(vsum([vpow(absv(x), p) for x in xs]), 1 / p)


def _pval(p):
    if isinstance(p, np.ndarray):
        p = p[()]
    return 2 if p is None else p


@op("norm")
def _op_norm(a, p=None, dim=None, keepdim=False, dtype=None):
    return reduce_(a, dim, keepdim, lambda xs: _norm(xs, _pval(p)))


@op("linalg_vector_norm")
def _op_vnorm(a, ord=2, dim=None, keepdim=False, dtype=None):
    return reduce_(a, dim, keepdim, lambda xs: _norm(xs, _pval(ord)))


def _alonglane(a, dim, f):
    """apply f(list)->list (same or new length) along dim."""
    if a.ndim == 0:
        return arr_of(f([a[()]]), ())
    b = np.moveaxis(a, dim, -1)
    rows = b.reshape(-1, b.shape[-1])
    outs = [f(list(r)) for r in rows]
    n = len(outs[0]) if outs else b.shape[-1]
    flat = [x for r in outs for x in r]
    return np.moveaxis(arr_of(flat, b.shape[:-1] + (n,)), -1, dim)


@op("cumsum")
def _op_cumsum(a, dim, dtype=None):
    def f(xs):
        out, acc = [], None
        for x in xs:
            acc = x if acc is None else add(acc, x)
            out.append(acc)
        return out

    return _alonglane(a, dim, f)


@op("cumprod")
def _op_cumprod(a, dim, dtype=None):
    def f(xs):
        out, acc = [], None
        for x in xs:
            acc = x if acc is None else mul(acc, x)
            out.append(acc)
        return out

    return _alonglane(a, dim, f)


@op("_softmax", "softmax")
def _op_softmax(a, dim, half_to_float=False):
    def f(xs):
        es = [vexp(x) for x in xs]
        s = vsum(es)
        return [div(e, s) for e in es]

    return _alonglane(a, dim, f)


# ---------------------------------------------------------------- ordering
def _fork_sorted(xs, descending):
    """stable insertion sort, comparisons decided by forking."""
    idx = []
    for i in range(len(xs)):
        j = len(idx)
        while j > 0:
            a, b = xs[idx[j - 1]], xs[i]
            c = lt(a, b) if descending else lt(b, a)
            c, _ = split(c)
            if (c if isinstance(c, bool) else cur().branch(c)):
                j -= 1
            else:
                break
        idx.insert(j, i)
    return [xs[i] for i in idx], idx


def _rank_sorted(xs, descending):
    n = len(xs)
    before = {}
    for i in range(n):
        for j in range(i + 1, n):
            # i precedes j when not strictly worse (stable)
            c = ge(xs[i], xs[j]) if descending else le(xs[i], xs[j])
            before[i, j] = c
            before[j, i] = lnot(c)
    ranks = [vsum([ite(before[j, i], 1, 0) for j in range(n) if j != i]) if n > 1 else 0
             for i in range(n)]
    vals, idxs = [], []
    for p in range(n):
        v, k = xs[n - 1], n - 1
        for i in range(n - 2, -1, -1):
            c = eq(ranks[i], p)
            v = ite(c, xs[i], v)
            k = ite(c, i, k)
        vals.append(v)
        idxs.append(k)
    return vals, idxs


def sort_lane(xs, descending):
    if len(xs) <= 1:
        return list(xs), list(range(len(xs)))
    if all(conc(x) for x in xs):
        idx = sorted(range(len(xs)), key=lambda i: xs[i], reverse=False)
        if descending:
            idx = sorted(range(len(xs)), key=lambda i: -xs[i])
        return [xs[i] for i in idx], idx
    mode = cur().opts.get("sort_mode", "fork")
    if mode == "fork":
        return _fork_sorted(xs, descending)
    return _rank_sorted(xs, descending)


def _sort(a, dim, descending):
    if a.ndim == 0:
        return a, A0(0)
    b = np.moveaxis(a, dim, -1)
    rows = b.reshape(-1, b.shape[-1])
    vs, is_ = [], []
    for r in rows:
        v, i = sort_lane(list(r), descending)
        vs += v
        is_ += i
    mk = lambda f: np.moveaxis(arr_of(f, b.shape), -1, dim)
    return mk(vs), mk(is_)


@op("sort")
def _op_sort(a, dim=-1, descending=False, stable=None):
    return _sort(a, dim, descending)


TABLE["sort.stable"] = lambda a, stable=None, dim=-1, descending=False: _sort(a, dim, descending)


@op("argsort")
def _op_argsort(a, dim=-1, descending=False, stable=None):
    return _sort(a, dim, descending)[1]


TABLE["argsort.stable"] = lambda a, stable=None, dim=-1, descending=False: _sort(a, dim, descending)[1]


@op("topk")
def _op_topk(a, k, dim=-1, largest=True, sorted=True):
    v, i = _sort(a, dim, largest)
    sl = [slice(None)] * a.ndim
    if a.ndim:
        sl[dim] = slice(0, int(k))
    return v[tuple(sl)], i[tuple(sl)]


@op("kthvalue")
def _op_kth(a, k, dim=-1, keepdim=False):
    v, i = _sort(a, dim, False)
    v, i = np.take(v, [k - 1], dim), np.take(i, [k - 1], dim)
    if not keepdim:
        v, i = v.squeeze(dim), i.squeeze(dim)
    return v, i


@op("median", "nanmedian")
def _op_median(a, dim=None, keepdim=False):
    if dim is None:
        v, _ = _sort(a.reshape(-1), 0, False)
        return A0(v[(v.size - 1) // 2])
    return _op_kth(a, (a.shape[dim] - 1) // 2 + 1, dim, keepdim)


# ------------------------------------------------------------------ linalg
def _dot(xs, ys):
    return vsum([mul(x, y) for x, y in zip(xs, ys)])


@op("dot", "vdot")
def _op_dot(a, b):
    return A0(_dot(a, b))


@op("mv")
def _op_mv(a, b):
    return arr_of([_dot(r, b) for r in a], (a.shape[0],))


@op("mm")
def _op_mm(a, b, out_dtype=None):
    return arr_of([_dot(a[i], b[:, j]) for i in range(a.shape[0]) for j in range(b.shape[1])],
                  (a.shape[0], b.shape[1]))


@op("bmm")
def _op_bmm(a, b, out_dtype=None):
    out = A((a.shape[0], a.shape[1], b.shape[2]))
    for i in range(a.shape[0]):
        out[i] = _op_mm(a[i], b[i])
    return out


@op("addmm")
def _op_addmm(c, a, b, beta=1, alpha=1):
    return _add(_mul(c, beta), _mul(_op_mm(a, b), alpha))


@op("baddbmm")
def _op_baddbmm(c, a, b, beta=1, alpha=1):
    return _add(_mul(c, beta), _mul(_op_bmm(a, b), alpha))


@op("diag", "diag_embed")
def _op_diag(a, *r, **k):
    if a.ndim == 1:
        out = A((a.size, a.size))
        out[...] = Fraction(0)
        for i in range(a.size):
            out[i, i] = a[i]
        return out
    return np.diagonal(a).copy()


@op("tril")
def _op_tril(a, k=0):
    out = a.copy()
    for i in range(a.shape[-2]):
        for j in range(a.shape[-1]):
            if j - i > k:
                out[..., i, j] = Fraction(0)
    return out


@op("triu")
def _op_triu(a, k=0):
    out = a.copy()
    for i in range(a.shape[-2]):
        for j in range(a.shape[-1]):
            if j - i < k:
                out[..., i, j] = Fraction(0)
    return out


def _pairdist(a, b, p):
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a, b = np.broadcast_to(a, bs + a.shape[-2:]), np.broadcast_to(b, bs + b.shape[-2:])
    out = A(bs + (a.shape[-2], b.shape[-2]))
    for ix in np.ndindex(*bs):
        for i in range(a.shape[-2]):
            for j in range(b.shape[-2]):
                d = [sub(x, y) for x, y in zip(a[ix][i], b[ix][j])]
                out[ix + (i, j)] = absv(d[0]) if len(d) == 1 else _norm(d, p)
    return out


@op("_cdist_forward")
def _op_cdist(a, b, p, compute_mode=None):
    return _pairdist(a, b, p)


@op("_euclidean_dist")
def _op_euclid(a, b):
    return _pairdist(a, b, 2)


@op("linalg_solve_triangular")
def _op_solve_tri(a, b, upper=True, left=True, unitriangular=False):
    if not left:
        r = _op_solve_tri(np.swapaxes(a, -1, -2), np.swapaxes(b, -1, -2), not upper, True, unitriangular)
        return np.swapaxes(r, -1, -2)
    n = a.shape[-1]
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a, b = np.broadcast_to(a, bs + a.shape[-2:]), np.broadcast_to(b, bs + b.shape[-2:])
    out = A(b.shape)
    for ix in np.ndindex(*bs):
        for c in range(b.shape[-1]):
            for i in reversed(range(n)) if upper else range(n):
                r = range(i + 1, n) if upper else range(i)
                v = b[ix][i, c]
                for j in r:
                    v = sub(v, mul(a[ix][i, j], out[ix][j, c]))
                out[ix][i, c] = v if unitriangular else div(v, a[ix][i, i])
    return out


def _det(m):
    if len(m) == 1:
        return m[0][0]
    return vsum([mul(x if j % 2 == 0 else neg(x), _det([r[:j] + r[j + 1:] for r in m[1:]])) for j, x in enumerate(m[0])])


def _solve(m, b):
    """Cramer; undefined for singular systems"""
    if len(m) > 3:
        raise Unsupported("linear system over 3x3")
    d = _det(m)
    return [div(_det([r[:j] + [b[i]] + r[j + 1:] for i, r in enumerate(m)]), d) for j in range(len(m))]


def _lstsq(a, b):
    """least squares solution of a full-rank system (minimum norm if wide)"""
    m, n = a.shape[-2:]
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a, b = np.broadcast_to(a, bs + a.shape[-2:]), np.broadcast_to(b, bs + b.shape[-2:])
    out = A(bs + (n, b.shape[-1]))
    for ix in np.ndindex(*bs):
        M = [list(r) for r in a[ix]]
        T = [list(c) for c in zip(*M)]
        for c in range(b.shape[-1]):
            rhs = [b[ix][i, c] for i in range(m)]
            if m == n:
                x = _solve(M, rhs)
            elif m > n:
                x = _solve([[_dot(p, q) for q in T] for p in T], [_dot(p, rhs) for p in T])
            else:
                y = _solve([[_dot(p, q) for q in M] for p in M], rhs)
                x = [_dot(p, y) for p in T]
            for i in range(n):
                out[ix][i, c] = x[i]
    return out


# ------------------------------------------------------------- structural
@op("cat", "concat", "concatenate")
def _op_cat(ts, dim=0):
    ts = [t for t in ts if not (t.ndim == 1 and t.size == 0)] or ts[:1]
    return np.concatenate(ts, axis=dim)


@op("stack")
def _op_stack(ts, dim=0):
    return np.stack(ts, axis=dim)


@op("clone", "contiguous", "lift_fresh_copy")
def _op_clone(a, memory_format=None):
    return a.copy()


@op("_to_copy", "to")
def _op_tocopy(a, *_, **kw):
    return a.copy()


@op("repeat")
def _op_repeat(a, reps):
    return np.tile(a, reps)


@op("repeat_interleave")
def _op_ri(a, reps, dim=None, output_size=None):
    return np.repeat(a, int(reps), axis=dim)


@op("flip")
def _op_flip(a, dims):
    return np.flip(a, tuple(dims)).copy()


@op("roll")
def _op_roll(a, shifts, dims=()):
    return np.roll(a, shifts, tuple(dims) if dims else None)


@op("constant_pad_nd")
def _op_pad(a, pad, value=0):
    widths = [(0, 0)] * a.ndim
    for i in range(len(pad) // 2):
        widths[a.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
    for d, (x, y) in enumerate(widths):  # negative padding = crop
        sl = [slice(None)] * a.ndim
        sl[d] = slice(max(0, -x), a.shape[d] - max(0, -y))
        a = a[tuple(sl)]
    widths = [(max(0, x), max(0, y)) for x, y in widths]
    return np.pad(a, widths, constant_values=norm_const(value))


@op("zeros_like", "new_zeros")
def _op_zl(a, *r, **k):
    return ("const", Fraction(0))


@op("ones_like", "new_ones")
def _op_ol(a, *r, **k):
    return ("const", Fraction(1))


@op("empty_like", "new_empty", "new_empty_strided")
def _op_el(a, *r, **k):
    return ("fresh", None)


@op("full_like")
def _op_fl(a, v, **k):
    return ("const", norm_const(v))


@op("new_full")
def _op_nf(a, size, v, **k):
    return ("const", norm_const(v))


@op("fill")
def _op_fill(a, v):
    out = A(a.shape)
    out[...] = v[()] if isinstance(v, np.ndarray) else norm_const(v)
    return out


@op("zero")
def _op_zero(a):
    return ("const", Fraction(0))


@op("copy")
def _op_copy(a, b, non_blocking=False):
    return np.broadcast_to(b, a.shape).copy()


@view("view", "_unsafe_view", "reshape", "_reshape_alias")
def _v_view(a, size, *r):
    return a.reshape([int(s) for s in size])


@view("expand")
def _v_expand(a, size, implicit=False):
    size = list(size)
    off = len(size) - a.ndim
    tgt = [a.shape[i - off] if s == -1 else s for i, s in enumerate(size)]
    return np.broadcast_to(a, tgt)


@view("permute")
def _v_perm(a, dims):
    return np.transpose(a, [d % a.ndim for d in dims])


@view("transpose", "swapaxes")
def _v_tr(a, d0, d1):
    return a if a.ndim == 0 else np.swapaxes(a, d0, d1)


@view("t")
def _v_t(a):
    return a.T


@view("unsqueeze")
def _v_unsq(a, d):
    return np.expand_dims(a, d if d >= 0 else a.ndim + d + 1)


@view("squeeze")
def _v_sq(a, dim=None):
    if dim is None:
        return a.squeeze()
    if isinstance(dim, int):
        dim = [dim]
    ds = tuple(d % max(a.ndim, 1) for d in dim)
    ds = tuple(d for d in ds if a.ndim and a.shape[d] == 1)
    return a.squeeze(ds) if ds else a


@view("detach", "alias", "lift_fresh", "lift", "view_as_real", "_conj", "positive")
def _v_id(a, *r):
    return a


@view("slice")
def _v_slice(a, dim=0, start=None, end=None, step=1):
    sl = [slice(None)] * a.ndim
    n = a.shape[dim]
    if end is not None and end > n:
        end = n
    sl[dim] = slice(start, end, step)
    return a[tuple(sl)]


@view("select")
def _v_select(a, dim, i):
    sl = [slice(None)] * a.ndim
    sl[dim] = i
    return a[tuple(sl)] if a.ndim > 1 else a.reshape(-1)[i : i + 1].reshape(()) if i != -1 else a[-1:].reshape(())


@view("narrow")
def _v_narrow(a, dim, s, ln):
    return _v_slice(a, dim, s, s + ln)


@view("unbind")
def _v_unbind(a, dim=0):
    return [_v_select(a, dim, i) for i in range(a.shape[dim])]


@view("split", "split_with_sizes")
def _v_split(a, sz, dim=0):
    n = a.shape[dim]
    if isinstance(sz, int):
        sz = [min(sz, n - i) for i in range(0, n, sz)] or [0]
    out, p = [], 0
    for s in sz:
        out.append(_v_slice(a, dim, p, p + s))
        p += s
    return out


@view("diagonal")
def _v_diag(a, offset=0, dim1=0, dim2=1):
    return np.diagonal(a, offset, dim1, dim2)


# ---------------------------------------------------------------- indexing
def conc_idx(arr):
    """index array -> numpy int/bool array, forking on symbolic entries."""
    flat = arr.reshape(-1)
    isb = flat.size > 0 and (isinstance(flat[0], bool) or (is_z3(split(flat[0])[0]) and z3.is_bool(split(flat[0])[0])))
    out = np.empty(flat.size, dtype=bool if isb else np.int64)
    for i, x in enumerate(flat):
        x, _ = split(x)
        if isb:
            out[i] = x if isinstance(x, bool) else cur().branch(x)
        else:
            out[i] = x if isinstance(x, int) else cur().concretize_int(x)
    return out.reshape(arr.shape)


def _all_conc(arr):
    return all(conc(x) for x in arr.reshape(-1))


@op("gather")
def _op_gather(a, dim, index, sparse_grad=False):
    dim = dim % max(a.ndim, 1)
    out = A(index.shape)
    for pos in np.ndindex(*index.shape):
        k = index[pos]
        if conc(k):
            p = list(pos)
            p[dim] = k
            out[pos] = a[tuple(p)]
        else:
            v = None
            for i in range(a.shape[dim] - 1, -1, -1):
                p = list(pos)
                p[dim] = i
                v = a[tuple(p)] if v is None else ite(eq(k, i), a[tuple(p)], v)
            out[pos] = v
    return out


@op("index_select")
def _op_index_select(a, dim, index):
    if a.ndim == 0:
        return a.copy()
    if _all_conc(index):
        return np.take(a, index.astype(np.int64), axis=dim)
    b = np.moveaxis(a, dim, 0)
    out = A((index.size,) + b.shape[1:])
    for j, k in enumerate(index.reshape(-1)):
        v = b[-1]
        for i in range(b.shape[0] - 2, -1, -1):
            c = eq(k, i)
            v = ew(ite, 3)(A0(c), b[i], v)
        out[j] = v
    return np.moveaxis(out, 0, dim)


TABLE["embedding"] = lambda w, idx, *r, **k: _op_index_select(w, 0, idx.reshape(-1)).reshape(idx.shape + w.shape[1:])
TABLE["take"] = lambda a, idx: _op_index_select(a.reshape(-1), 0, idx.reshape(-1)).reshape(idx.shape)


def _index_tuple(indices):
    out = []
    for ix in indices:
        if ix is None:
            out.append(slice(None))
        else:
            out.append(conc_idx(ix))
    return tuple(out)


@op("index")
def _op_index(a, indices):
    nn = [i for i in indices if i is not None]
    if len(nn) == 1 and not _all_conc(nn[0]) and not _is_boolarr(nn[0]):
        d = [i for i, x in enumerate(indices) if x is not None][0]
        r = _op_index_select(a, d, nn[0].reshape(-1))
        return r.reshape(a.shape[:d] + nn[0].shape + a.shape[d + 1:])
    r = a[_index_tuple(indices)]
    return r if isinstance(r, np.ndarray) else A0(r)


def _is_boolarr(x):
    f = x.reshape(-1)
    if f.size == 0:
        return False
    v = split(f[0])[0]
    return isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))


@op("index_put", "_index_put_impl", "_unsafe_index_put")
def _op_index_put(a, indices, values, accumulate=False, unsafe=False):
    out = a.copy()
    if (len(indices) == 1 and indices[0] is not None and _is_boolarr(indices[0])
            and values.size == 1):
        m = indices[0]
        m = m.reshape(m.shape + (1,) * (a.ndim - m.ndim))
        v = values.reshape(())
        new = ew(add, 2)(a, v) if accumulate else v
        return ew(ite, 3)(m, new, a)
    tup = _index_tuple(indices)
    if accumulate:
        cnt = out[tup]
        vals = np.broadcast_to(values, cnt.shape)
        pos = np.arange(out.size).reshape(out.shape)[tup].reshape(-1)
        fo = out.reshape(-1)
        for p, v in zip(pos, vals.reshape(-1)):
            fo[p] = add(fo[p], v)
        return fo.reshape(a.shape)
    out[tup] = values if values.ndim else values[()]
    return out


@op("index_copy")
def _op_index_copy(a, dim, index, src):
    out = a.copy()
    sl = [slice(None)] * a.ndim
    sl[dim] = conc_idx(index)
    out[tuple(sl)] = src
    return out


@op("index_add")
def _op_index_add(a, dim, index, src, alpha=1):
    out = np.moveaxis(a.copy(), dim, 0)
    s = np.moveaxis(src, dim, 0)
    for j, k in enumerate(conc_idx(index).reshape(-1)):
        out[k] = _add(out[k], _mul(s[j], alpha))
    return np.moveaxis(out, 0, dim)


@op("index_fill")
def _op_index_fill(a, dim, index, v):
    out = a.copy()
    sl = [slice(None)] * a.ndim
    sl[dim] = conc_idx(index)
    out[tuple(sl)] = v[()] if isinstance(v, np.ndarray) else norm_const(v)
    return out


@op("scatter", "scatter_add", "scatter_reduce")
def _op_scatter(a, dim, index, src, reduce=None, **kw):
    return _scatter(a, dim, index, src, reduce)


def _scatter(a, dim, index, src, reduce=None):
    if reduce not in (None, "add", "sum"):
        raise Unsupported("scatter reduce " + str(reduce))
    out = a.copy()
    dim = dim % max(a.ndim, 1)
    for pos in np.ndindex(*index.shape):
        k = index[pos]
        v = src[pos] if isinstance(src, np.ndarray) and src.ndim else (
            src[()] if isinstance(src, np.ndarray) else norm_const(src))
        for i in (range(a.shape[dim]) if not conc(k) else [k]):
            p = list(pos)
            p[dim] = i
            p = tuple(p)
            nv = v if reduce is None else add(out[p], v)
            out[p] = nv if conc(k) else ite(eq(k, i), nv, out[p])
    return out


TABLE["scatter_add"] = lambda a, dim, index, src: _scatter(a, dim, index, src, "add")


@op("masked_scatter")
def _op_masked_scatter(a, m, src):
    m = np.broadcast_to(conc_idx(m), a.shape)
    out = a.copy()
    out[m] = src.reshape(-1)[: int(m.sum())]
    return out


@op("slice_scatter")
def _op_slice_scatter(a, src, dim=0, start=None, end=None, step=1):
    out = a.copy()
    _v_slice(out, dim, start, end, step)[...] = src
    return out


@op("select_scatter")
def _op_select_scatter(a, src, dim, i):
    out = a.copy()
    sl = [slice(None)] * a.ndim
    sl[dim] = i
    out[tuple(sl)] = src
    return out


# --------------------------------------------- data-dependent output shapes
def _dd_nonzero(a):
    m = conc_idx(ew(lambda x: lift(as_bool)(x), 1)(a.arr))
    idx = np.argwhere(m)
    return SymTensor(arr_of([int(x) for x in idx.reshape(-1)], idx.shape), torch.int64)


def _dd_masked_select(a, m):
    mm = np.broadcast_to(conc_idx(m.arr), np.broadcast_shapes(a.arr.shape, m.arr.shape))
    aa = np.broadcast_to(a.arr, mm.shape)
    r = aa[mm]
    return SymTensor(r, a.dtype)


def _dd_index(a, indices):
    r = _op_index(a.arr, [None if i is None else i.arr for i in indices])
    return SymTensor(r.copy(), a.dtype)


def _dd_unique(a, sorted=True, return_inverse=False, return_counts=False, dim=None):
    c = conc_idx(a.arr) if not a.dtype.is_floating_point else None
    if c is None:
        raise Unsupported("unique of symbolic floats")
    u, inv, cnt = np.unique(c, return_inverse=True, return_counts=True)
    mk = lambda x: SymTensor(arr_of([int(y) for y in x.reshape(-1)], x.shape), torch.int64)
    vals = arr_of([bool(y) if a.dtype == torch.bool else int(y) for y in u.reshape(-1)], u.shape)
    return SymTensor(vals, a.dtype), mk(inv.reshape(a.arr.shape)), mk(cnt)


def _dd_bincount(a, weights=None, minlength=0):
    c = conc_idx(a.arr)
    b = np.bincount(c, minlength=minlength)
    return SymTensor(arr_of([int(y) for y in b], b.shape), torch.int64)


DATADEP = {
    "nonzero": _dd_nonzero,
    "masked_select": _dd_masked_select,
    "_unique2": _dd_unique,
    "bincount": _dd_bincount,
}

# ------------------------------------------------------------- randomness
RANDOM_HOOK = None


def draw_bernoulli(p):
    """One Bernoulli(p) draw: an arbitrary Bool consistent with p."""
    pv, ok = split(p)
    path = cur()
    b = z3.Bool(path.new_name("bern"))
    pt = zt(as_real(pv), True)
    path.add(z3.Implies(b, pt > 0))
    path.add(z3.Implies(z3.Not(b), pt < 1))
    return b


def _rand_bernoulli(arr):
    path = cur()
    path.memo.setdefault("bernoulli", [None])
    bad = b_or(*[b_or(b_not(split(x)[1]), lt(split(x)[0], 0), gt(split(x)[0], 1))
                 for x in arr.reshape(-1)])
    if bad is True or (bad is not False and path.branch(bad)):
        raise RuntimeError("Expected p_in >= 0 && p_in <= 1 to be true, but got false.")
    arr = ew(lambda x: split(x)[0], 1)(arr)
    out = ew(lambda p: (draw_bernoulli(p)), 1)(arr)
    log = path.memo.setdefault("draws", [])
    log.append(("bernoulli", arr, out))
    path.inputs[f"rand#{len(log)}"] = (
        "tensor", (tuple(out.shape), [x for x in out.reshape(-1)], "bool"))
    return ew(lambda b: ite(b, Fraction(1), Fraction(0)), 1)(out)


def _rand_uniform(shape):
    path = cur()
    log = path.memo.setdefault("draws", [])
    out = A(shape)
    f = out.reshape(-1)
    for i in range(f.size):
        v = z3.Real(path.new_name("unif"))
        path.add(z3.And(v >= 0, v < 1))
        f[i] = v
    out = f.reshape(shape)
    log.append(("rand", None, out))
    path.inputs[f"rand#{len(log)}"] = ("tensor", (tuple(shape), list(f), "float"))
    return out


def _rand_normal(shape):
    path = cur()
    log = path.memo.setdefault("draws", [])
    out = A(shape)
    f = out.reshape(-1)
    for i in range(f.size):
        f[i] = z3.Real(path.new_name("normal"))
    out = f.reshape(shape)
    log.append(("randn", None, out))
    path.inputs[f"rand#{len(log)}"] = ("tensor", (tuple(shape), list(f), "float"))
    return out


def _randperm(n):
    raise Unsupported("randperm")


# ------------------------------------------------------------- dispatcher
def _to_meta(x):
    if isinstance(x, SymTensor):
        return torch.empty(tuple(x.arr.shape), dtype=x.dtype, device="meta")
    if isinstance(x, torch.Tensor):
        return x.to("meta")
    return x


def _arr(x):
    if isinstance(x, SymTensor):
        return x.arr
    if isinstance(x, torch.Tensor):
        return from_plain(x).arr
    return x


def _meta(func, args, kwargs):
    margs = tree_map(_to_meta, args)
    mkw = tree_map(_to_meta, kwargs)
    if "device" in mkw:
        mkw = dict(mkw, device="meta")
    if mkw.get("pin_memory"):
        mkw = dict(mkw, pin_memory=False)
    with torch._C._DisableTorchDispatch():
        return func(*margs, **mkw)


def _build(res, m):
    """result array(s) + meta result(s) -> SymTensor(s)."""
    if isinstance(m, (tuple, list)):
        rs = [_build(r, mm) for r, mm in zip(res, m)]
        return type(m)(rs) if type(m) in (tuple, list) else tuple(rs)
    if isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], str):
        kind, v = res
        a = A(tuple(m.shape))
        if kind == "const":
            a[...] = v
        else:
            f = a.reshape(-1)
            for i in range(f.size):
                f[i] = Und(Fraction(0), False) if m.dtype.is_floating_point else 0
            a = f.reshape(tuple(m.shape))
        res = a
    if tuple(res.shape) != tuple(m.shape):
        if res.size == int(np.prod(tuple(m.shape))) if m.ndim else res.size == 1:
            res = res.reshape(tuple(m.shape))
        else:
            raise Unsupported(f"shape mismatch {res.shape} vs {tuple(m.shape)}")
    return SymTensor(cast(res, m.dtype), m.dtype)


_DECOMP = None


def decomp_table():
    global _DECOMP
    if _DECOMP is None:
        from torch._decomp import decomposition_table

        _DECOMP = decomposition_table
    return _DECOMP


def _svd(args, kwargs):
    """A factorisation the harness registered for exactly this matrix."""
    a = args[0]
    full = args[1] if len(args) > 1 else kwargs.get("full_matrices", False)
    uv = args[2] if len(args) > 2 else kwargs.get("compute_uv", True)
    look = getattr(cur(), "svd", None)
    if look is None or a.arr.ndim != 2 or not uv or (full and a.arr.shape[0] != a.arr.shape[1]):
        raise Unsupported("svd")
    return tuple(SymTensor(x.copy(), a.dtype) for x in look(a.arr))


OPS_SEEN = {}


def _native(func, args, kwargs):
    """Runs an operation none of whose operands is symbolic on real tensors."""
    if func._schema.is_mutable:
        return None
    try:
        a, k = tree_map(plain, (args, kwargs))
    except Unsupported:
        return None
    return native(func, *a, **k)


def native(f, *args, **kwargs):
    """f on constants, computed by torch itself."""
    from torch.utils._python_dispatch import _disable_current_modes

    with _disable_current_modes(), torch._C.DisableTorchFunction():
        args, kwargs = tree_map(plain, (args, kwargs))
        return tree_map(wrap, f(*args, **kwargs))


def plain(x):
    """The real tensor of a SymTensor that holds constants only."""
    if not isinstance(x, SymTensor):
        return x
    flat = x.arr.reshape(-1).tolist()
    if not all(isinstance(e, (bool, int, float, Fraction)) for e in flat):
        raise Unsupported("symbolic operand")
    kind = bool if x.dtype == torch.bool else float if x.dtype.is_floating_point else int
    with torch._C._DisableTorchDispatch(), torch._C.DisableTorchFunction():
        return torch.tensor([kind(e) for e in flat], dtype=x.dtype).reshape(tuple(x.arr.shape))


def dispatch(func, args, kwargs):
    try:
        return _dispatch(func, args, kwargs)
    except Unsupported:
        args, kwargs = tree_map(wrap, (args, kwargs))
        out = _native(func, args, kwargs)
        if out is None:
            raise
        return out


def _dispatch(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    ovl = func._schema.overload_name
    OPS_SEEN[name] = OPS_SEEN.get(name, 0) + 1
    if core.CUR is not None:
        core.CUR.deadline()
    args = tree_map(wrap, args)
    kwargs = tree_map(wrap, kwargs)
    anysym = []
    tree_map(lambda x: anysym.append(1) if isinstance(x, SymTensor) else None, (args, kwargs))

    # randomness
    if name in ("bernoulli", "bernoulli_", "rand", "rand_like", "randn", "randn_like",
                "uniform_", "normal_", "uniform", "normal"):
        return _random(func, name, ovl, args, kwargs)
    if name in ("randperm", "randint", "multinomial", "poisson", "exponential_"):
        raise Unsupported("random op " + name)

    if name == "linalg_qr" and anysym:
        raise Unsupported(name)
    if name == "linalg_lstsq" and anysym:
        r = SymTensor(_lstsq(args[0].arr, args[1].arr), args[0].dtype)
        e = torch.empty(0)
        return r, e, e, e
    if name == "_linalg_svd" and anysym:
        return _svd(args, kwargs)

    if not anysym:
        with torch._C._DisableTorchDispatch():
            out = func(*args, **kwargs)
        if name in ("empty", "empty_strided", "empty_permuted"):
            out = torch.zeros(tuple(out.shape), dtype=out.dtype)
            r = from_plain(out)
            if out.dtype.is_floating_point:
                r.arr[...] = Und(Fraction(0), False)
            return r
        return tree_map(wrap, out)

    if name == "_local_scalar_dense":
        v, ok = split(args[0].arr.reshape(-1)[0])
        if ok is not True and (ok is False or not cur().branch(ok)):
            return float("nan")
        if is_z3(v):
            v = z3.simplify(v)
            if z3.is_bool(v):
                return cur().branch(v)
            if v.is_int():
                return cur().concretize_int(v)
            if not z3.is_rational_value(v):
                raise Unsupported("C++ code reads a symbolic float")
            v = num(v)
        return float(v) if isinstance(v, Fraction) else v
    if name == "equal":
        a, b = args
        if a.arr.shape != b.arr.shape:
            return False
        c = b_and(*[split(eq(x, y))[0] for x, y in zip(a.arr.reshape(-1), b.arr.reshape(-1))])
        return c if isinstance(c, bool) else cur().branch(c)
    if name in ("set_", "resize_"):
        raise Unsupported(name)
    if name in ("is_same_size",):
        return args[0].shape == args[1].shape
    if name in DATADEP:
        return DATADEP[name](*args, **kwargs)
    if name in ("index", "_unsafe_index") and any(
        i is not None and i.dtype in (torch.bool, torch.uint8) for i in args[1]
    ):
        return _dd_index(*args)
    if name == "_assert_async" or name == "_functional_assert_async":
        c = split(lift(as_bool)(args[0].arr.reshape(-1)[0]))[0]
        if not (c if isinstance(c, bool) else cur().branch(c)):
            raise RuntimeError("assertion")
        return None

    for n in (f"{name}.{ovl}", name):
        if n in VIEWS:
            a = args[0]
            r = VIEWS[n](a.arr, *args[1:], **kwargs)
            if isinstance(r, list):
                return [SymTensor(x, a.dtype) for x in r]
            return SymTensor(r, a.dtype)

    inplace = name.endswith("_") and not name.startswith("__")
    base = name[:-1] if inplace else name
    if inplace and base in VIEWS:
        # in-place view (unsqueeze_, t_, ...): mutate metadata and payload
        a = args[0]
        r = VIEWS[base](a.arr, *args[1:], **kwargs)
        with torch._C._DisableTorchDispatch(), torch._C.DisableTorchFunction():
            func(*args, **kwargs)
        if tuple(a.shape) != tuple(r.shape):
            raise Unsupported(name)
        a.arr = r
        return a
    out_kw = None
    if "out" in kwargs and kwargs["out"] is not None:
        out_kw = kwargs["out"]
        kwargs = {k: v for k, v in kwargs.items() if k != "out"}
    fn = TABLE.get(f"{base}.{ovl}") or TABLE.get(base)
    if fn is None:
        d = decomp_table().get(func)
        if d is not None:
            with SymMode():
                return d(*args, **kwargs)
        if torch._C._dispatch_has_kernel_for_dispatch_key(func.name(), "CompositeImplicitAutograd"):
            with SymMode():
                return func.decompose(*args, **kwargs)
        raise Unsupported(f"aten op {func}")
    kw = {k: v for k, v in kwargs.items() if k not in ("layout", "pin_memory", "device", "memory_format", "generator", "non_blocking")}
    if base in ("_to_copy", "to"):
        kw = {}
    if base in ("zeros_like", "ones_like", "empty_like", "full_like", "new_zeros", "new_ones",
                "new_empty", "new_full", "new_empty_strided"):
        kw.pop("dtype", None)
    res = fn(*tree_map(_arr, args), **tree_map(_arr, kw))
    if inplace:
        self = args[0]
        # let torch's meta kernel raise its own shape/dtype errors
        if base not in ("index_put", "_index_put_impl"):
            _meta(func, args, kwargs)
        if isinstance(res, tuple) and isinstance(res[0], str):
            res = _build(res, torch.empty(self.arr.shape, dtype=self.dtype, device="meta")).arr
        self.arr[...] = cast(np.broadcast_to(res, self.arr.shape), self.dtype)
        return self
    if out_kw is not None:
        out_kw.arr[...] = cast(res, out_kw.dtype)
        return out_kw
    m = _meta(func, args, kwargs)
    return _build(res, m)


def _random(func, name, ovl, args, kwargs):
    if name == "bernoulli":
        if len(args) > 1 or "p" in kwargs:
            p = args[1] if len(args) > 1 else kwargs["p"]
            parr = A(args[0].arr.shape)
            parr[...] = p.arr[()] if isinstance(p, SymTensor) else norm_const(p)
        else:
            parr = args[0].arr
        return SymTensor(_rand_bernoulli(parr), args[0].dtype)
    if name == "bernoulli_":
        p = args[1] if len(args) > 1 else kwargs.get("p", 0.5)
        parr = A(args[0].arr.shape)
        if isinstance(p, SymTensor):
            parr[...] = np.broadcast_to(p.arr, parr.shape)
        else:
            parr[...] = norm_const(p)
        args[0].arr[...] = cast(_rand_bernoulli(parr), args[0].dtype)
        return args[0]
    if name in ("rand_like", "randn_like"):
        gen = _rand_uniform if name == "rand_like" else _rand_normal
        return SymTensor(gen(args[0].arr.shape), kwargs.get("dtype") or args[0].dtype)
    if name in ("rand", "randn"):
        gen = _rand_uniform if name == "rand" else _rand_normal
        return SymTensor(gen(tuple(args[0])), kwargs.get("dtype") or torch.get_default_dtype())
    if name == "uniform_":
        lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
        hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
        u = _rand_uniform(args[0].arr.shape)
        args[0].arr[...] = _add(_mul(u, norm_const(hi) - norm_const(lo)), norm_const(lo))
        return args[0]
    if name == "normal_":
        mu = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
        sd = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
        u = _rand_normal(args[0].arr.shape)
        args[0].arr[...] = _add(_mul(u, norm_const(sd)), norm_const(mu))
        return args[0]
    raise Unsupported("random op " + name)


class _DispMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


# --------------------------------------------------------- function mode
def _symscalar_to_tensor(x):
    if isinstance(x, SymReal):
        v = x.v
        return SymTensor(A0(v), torch.float32)
    return x


_T = torch.Tensor
_SCALAR_NUM = {_T.add, _T.sub, torch.add, torch.sub, _T.add_, _T.sub_, torch.rsub}


def _contains_sym(x):
    if isinstance(x, (SymReal, SymInt, SymBool)):
        return True
    if isinstance(x, SymNd):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(y) for y in x)
    if isinstance(x, SymTensor):
        return True
    return False


def _nested_arr(x):
    if isinstance(x, (SymReal, SymInt, SymBool)):
        return A0(x.v)
    if isinstance(x, SymTensor):
        return x.arr
    if isinstance(x, torch.Tensor):
        return from_plain(x).arr
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ew(lambda e: norm_const(e), 1)(np.asarray(x))
        return arr_of([norm_const(e) for e in x.reshape(-1)], x.shape)
    if isinstance(x, (list, tuple)):
        parts = [_nested_arr(y) for y in x]
        return np.stack(parts) if parts else A((0,))
    return A0(norm_const(x))


def _infer_dtype(a):
    for x in a.reshape(-1):
        v, _ = split(x)
        if isinstance(v, (Fraction, float)) or (is_z3(v) and z3.is_real(v)):
            return torch.get_default_dtype()
    for x in a.reshape(-1):
        v, _ = split(x)
        if (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and v.is_int()):
            return torch.int64
    return torch.bool if a.size else torch.get_default_dtype()


def _elem_py(v):
    return mk_scalar(v)


def _tolist(a):
    if a.ndim == 0:
        return mk_scalar(a[()])
    return [_tolist(x if isinstance(x, np.ndarray) else A0(x)) for x in a]


def _decide(v):
    v, ok = split(v)
    if ok is not True and (ok is False or not cur().branch(ok)):
        return True  # bool(nan) is True
    v = as_bool(v)
    return v if isinstance(v, bool) else cur().branch(v)


class _FuncMode(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        h = SPECIAL.get(func)
        if h is not None:
            r = h(*args, **kwargs)
            if r is not NotImplemented:
                return r
        n = getattr(func, "__name__", "")
        if n in ("set_", "data_ptr", "untyped_storage", "storage", "_typed_storage") and isinstance(args[0], SymTensor):
            raise Unsupported(f"Tensor.{n}")

        def cv(x):
            if isinstance(x, SymReal):
                return _symscalar_to_tensor(x)
            if isinstance(x, SymInt):
                return int(x)
            if isinstance(x, SymBool):
                return bool(x)
            return x

        if _has_scalar(args) or _has_scalar(kwargs):
            if "alpha" in kwargs and isinstance(kwargs["alpha"], SymReal):
                al = kwargs.pop("alpha")
                a, b = args
                b = b * al
                args = (a, b)
            if n in ("clamp", "clip", "clamp_"):
                return _clamp_sym(func, *args, **kwargs)
            if n == "full":
                return _full_sym(*args, **kwargs)
            if n in ("full_like", "new_full"):
                kw = {k: v for k, v in kwargs.items() if k not in ("fill_value", "input", "self", "size")}
                fv = kwargs["fill_value"] if "fill_value" in kwargs else args[-1]
                inp = args[0] if args and isinstance(args[0], torch.Tensor) else kwargs.get("input", kwargs.get("self"))
                if n == "full_like":
                    sz = tuple(inp.shape)
                else:
                    sz = kwargs["size"] if "size" in kwargs else args[1]
                return _full_sym(sz, fv, dtype=kw.get("dtype") or inp.dtype)
            args = tree_map(cv, args)
            kwargs = tree_map(cv, kwargs)
            if n in ("true_divide", "div", "__truediv__", "__rtruediv__", "pow", "__pow__", "where",
                     "maximum", "minimum", "lerp", "masked_fill", "masked_fill_", "fill_") or True:
                pass
        r = func(*args, **kwargs)
        if isinstance(r, torch.Tensor) and not isinstance(r, SymTensor) and r.device.type != "meta":
            return from_plain(r)
        return r


def _has_scalar(x):
    if isinstance(x, (SymReal, SymInt, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_scalar(y) for y in x)
    if isinstance(x, dict):
        return any(_has_scalar(y) for y in x.values())
    return False


def _clamp_sym(func, t, min=None, max=None):
    r = t
    if min is not None:
        r = torch.maximum(r, _full_sym((), min, r.dtype))
    if max is not None:
        r = torch.minimum(r, _full_sym((), max, r.dtype))
    if func.__name__.endswith("_"):
        t.copy_(r)
        return t
    return r


def _full_sym(size, fill_value, dtype=None, device=None, **kw):
    a = A(tuple(int(s) for s in size))
    a[...] = norm_const(fill_value)
    return SymTensor(cast(a, dtype or torch.get_default_dtype()), dtype or torch.get_default_dtype())


def _mk_tensor(data, dtype=None, device=None, requires_grad=False, pin_memory=False, copy=None):
    if isinstance(data, SymTensor):
        if copy is None and (dtype is None or dtype == data.dtype):
            return SymTensor(data.arr.copy(), data.dtype)
        return SymTensor(cast(data.arr.copy(), dtype or data.dtype), dtype or data.dtype)
    if not _contains_sym(data):
        return NotImplemented
    a = _nested_arr(data)
    dt = dtype or _infer_dtype(a)
    return SymTensor(cast(a, dt), dt)


def _as_tensor(data, dtype=None, device=None):
    if isinstance(data, SymTensor):
        if dtype is None or dtype == data.dtype:
            return data
        return SymTensor(cast(data.arr, dtype), dtype)
    return _mk_tensor(data, dtype)


def _sp_item(self):
    t = wrap(self)
    if t.arr.size != 1:
        raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % t.arr.size)
    return mk_scalar(t.arr.reshape(-1)[0])


def _sp_bool(self):
    t = wrap(self)
    if t.arr.size != 1:
        raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
    return _decide(t.arr.reshape(-1)[0])


def _sp_int(self):
    v = _sp_item(self)
    return int(v)


def _sp_float(self):
    v = _sp_item(self)
    if isinstance(v, SymReal):
        raise Unsupported("float() of symbolic tensor")
    return float(v)


def _sp_equal(a, b):
    a, b = wrap(a), wrap(b)
    if a.arr.shape != b.arr.shape:
        return False
    oks = []
    for x, y in zip(a.arr.reshape(-1), b.arr.reshape(-1)):
        v, ok = split(eq(x, y))
        oks += [v, ok]
    c = b_and(*oks)
    return c if isinstance(c, bool) else cur().branch(c)


def _sp_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = wrap(a), wrap(b)
    c = _op_isclose(a.arr, b.arr, rtol, atol)
    c = b_and(*[b_and(*split(x)) for x in c.reshape(-1)])
    return c if isinstance(c, bool) else cur().branch(c)


def _sp_numpy(self, *a, **k):
    t = wrap(self)
    return nd(t.arr)


def _sp_from_numpy(a):
    if isinstance(a, SymNd) or (isinstance(a, np.ndarray) and a.dtype == object):
        arr = _nested_arr(a)
        return SymTensor(cast(arr, torch.float32 if _infer_dtype(arr) == torch.float32 else None), _infer_dtype(arr))
    return NotImplemented


def _sp_len(self):
    if self.dim() == 0:
        raise TypeError("len() of a 0-d tensor")
    return self.shape[0]


def _sp_contains(self, x):
    return bool((self == x).any())


def _sp_view(self, *size, **kw):
    """torch's view refuses strides it cannot express; mirror that."""
    if kw or not isinstance(self, SymTensor) or not size or isinstance(size[0], torch.dtype):
        return NotImplemented
    sz = tuple(size[0]) if len(size) == 1 and isinstance(size[0], (tuple, list, torch.Size)) else size
    sz = tuple(int(x) for x in sz)
    if not self.arr.flags["C_CONTIGUOUS"]:
        try:
            np.reshape(self.arr, sz, copy=False)
        except ValueError:
            raise RuntimeError("view size is not compatible with input tensor's size and stride")
    return NotImplemented


def _sp_isfinite(self):
    """torch decomposes this into comparisons with itself, which would hide undefined elements"""
    a = wrap(self).arr
    return SymTensor(arr_of([TABLE["isfinite"](A0(x))[()] for x in a.reshape(-1)], a.shape), torch.bool)


SPECIAL = {
    torch.isfinite: _sp_isfinite,
    _T.isfinite: _sp_isfinite,
    _T.view: _sp_view,
    torch.tensor: _mk_tensor,
    torch.as_tensor: _as_tensor,
    torch.asarray: _as_tensor,
    torch.from_numpy: _sp_from_numpy,
    torch.equal: _sp_equal,
    torch.allclose: _sp_allclose,
    _T.equal: _sp_equal,
    _T.allclose: _sp_allclose,
    _T.item: _sp_item,
    _T.__bool__: _sp_bool,
    _T.is_nonzero: _sp_bool,
    torch.is_nonzero: _sp_bool,
    _T.__int__: _sp_int,
    _T.__index__: _sp_int,
    _T.__float__: _sp_float,
    _T.tolist: lambda self: _tolist(wrap(self).arr),
    _T.numpy: _sp_numpy,
    _T.__len__: _sp_len,
    _T.__repr__: lambda self, **k: "SymTensor",
    _T.__format__: lambda self, spec: "SymTensor",
    _T.__hash__: lambda self: id(self),
    _T.__contains__: _sp_contains,
    _T.__array__: lambda self, *a, **k: nd(wrap(self).arr),
    _T.__deepcopy__: lambda self, memo: SymTensor(wrap(self).arr.copy(), self.dtype),
}
for _b in ("__eq__",):
    pass


_real_from_numpy = torch.from_numpy


def _from_numpy(a):
    r = _sp_from_numpy(a)
    return _real_from_numpy(a) if r is NotImplemented else r


class SymMode:
    def __enter__(self):
        torch.from_numpy = _from_numpy
        self.f = _FuncMode()
        self.d = _DispMode()
        self.f.__enter__()
        self.d.__enter__()
        return self

    def __exit__(self, *a):
        self.d.__exit__(*a)
        self.f.__exit__(*a)


# ---------------------------------------------------------------- numpy side
class SymNd(np.ndarray):
    """object ndarray of element values wrapped as Python sym scalars on access."""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        n = ufunc.__name__
        if method == "reduce":
            a = _nd_arr(inputs[0])
            axis = kw.get("axis", 0)
            kd = kw.get("keepdims", False)
            f = {"add": vsum, "multiply": lambda xs: fold(mul, xs),
                 "maximum": lambda xs: fold(vmax, xs), "minimum": lambda xs: fold(vmin, xs),
                 "logical_and": lambda xs: fold(land, [True] + xs),
                 "logical_or": lambda xs: fold(lor, [False] + xs)}.get(n)
            if f is None:
                raise Unsupported("numpy reduce " + n)
            return _nd_out(reduce_(a, axis, kd, f))
        if method != "__call__":
            raise Unsupported(f"numpy ufunc {n}.{method}")
        f = NP_UFUNC.get(n)
        if n in ("matmul",):
            return _nd_out(_nd_matmul(*[_nd_arr(x) for x in inputs]))
        if f is None:
            raise Unsupported("numpy ufunc " + n)
        r = ew(f, len(inputs))(*[_nd_arr(x) for x in inputs])
        if out is not None:
            out[0][...] = r
            return out[0]
        return _nd_out(r)

    def __array_function__(self, func, types, args, kwargs):
        f = NP_FUNC.get(func)
        if f is None:
            n = func.__name__
            if n in ("reshape", "squeeze", "transpose", "ravel", "copy", "shape", "ndim", "size",
                     "expand_dims", "concatenate", "stack", "broadcast_to", "zeros_like", "empty_like",
                     "ones_like", "atleast_1d", "atleast_2d", "moveaxis", "swapaxes", "flip", "tile"):
                conv = tree_map(lambda x: np.asarray(x.view(np.ndarray)) if isinstance(x, SymNd) else x, (args, kwargs))
                r = func(*conv[0], **conv[1])
                return nd(r) if isinstance(r, np.ndarray) else r
            raise Unsupported("numpy function " + n)
        return f(*args, **kwargs)

    def __getitem__(self, k):
        r = self.view(np.ndarray)[k if not isinstance(k, SymNd) else conc_idx(_nd_arr(k))]
        if isinstance(r, np.ndarray):
            return nd(r)
        return mk_scalar(r)

    def __setitem__(self, k, v):
        if isinstance(k, SymNd):
            k = conc_idx(_nd_arr(k))
        self.view(np.ndarray)[k] = _nd_arr(v) if isinstance(v, np.ndarray) else norm_const(v)

    def astype(self, *a, **k):
        return self

    def sum(self, axis=None, keepdims=False, **k):
        return _nd_out(reduce_(_nd_arr(self), axis, keepdims, vsum))

    def mean(self, axis=None, keepdims=False, **k):
        return _nd_out(_op_mean(_nd_arr(self), axis, keepdims))

    def item(self, *a):
        return mk_scalar(self.view(np.ndarray).reshape(-1)[a[0] if a else 0])

    def __bool__(self):
        return _decide(self.view(np.ndarray).reshape(-1)[0])

    def __int__(self):
        return int(_nd_scalar(self))

    def __float__(self):
        v = _nd_scalar(self)
        if isinstance(v, SymReal):
            raise Unsupported("float() of symbolic numpy value")
        return float(v)

    def dot(self, o):
        return _nd_out(_nd_matmul(_nd_arr(self), _nd_arr(o)))

    def copy(self, *a, **k):
        return nd(self.view(np.ndarray).copy())

    def __reduce__(self):
        raise Unsupported("pickle SymNd")


def nd(a):
    if isinstance(a, SymNd):
        return a
    if not isinstance(a, np.ndarray):
        a = A0(a)
    return a.view(SymNd)


def _nd_scalar(self):
    return mk_scalar(self.view(np.ndarray).reshape(-1)[0])




def _nd_arr(x):
    if isinstance(x, SymNd):
        return x.view(np.ndarray)
    return _nested_arr(x)


def _nd_out(a):
    return nd(a)


def _nd_matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return A0(_dot(a, b))
    if b.ndim == 1:
        return _op_mv(a, b)
    if a.ndim == 1:
        return _op_mv(b.T, a)
    return _op_mm(a, b)


NP_UFUNC = dict(
    add=add, subtract=sub, multiply=mul, divide=div, true_divide=div, negative=neg, absolute=absv,
    fabs=absv, sqrt=vsqrt, square=lambda x: mul(x, x), power=vpow, exp=vexp, log=vlog, sin=vsin,
    cos=vcos, arccos=vacos, maximum=vmax, minimum=vmin, less=lt, less_equal=le, greater=gt,
    greater_equal=ge, equal=eq, not_equal=ne, logical_and=land, logical_or=lor, logical_not=lnot,
    sign=sign, floor=vfloor, ceil=vceil, tanh=vtanh, reciprocal=lambda x: div(Fraction(1), x),
    isnan=lambda x: b_not(split(x)[1]) if split(x)[1] is not True else False,
    isfinite=lambda x: split(x)[1],
    clip=lambda x, lo, hi: vmin(vmax(x, lo), hi),
    bitwise_and=land, bitwise_or=lor, invert=lnot,
)


def _np_norm(x, ord=None, axis=None, keepdims=False):
    return _nd_out(reduce_(_nd_arr(x), axis, keepdims, lambda xs: _norm(xs, 2 if ord is None else ord)))


NP_FUNC = {
    np.sum: lambda a, axis=None, keepdims=False, **k: _nd_out(reduce_(_nd_arr(a), axis, keepdims, vsum)),
    np.mean: lambda a, axis=None, keepdims=False, **k: _nd_out(_op_mean(_nd_arr(a), axis, keepdims)),
    np.max: lambda a, axis=None, keepdims=False, **k: _nd_out(_op_amax(_nd_arr(a), axis, keepdims)),
    np.min: lambda a, axis=None, keepdims=False, **k: _nd_out(_op_amin(_nd_arr(a), axis, keepdims)),
    np.any: lambda a, axis=None, **k: _nd_out(_op_any(_nd_arr(a), axis)),
    np.all: lambda a, axis=None, **k: _nd_out(_op_all(_nd_arr(a), axis)),
    np.linalg.norm: _np_norm,
    np.dot: lambda a, b: _nd_out(_nd_matmul(_nd_arr(a), _nd_arr(b))),
    np.vdot: lambda a, b: _nd_out(A0(_dot(_nd_arr(a).reshape(-1), _nd_arr(b).reshape(-1)))),
    np.inner: lambda a, b: _nd_out(_nd_matmul(_nd_arr(a), _nd_arr(b).T)),
    np.einsum: lambda *a, **k: (_ for _ in ()).throw(Unsupported("einsum")),
    np.where: lambda c, a=None, b=None: _nd_out(ew(ite, 3)(_nd_arr(c), _nd_arr(a), _nd_arr(b))),
    np.clip: lambda a, lo, hi, **k: _nd_out(_op_clamp(_nd_arr(a), None if lo is None else _nd_arr(lo), None if hi is None else _nd_arr(hi))),
    np.isclose: lambda a, b, rtol=1e-5, atol=1e-8, **k: _nd_out(_op_isclose(_nd_arr(a), _nd_arr(b), rtol, atol)),
    np.allclose: lambda a, b, rtol=1e-5, atol=1e-8, **k: _decide(_op_all(_op_isclose(_nd_arr(a), _nd_arr(b), rtol, atol))[()]),
}
