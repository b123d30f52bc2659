"""numpy / math stand-ins for the code under test.

Only *creation* and *library algorithm* functions are replaced (their C implementations cannot
hold exact terms); everything else is numpy itself working on object arrays.  Every stand-in
implements numpy's documented meaning over exact terms.
"""

import builtins
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import SBool, SReal, Unsupported, lift

OBJ = np.dtype(object)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SReal))

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(builtins.float)


class sym_float(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == OBJ and x.size == 1:
            x = x.item()
        if isinstance(x, SReal):
            return x
        if isinstance(x, Fraction):
            return lift(x)
        return builtins.float(x)


class sym_float64(np.float64, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == OBJ:
            return x.copy() if x.ndim else x.item()
        if isinstance(x, SReal):
            return x
        return np.float64(x)


def is_sym(x):
    return isinstance(x, (SReal, SBool))


def has_obj(*xs):
    for x in xs:
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == OBJ:
                return True
        elif isinstance(x, (list, tuple)):
            if has_obj(*x):
                return True
    return False


def dt(dtype):
    """True when the requested dtype is floating (also None)."""
    if dtype is None or dtype is sym_float or dtype is sym_float64 or dtype is builtins.float:
        return True
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return False
    return k in "fcO"


def dim(x):
    if isinstance(x, (tuple, list)):
        return tuple(int(i) for i in x)
    return int(x)


def filled(shape, value):
    r = np.empty(dim(shape), dtype=object)
    r.fill(value)
    return r


def zeros(shape, dtype=None, order="C", **kw):
    if dt(dtype):
        return filled(shape, 0.0)
    return np.zeros(dim(shape), dtype=dtype, order=order)


def ones(shape, dtype=None, order="C", **kw):
    if dt(dtype):
        return filled(shape, 1.0)
    return np.ones(dim(shape), dtype=dtype, order=order)


def full(shape, fill_value, dtype=None, order="C", **kw):
    if dtype is None and isinstance(fill_value, (int, np.integer)) and not isinstance(
        fill_value, bool
    ):
        return np.full(dim(shape), fill_value)
    if dtype is None and isinstance(fill_value, (bool, np.bool_)):
        return np.full(dim(shape), fill_value)
    if dt(dtype):
        r = np.empty(dim(shape), dtype=object)
        r[...] = fill_value
        return r
    return np.full(dim(shape), fill_value, dtype=dtype, order=order)


def uninit():
    """Content of np.empty: an arbitrary value."""
    e = E.CUR
    key = ("uninit", len(e.var_names))
    v = e.fresh_atom("uninit", {}, key)
    return SReal({((v, 1),): 1}, ())


def empty(shape, dtype=None, order="C", **kw):
    if dt(dtype):
        r = np.empty(dim(shape), dtype=object)
        flat = r.reshape(-1)
        for i in range(flat.size):
            flat[i] = uninit()
        return r
    return np.zeros(dim(shape), dtype=dtype)


def _like_dtype(a, dtype):
    a = np.asarray(a)
    if dtype is None:
        return a.dtype
    return dtype


def zeros_like(a, dtype=None, **kw):
    shape = kw.get("shape", None)
    shape = np.shape(a) if shape is None else shape
    return zeros(shape, dtype=_like_dtype(a, dtype))


def ones_like(a, dtype=None, **kw):
    shape = kw.get("shape", None)
    shape = np.shape(a) if shape is None else shape
    return ones(shape, dtype=_like_dtype(a, dtype))


def empty_like(a, dtype=None, **kw):
    shape = kw.get("shape", None)
    shape = np.shape(a) if shape is None else shape
    return empty(shape, dtype=_like_dtype(a, dtype))


def full_like(a, fill_value, dtype=None, **kw):
    return full(np.shape(a), fill_value, dtype=_like_dtype(a, dtype))


def eye(N, M=None, k=0, dtype=None, **kw):
    r = np.eye(int(N), None if M is None else int(M), k)
    if dt(dtype):
        return r.astype(object)
    return r.astype(dtype)


def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype)


def to_obj(r):
    if isinstance(r, np.ndarray) and r.dtype.kind == "f":
        return r.astype(object)
    return r


def array(a, dtype=None, copy=True, order=None, ndmin=0, **kw):
    if dtype is None:
        r = np.array(a, copy=True, ndmin=ndmin)
        return to_obj(r)
    if dt(dtype):
        r = np.array(a, dtype=object, copy=True, ndmin=ndmin)
        return r
    return np.array(a, dtype=dtype, ndmin=ndmin)


def asarray(a, dtype=None, order=None, **kw):
    if isinstance(a, np.ndarray):
        if dtype is None:
            return a
        if dt(dtype):
            return a if a.dtype == OBJ else a.astype(object)
        return np.asarray(a, dtype=dtype)
    return array(a, dtype=dtype)


def ascontiguousarray(a, dtype=None, **kw):
    a = asarray(a, dtype)
    if a.ndim == 0:
        a = a.reshape(1)
    return np.ascontiguousarray(a)


def copy_(a, order="K", **kw):
    return to_obj(np.array(a, copy=True))


def _lifted(a):
    a = np.asarray(a)
    if a.dtype != OBJ:
        a = a.astype(object)
    r = np.empty(a.shape, dtype=object)
    fr, fa = r.reshape(-1), a.reshape(-1)
    for i in range(fa.size):
        x = lift(fa[i])
        if x is None:
            raise Unsupported(f"non numeric entry {type(fa[i])}")
        fr[i] = x
    return fr.reshape(a.shape)


def _map(a, fn):
    if isinstance(a, np.ndarray) or isinstance(a, (list, tuple)):
        a = np.asarray(a)
        if a.dtype != OBJ:
            return None
        r = np.empty(a.shape, dtype=object)
        fr, fa = r.reshape(-1), a.reshape(-1)
        for i in range(fa.size):
            x = lift(fa[i])
            fr[i] = fn(x) if x is not None else fn(fa[i])
        r = fr.reshape(a.shape)
        return r if r.ndim else r.item()
    if is_sym(a):
        return fn(lift(a))
    return None


def _unary(name, method, npfn):
    def f(a, *args, **kw):
        out = kw.pop("out", None)
        if has_obj(a) or (isinstance(a, np.ndarray) and a.dtype == OBJ):
            r = _map(a, lambda x: getattr(x, method)())
            if out is not None:
                out[...] = r
                return out
            return r
        if out is not None:
            kw["out"] = out
        return npfn(a, *args, **kw)

    f.__name__ = name
    return f


def np_sqrt(a, *args, **kw):
    if has_obj(a):
        r = _map(a, lambda x: x.sqrt())
        if kw.get("out") is not None:
            kw["out"][...] = r
            return kw["out"]
        return r
    # exact for constants too
    if isinstance(a, (int, float, np.floating, np.integer)):
        return lift(a).sqrt()
    return np.sqrt(a, *args, **kw)


def np_abs(a, *args, **kw):
    if has_obj(a):
        return _map(a, abs)
    return np.abs(a, *args, **kw)


def sgn(x):
    if bool(x > 0):
        return 1.0
    if bool(x < 0):
        return -1.0
    return 0.0


def np_sign(a, *args, **kw):
    if has_obj(a):
        return _map(a, sgn)
    return np.sign(a, *args, **kw)


def np_heaviside(a, h):
    if has_obj(a):
        return _map(a, lambda x: 1.0 if bool(x > 0) else (0.0 if bool(x < 0) else h))
    return np.heaviside(a, h)


def np_square(a, *args, **kw):
    if has_obj(a):
        return a * a
    return np.square(a, *args, **kw)


def np_ceil(a, *args, **kw):
    if has_obj(a):
        return _map(a, lambda x: x.ceil())
    return np.ceil(a, *args, **kw)


def np_floor(a, *args, **kw):
    if has_obj(a):
        return _map(a, lambda x: x.floor())
    return np.floor(a, *args, **kw)


def np_hypot(a, b, *args, **kw):
    if has_obj(a, b):
        return np_sqrt(np.asarray(a) ** 2 + np.asarray(b) ** 2) if isinstance(
            a, np.ndarray
        ) or isinstance(b, np.ndarray) else (lift(a) ** 2 + lift(b) ** 2).sqrt()
    return np.hypot(a, b, *args, **kw)


def np_where(c, *xy):
    if isinstance(c, np.ndarray) and c.dtype == OBJ:
        c = np.array([bool(x) for x in c.reshape(-1)], dtype=bool).reshape(c.shape)
    elif isinstance(c, SBool):
        c = bool(c)
    r = np.where(c, *xy)
    return r if not xy else to_obj(r)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_obj(a, b):
        return np.isclose(a, b, rtol, atol, equal_nan)
    rt, at = E.snap(rtol), E.snap(atol)

    def one(x, y):
        x, y = lift(x), lift(y)
        return bool(abs(x - y) <= at + rt * abs(y))

    A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    r = np.array([one(x, y) for x, y in zip(A.reshape(-1), B.reshape(-1))], dtype=bool)
    r = r.reshape(A.shape)
    return r if r.ndim else bool(r)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(np_isclose(a, b, rtol, atol, equal_nan)))


def np_array_equal(a, b, equal_nan=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not has_obj(a, b):
        return np.array_equal(a, b)
    return all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def _const_true(a):
    return np.ones(np.shape(a), dtype=bool) if np.ndim(a) else True


def np_isfinite(a, *args, **kw):
    if has_obj(a):
        return _const_true(a)
    return np.isfinite(a, *args, **kw)


def np_isnan(a, *args, **kw):
    if has_obj(a):
        r = _const_true(a)
        return ~r if isinstance(r, np.ndarray) else False
    return np.isnan(a, *args, **kw)


def np_isinf(a, *args, **kw):
    return np_isnan(a) if has_obj(a) else np.isinf(a, *args, **kw)


def np_nan_to_num(a, *args, **kw):
    if has_obj(a):
        return a.copy() if isinstance(a, np.ndarray) else a
    return np.nan_to_num(a, *args, **kw)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if dtype is not None and not dt(dtype):
        return np.linspace(start, stop, num, endpoint, retstep, dtype, axis)
    a, b = lift(start), lift(stop)
    if a is None or b is None:
        return to_obj(np.linspace(start, stop, num, endpoint, retstep, dtype, axis))
    div = (num - 1) if endpoint else num
    r = np.empty(num, dtype=object)
    step = (b - a) / div if div > 0 else lift(0)
    for i in range(num):
        r[i] = a + step * i
    if endpoint and num > 1:
        r[-1] = b
    return (r, step) if retstep else r


def np_arange(*args, dtype=None, **kw):
    if any(is_sym(x) or isinstance(x, float) for x in args):
        if len(args) == 1:
            start, stop, step = 0, args[0], 1
        elif len(args) == 2:
            start, stop, step = args[0], args[1], 1
        else:
            start, stop, step = args
        start, stop, step = lift(start), lift(stop), lift(step)
        n = int(((stop - start) / step).ceil().const())
        r = np.empty(max(n, 0), dtype=object)
        for i in range(max(n, 0)):
            r[i] = start + step * i
        return r
    return np.arange(*args, dtype=dtype, **kw) if dtype is None or not dt(dtype) else np.arange(
        *args, **kw
    ).astype(object)


def np_cross(a, b, *args, **kw):
    a, b = np.asarray(a), np.asarray(b)
    if not has_obj(a, b):
        return np.cross(a, b, *args, **kw)
    if args or kw or a.shape[-1] != b.shape[-1]:
        raise Unsupported("np.cross with axes")
    if a.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    A, B = np.broadcast_arrays(a, b)
    r = np.empty(A.shape, dtype=object)
    r[..., 0] = A[..., 1] * B[..., 2] - A[..., 2] * B[..., 1]
    r[..., 1] = A[..., 2] * B[..., 0] - A[..., 0] * B[..., 2]
    r[..., 2] = A[..., 0] * B[..., 1] - A[..., 1] * B[..., 0]
    return r


def np_einsum(*args, **kw):
    if has_obj(*[a for a in args if not isinstance(a, str)]):
        kw.pop("optimize", None)
        ops = [np.asarray(a).astype(object) if not isinstance(a, str) else a for a in args]
        r = np.einsum(*ops, **kw)
        if isinstance(r, np.ndarray) and r.ndim == 0:
            return r.item()
        return r
    return np.einsum(*args, **kw)


def np_clip(a, lo=None, hi=None, out=None, **kw):
    if has_obj(a, lo, hi):
        def one(x):
            if lo is not None and bool(x < lo):
                return lift(lo)
            if hi is not None and bool(x > hi):
                return lift(hi)
            return x
        return _map(a, one)
    return np.clip(a, lo, hi, out=out, **kw)


def np_average(a, axis=None, weights=None, **kw):
    if has_obj(a, weights):
        a = np.asarray(a)
        if weights is None:
            return a.mean(axis=axis)
        w = np.asarray(weights)
        if axis is not None and w.ndim == 1 and a.ndim > 1:
            shape = [1] * a.ndim
            shape[axis] = -1
            w = w.reshape(shape)
        return (a * w).sum(axis=axis) / w.sum(axis=axis if w.ndim == a.ndim else None)
    return np.average(a, axis=axis, weights=weights, **kw)


def _key_order(vals):
    """Indices sorting rows (list of tuples) by python comparisons of terms."""
    import functools

    def cmp(i, j):
        for x, y in zip(vals[i], vals[j]):
            if bool(lift(x) < y):
                return -1
            if bool(lift(x) > y):
                return 1
        return 0

    return sorted(range(len(vals)), key=functools.cmp_to_key(cmp))


def np_argsort(a, axis=-1, kind=None, **kw):
    a = np.asarray(a)
    if a.dtype == OBJ and a.ndim == 1:
        return np.array(_key_order([(x,) for x in a]), dtype=np.int64)
    return np.argsort(a, axis=axis, kind=kind, **kw)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = np.asarray(a)
    if a.dtype != OBJ:
        return np.unique(a, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis, **kw)
    rows = [(x,) for x in a.reshape(-1)] if axis is None else [
        tuple(np.asarray(r).reshape(-1)) for r in np.moveaxis(a, axis, 0)]
    order = _key_order(rows)
    groups = []
    for i in order:
        if groups and all(bool(lift(x) == y) for x, y in zip(rows[groups[-1][0]], rows[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    idx = np.array([min(g) for g in groups], dtype=np.int64)
    if axis is None:
        u = a.reshape(-1)[idx] if len(idx) else a.reshape(-1)
    else:
        u = np.take(a, idx, axis=axis)
    out = [u]
    if return_index:
        out.append(idx)
    if return_inverse:
        inv = np.zeros(len(rows), dtype=np.int64)
        for k, g in enumerate(groups):
            inv[g] = k
        out.append(inv)
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=np.int64))
    return out[0] if len(out) == 1 else tuple(out)


def np_mean(a, axis=None, *args, **kw):
    a = np.asarray(a)
    if a.dtype == OBJ:
        n = a.size if axis is None else (
            a.shape[axis] if isinstance(axis, int) else math.prod(a.shape[i] for i in axis))
        if n == 0:
            raise Unsupported("mean of empty array")
        keep = kw.get("keepdims", False)
        s = a.sum(axis=axis, keepdims=keep)
        return s * Fraction(1, n) if isinstance(s, np.ndarray) else lift(s) / n
    r = np.mean(a, axis, *args, **kw)
    return to_obj(r)


def np_min(a, axis=None, *args, **kw):
    return np.min(np.asarray(a), axis, *args, **kw)


def np_dot(a, b, *args, **kw):
    r = np.dot(a, b, *args, **kw)
    return r


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if not has_obj(x, xp, fp):
        return np.interp(x, xp, fp, left, right, period)
    if period is not None:
        raise Unsupported("np.interp with a period")

    def at(t):
        t = lift(t)
        if bool(t < xp[0]):
            return fp[0] if left is None else left
        if bool(t > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(t <= xp[i + 1]):
                h = lift(xp[i + 1]) - xp[i]
                return fp[i] + (lift(fp[i + 1]) - fp[i]) * (t - xp[i]) / h
        return fp[-1]

    X = np.asarray(x, dtype=object)
    r = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        r[i] = at(X[i])
    return r if r.ndim else r.item()


def np_bincount(x, weights=None, minlength=0):
    if weights is None or not has_obj(weights):
        r = np.bincount(x, weights, minlength)
        return r if weights is None else to_obj(r)
    x = np.asarray(x)
    r = filled(max([int(minlength)] + [int(i) + 1 for i in x]), 0.0)
    for i, w in zip(x, weights):
        r[int(i)] = r[int(i)] + w
    return r


def np_copysign(a, b, **kw):
    if not has_obj(a, b):
        return np.copysign(a, b, **kw)
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    r = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        m = abs(lift(A[i]))
        r[i] = m if bool(lift(B[i]) >= 0) else -m
    return r if r.ndim else r.item()


def np_finfo(dtype=None):
    return np.finfo(np.float64 if dt(dtype) else dtype)


def np_gradient(f, *varargs, **kw):
    if not has_obj(f, *varargs):
        return np.gradient(f, *varargs, **kw)
    f = np.asarray(f)
    if f.ndim != 1 or kw or len(varargs) > 1 or (varargs and np.ndim(varargs[0])):
        raise Unsupported("np.gradient")
    h = lift(varargs[0] if varargs else 1)
    r = np.empty(len(f), dtype=object)
    for i in range(len(f)):
        lo, hi = max(i - 1, 0), min(i + 1, len(f) - 1)
        r[i] = (lift(f[hi]) - f[lo]) / (h * (hi - lo))
    return r


def astype(x, dtype, *args, **kw):
    """method call x.astype(dtype, ...) in the code under test"""
    if isinstance(x, np.ndarray) and x.dtype == OBJ and dt(dtype):
        return x.copy() if (args[3] if len(args) > 3 else kw.get("copy", True)) else x
    if isinstance(x, np.ndarray) and x.dtype.kind in "iub" and dt(dtype):
        return x.astype(object)
    if isinstance(x, np.ndarray) and dtype in (sym_float, sym_float64):
        dtype = np.float64
    return x.astype(dtype, *args, **kw)


def np_vectorize(*a, **k):
    return np.vectorize(*a, **k)


# ----------------------------------------------------------------------------- linalg


def _det(m):
    n = len(m)
    if n == 0:
        return lift(1)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = None
    for j in range(n):
        if not m[0][j].n:
            continue
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * _det(sub)
        if j % 2:
            t = -t
        r = t if r is None else r + t
    return r if r is not None else lift(0)


def la_det(a):
    a = _lifted(a)
    if a.ndim > 2:
        out = np.empty(a.shape[:-2], dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = la_det(a[i])
        return out
    if a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return _det([list(r) for r in a])


def _gauss(a, b):
    """Solve a x = b (b: n x k) exactly, with pivoting on provably non-zero entries."""
    n = a.shape[0]
    A = [list(a[i]) + list(b[i]) for i in range(n)]
    for c in range(n):
        piv = None
        # prefer constant non-zero pivots
        for r in range(c, n):
            x = A[r][c]
            if x.is_const and x.const() != 0:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if A[r][c].n and bool(A[r][c] != 0):
                    piv = r
                    break
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[c], A[piv] = A[piv], A[c]
        inv = 1 / A[c][c]
        A[c] = [x if (k < c or not x.n) else x * inv for k, x in enumerate(A[c])]
        for r in range(n):
            if r != c and A[r][c].n:
                f = A[r][c]
                A[r] = [
                    x if (k < c or not A[c][k].n) else x - f * A[c][k]
                    for k, x in enumerate(A[r])
                ]
    out = np.empty((n, b.shape[1]), dtype=object)
    for i in range(n):
        for j in range(b.shape[1]):
            out[i, j] = A[i][n + j]
    return out


def la_solve(a, b):
    a = _lifted(a)
    b = _lifted(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if b.ndim == 1:
        return _gauss(a, b.reshape(-1, 1))[:, 0]
    return _gauss(a, b)


def la_inv(a):
    a = _lifted(a)
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = la_inv(a[i])
        return out
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.shape[0] == 0:
        return a.copy()
    return _gauss(a, _lifted(np.eye(a.shape[0])))


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = np.asarray(x)
    if x.dtype != OBJ:
        x = x.astype(object)
    if ord in (1, np.inf, -np.inf) and (axis is not None or x.ndim == 1):
        y = np.abs(x)
        r = y.sum(axis=axis, keepdims=keepdims) if ord == 1 else (
            y.max(axis=axis, keepdims=keepdims) if ord > 0 else y.min(axis=axis, keepdims=keepdims))
        return r if isinstance(r, np.ndarray) else lift(r)
    if ord in (1, np.inf) and x.ndim == 2:
        return lift(np.abs(x).sum(axis=0 if ord == 1 else 1).max())
    if ord not in (None, 2, "fro"):
        raise Unsupported(f"norm ord={ord}")
    if ord == 2 and (isinstance(axis, tuple) or axis is None and x.ndim == 2):
        raise Unsupported("spectral norm")
    s = (x * x).sum(axis=axis, keepdims=keepdims)
    return np_sqrt(s) if isinstance(s, np.ndarray) else lift(s).sqrt()


def la_unsupported(name):
    real = getattr(np.linalg, name)

    def f(*a, **k):
        if has_obj(*a):
            raise Unsupported(f"np.linalg.{name}")
        return real(*a, **k)

    return f


class ModProxy(types.ModuleType):
    def __init__(self, real, overrides):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(overrides)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.__dict__["_real"], name)


LINALG = ModProxy(
    np.linalg,
    {
        "det": la_det,
        "solve": la_solve,
        "inv": la_inv,
        "norm": la_norm,
        **{
            n: la_unsupported(n)
            for n in ("eig", "eigh", "eigvals", "svd", "lstsq", "pinv", "cholesky", "qr",
                      "matrix_rank", "cond")
        },
    },
)

OVERRIDES = {
    "zeros": zeros, "ones": ones, "full": full, "empty": empty,
    "zeros_like": zeros_like, "ones_like": ones_like, "empty_like": empty_like,
    "full_like": full_like, "eye": eye, "identity": identity,
    "array": array, "asarray": asarray, "asanyarray": asarray,
    "ascontiguousarray": ascontiguousarray, "asfortranarray": asarray, "copy": copy_,
    "sqrt": np_sqrt, "abs": np_abs, "absolute": np_abs, "fabs": np_abs, "sign": np_sign,
    "square": np_square, "ceil": np_ceil, "floor": np_floor, "hypot": np_hypot,
    "where": np_where, "isclose": np_isclose, "allclose": np_allclose,
    "array_equal": np_array_equal, "isfinite": np_isfinite, "isnan": np_isnan,
    "isinf": np_isinf, "nan_to_num": np_nan_to_num, "linspace": np_linspace,
    "arange": np_arange, "cross": np_cross, "einsum": np_einsum, "clip": np_clip,
    "average": np_average, "unique": np_unique, "argsort": np_argsort, "mean": np_mean,
    "interp": np_interp, "bincount": np_bincount, "copysign": np_copysign, "finfo": np_finfo,
    "gradient": np_gradient, "heaviside": np_heaviside,
    "exp": _unary("exp", "exp", np.exp), "log": _unary("log", "log", np.log),
    "sin": _unary("sin", "sin", np.sin), "cos": _unary("cos", "cos", np.cos),
    "float64": sym_float64, "double": sym_float64,
    "linalg": LINALG,
}
NPX = ModProxy(np, OVERRIDES)


def m_sqrt(x):
    return lift(x).sqrt()


def m_fn(method, real):
    def f(x, *a):
        if is_sym(x):
            return getattr(x, method)()
        return real(x, *a)

    return f


MATH = ModProxy(
    math,
    {
        "sqrt": m_sqrt,
        "fabs": abs,
        "hypot": lambda *xs: sum((lift(x) ** 2 for x in xs), lift(0)).sqrt(),
        "ceil": lambda x: x.__ceil__() if is_sym(x) else math.ceil(x),
        "floor": lambda x: x.__floor__() if is_sym(x) else math.floor(x),
        "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
            abs(lift(a) - b) <= E.snap(abs_tol)
        ) or bool(abs(lift(a) - b) <= E.snap(rel_tol) * abs(lift(a)))
        or bool(abs(lift(a) - b) <= E.snap(rel_tol) * abs(lift(b))),
        "isnan": lambda x: False if is_sym(x) else math.isnan(x),
        "isfinite": lambda x: True if is_sym(x) else math.isfinite(x),
        "isinf": lambda x: False if is_sym(x) else math.isinf(x),
        "copysign": lambda a, b: np_copysign(a, b) if is_sym(a) or is_sym(b) else math.copysign(a, b),
        "exp": m_fn("exp", math.exp), "log": m_fn("log", math.log),
        "sin": m_fn("sin", math.sin), "cos": m_fn("cos", math.cos),
        "pow": lambda a, b: lift(a) ** b if is_sym(a) else math.pow(a, b),
        "fsum": lambda xs: sum(xs),
        "prod": lambda xs, start=1: __import__("functools").reduce(lambda a, b: a * b, xs, start),
        "dist": lambda p, q: sum(((lift(a) - b) ** 2 for a, b in zip(p, q)), lift(0)).sqrt(),
    },
)

BY_ID = {id(np): NPX, id(np.linalg): LINALG, id(math): MATH}
for _n, _f in OVERRIDES.items():
    if _n not in ("float64", "double", "linalg") and hasattr(np, _n):
        BY_ID[id(getattr(np, _n))] = _f
for _n in ("det", "solve", "inv", "norm"):
    BY_ID[id(getattr(np.linalg, _n))] = getattr(LINALG, _n)
for _n in ("sqrt", "ceil", "floor", "hypot", "isclose"):
    BY_ID[id(getattr(math, _n))] = getattr(MATH, _n)


def patch_module(mod, extra=None):
    """Route a module's numpy/math/float globals to the stand-ins."""
    table = dict(BY_ID)
    if extra:
        table.update(extra)
    d = mod.__dict__
    for k in list(d):
        v = d[k]
        if k.startswith("__"):
            continue
        r = table.get(id(v))
        if r is not None:
            d[k] = r
    d.setdefault("float", sym_float)
    d["__vsym_astype__"] = astype


def patch_package(prefix, extra=None):
    n = 0
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == prefix or name.startswith(prefix + ".")):
            patch_module(mod, extra)
            n += 1
    return n
