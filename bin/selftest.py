"""Self-test of the numpy stand-ins: every expression is evaluated on symbolic arrays (through the
stand-ins) and on floats (through numpy) at the same point; the results have to agree."""

import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import math  # noqa

import numpy as np  # noqa

from vsym import engine as E, npshim, poly as P  # noqa

EXPRS = """
np.einsum('ij,j->i', A, v)
np.einsum('ij,ij->', A, B)
np.dot(A, v)
np.dot(v, v)
np.vdot(v, u)
np.inner(u, v)
np.outer(u, v)
np.tensordot(A, B, axes=1)
np.tensordot(A, B, axes=([0], [1]))
np.kron(A, B)
np.trace(A)
np.diag(v)
np.diag(A)
np.diagonal(A)
A.diagonal()
np.tril(A)
np.triu(A, 1)
np.matmul(A, B)
np.cross(v3, u3)
np.linalg.inv(A)
np.linalg.solve(A, v)
np.linalg.solve(A, B)
np.linalg.norm(v)
np.linalg.norm(A, axis=1)
np.linalg.norm(A, axis=-1, keepdims=True)
np.linalg.norm(v, 1)
np.linalg.norm(v, np.inf)
np.linalg.norm(v, ord=2)
np.linalg.det(A)
np.linalg.multi_dot([A, B, A])
np.linalg.matrix_power(A, 2)
np.hstack((A, B))
np.vstack((u, v))
np.concatenate((u, v))
np.stack((u, v), axis=1)
np.column_stack((u, v))
np.row_stack((u, v))
np.dstack((A, B))
np.append(u, v)
np.insert(u, 1, v[0])
np.delete(u, 1)
np.block([[A, B], [B, A]])
np.where(A > 0, A, B)
np.where(A > 0, 1.0, 0.0)
np.maximum(u, v)
np.minimum(u, 0.0)
np.maximum(u[0], 0)
np.fmax(u, v)
np.clip(u, 0, 1)
u.clip(0, 1)
np.abs(u)
abs(u)
np.sign(u)
np.sqrt(u * u)
np.square(u)
np.power(u, 2)
u ** 2
np.hypot(u, v)
np.reciprocal(u)
np.sum(A, axis=0)
np.sum(A)
A.sum(axis=1, keepdims=True)
np.mean(A, axis=0)
A.mean(axis=0)
A.mean()
np.average(A, axis=0)
np.average(u, weights=v*v)
np.min(A, axis=0)
np.max(u)
np.amin(u)
np.amax(A, axis=1)
A.min(axis=0)
u.max()
np.ptp(u)
np.ptp(A, axis=0)
np.argmin(u)
np.argmax(u)
u.argmin()
np.argsort(u)
u.argsort()
np.sort(u)
sorted(u)
np.cumsum(u)
u.cumsum()
np.diff(u)
np.prod(u)
u.prod()
np.cumprod(u)
np.any(u > 5)
np.all(u < 5)
(u > 0).any()
(u < 5).all()
u.any()
np.any(u)
np.all(u)
np.count_nonzero(u)
np.count_nonzero(u > 0)
np.flatnonzero(u > 0)
np.nonzero(u > 0)[0]
np.argwhere(u > 0)
u[u > 0]
u[np.logical_and(u > 0, v > 0)]
u[np.logical_or(u > 0, v > 0)]
u[np.logical_not(u > 0)]
u[(u > 0) & (v > -5)]
u[~(u > 0)]
np.sum(u > 0)
np.isclose(u, v)
np.allclose(u, u)
np.array_equal(u, v)
np.array_equal(u, u)
np.isfinite(u)
np.isnan(u).any()
np.zeros_like(A) + 1
np.ones_like(v)
np.full_like(v, 2.0)
np.full(3, 2.5)
np.full((2, 2), u[0])
np.eye(3)[1] * u[0]
np.identity(2) @ A
np.arange(3) * u[0]
np.linspace(0, 1, 5)
np.linspace(0.0, 1.0, num=4)
np.ix_([0, 1], [1])[0]
A[np.ix_([0, 1], [1, 0])]
np.take(u, [0, 1])
u.take([1])
np.repeat(u, 2)
np.tile(u, 2)
np.tile(A, (2, 1))
np.ravel(A)
A.ravel(order='F')
A.flatten()
np.reshape(A, -1)
A.reshape(-1, order='F')
np.moveaxis(A, 0, 1)
np.swapaxes(A, 0, 1)
np.transpose(A)
np.expand_dims(u, 0)
u[:, None] * v[None, :]
u[:, np.newaxis]
np.squeeze(A[None])
np.atleast_1d(u)
np.atleast_2d(u)
np.broadcast_to(u, (2, 2))
np.broadcast_arrays(u, A)[0]
np.split(u, 2)[0]
np.array_split(u, 2)[1]
np.hsplit(A, 2)[0]
np.vsplit(A, 2)[1]
np.roll(u, 1)
np.flip(u)
u[::-1]
np.rot90(A)
np.asarray(u, dtype=float)
np.asarray(u, dtype=np.float64)
np.array(u, dtype=float)
np.array([u[0], 1.0])
np.array([[u[0], 1], [v[0], 2]])
np.asarray([u, v])
__vsym_astype__(u, np.float64)
__vsym_astype__(u, float, copy=False)
__vsym_astype__(A, 'float64') @ v
scipy.sparse.csr_matrix(A) @ v
scipy.sparse.csr_matrix(A).toarray()
scipy.sparse.linalg.spsolve(scipy.sparse.csr_matrix(A), v)
np.float64(u[0])
float(u[0])
np.ascontiguousarray(A.T)
np.asfortranarray(A)
np.require(A, dtype=float)
np.multiply(u, v)
np.multiply.outer(u, v)
np.add(u, v)
np.subtract(u, v)
np.divide(u, v)
np.true_divide(u, v)
np.negative(u)
np.add.reduce(A, axis=0)
np.multiply.reduce(u)
np.add.reduceat(np.concatenate((u, v)), [0, 2])
np.add.accumulate(u)
np.nan_to_num(u)
np.isin(idx, [0])
np.in1d(idx, [0])
np.setdiff1d(np.arange(3), idx)
np.union1d(idx, [5])
np.intersect1d(idx, [1])
np.unique(idx)
np.bincount(idx, weights=u, minlength=3)
np.lexsort((v, u))
np.searchsorted(np.sort(u), 0.0)
np.interp(0.5, [0.0, 1.0], u)
np.polyval(u, 2.0)
np.trapezoid(u)
np.gradient(u)
np.apply_along_axis(np.sum, 0, A)
np.vectorize(lambda x: x * 2)(u)
np.fromiter((x * 2 for x in u), dtype=float)
np.fromiter((x * 2 for x in u), dtype=float, count=2)
np.fromfunction(lambda i, j: i + j, (2, 2))
np.ndarray.sum(A)
sum(u)
max(u)
min(u)
sum(x * y for x, y in zip(u, v))
math.sqrt(u[0] * u[0])
math.hypot(u[0], u[1])
math.fsum(u)
math.copysign(1.0, u[0])
np.copysign(1.0, u)
pow(u[0], 2)
u[0] ** 2
u[0] ** -1
round(2.5)
bool(u[0] > 0)
int(u[0] > 0)
(u[0] > 0) * u[1]
np.sum((u > 0) * v)
np.heaviside(u, 0.5)
np.select([u > 0, u <= 0], [u, v])
np.choose([0, 1], [u, v])
np.piecewise(u, [u < 0, u >= 0], [0.0, 1.0])
np.r_[u, v]
np.c_[u, v]
np.s_[0:2]
u @ A
A @ A.T
A.T @ v
u.dot(v)
A.dot(v)
u.tolist()
u.item(0)
u.copy()
np.copy(u)
u.squeeze()
u.size
u.round(3).shape
np.shape(u)
np.size(A)
np.ndim(A)
np.mean([u, v], axis=0)
np.median(u3)
np.std(u)
np.var(u)
np.triu_indices(2)[0]
np.unravel_index(1, (2, 2))[0]
np.meshgrid(u, v)[0]
np.indices((2, 2))[0]
np.divmod(5, 2)[0]
np.mod(idx, 2)
np.linalg.lstsq(A, v, rcond=None)[0]
np.linalg.pinv(A)
np.nansum(u)
np.nanmin(u)
np.lib.stride_tricks.sliding_window_view(u, 1)
np.emath.sqrt(u * u)
scipy.linalg.solve(A, v)
scipy.linalg.inv(A)
scipy.linalg.block_diag(A, B)
scipy.linalg.norm(v)
scipy.linalg.lu_solve(scipy.linalg.lu_factor(A), v)
scipy.sparse.linalg.spsolve(scipy.sparse.csc_matrix(A), v)
scipy.linalg.cho_solve(scipy.linalg.cho_factor(A @ A.T), v)
Z(lambda r: np.add.at(r, idx, u))
Z(lambda r: np.fill_diagonal(A, 0.0))
Z(lambda r: np.copyto(r[:2], u))
Z(lambda r: np.put(r, [0], u[0]))
Z(lambda r: r.__setitem__(slice(0, 2), u))
Z(lambda r: np.subtract.at(r, idx, u))
Z(lambda r: np.multiply(u, v, out=r[:2]))
Z(lambda r: np.dot(A, v, out=r[:2]))
Z(lambda r: np.matmul(A, v, out=r[:2]))
Z(lambda r: r.fill(2.0))
np.arctan2(0.0, 1.0)
np.trunc(2.5)
np.rint(2.5)
np.cbrt(8.0)
np.pi
np.finfo(float).eps > 0
np.errstate(all='ignore').__class__.__name__
"""


def values(r):
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in values(x)]
    if isinstance(r, np.ndarray):
        return [y for x in r.reshape(-1) for y in values(x)]
    return [r]


def main():
    import scipy.linalg
    import scipy.sparse
    import scipy.sparse.linalg

    bad = []
    data = {"u": [0.75, -0.5], "v": [1.25, 0.25], "A": [[2.0, 0.5], [-0.25, 1.5]],
            "B": [[1.0, -0.5], [0.125, 3.0]], "u3": [0.5, -1.0, 0.25], "v3": [1.0, 2.0, -0.75]}
    mod = type(sys)("selfmod")
    mod.__dict__.update(np=np, math=math, scipy=scipy)
    exec("def Z(f):\n    r = np.zeros(3)\n    f(r)\n    return r\n", mod.__dict__)
    import builtins

    builtins.__vsym_astype__ = npshim.astype
    ref_mod = type(sys)("refmod")
    ref_mod.__dict__.update(np=np, math=math, scipy=scipy)
    exec("def Z(f):\n    r = np.zeros(3)\n    f(r)\n    return r\n", ref_mod.__dict__)
    from vsym import world

    from vsym import libmodels

    table = {}
    libmodels.scipy_linear(table)
    npshim.patch_module(mod, table)
    for ex in [x for x in EXPRS.strip().splitlines() if x]:
        ref_mod.__dict__.update({k: np.array(x) for k, x in data.items()}, idx=np.array([0, 1]))
        try:
            ref = values(eval(ex, ref_mod.__dict__))
        except Exception as e:  # noqa
            bad.append((ex, f"reference fails: {e!r}"))
            continue
        eng = E.Engine()
        out = {}

        def run():
            w = world.SymWorld(eng)
            w.start_path()
            for k, x in data.items():
                x = np.array(x)
                mod.__dict__[k] = r = w.reals(k, x.shape, x.tolist())
                for a, b in zip(r.reshape(-1), x.reshape(-1)):
                    w.assume(w.both(w.le(a, b + 0.0625), w.ge(a, b - 0.0625)))
            mod.__dict__["idx"] = np.array([0, 1])
            r = values(eval(ex, mod.__dict__))
            out["r"] = r
            out["s"] = eng.path_model()
            out["v"] = [(n, next(iter(t.n))[0][0]) for n, t in w.vars.items()]
            raise E.Stop()

        try:
            eng.explore(run, None, None)
        except E.Stop:
            pass
        except BaseException as e:  # noqa
            bad.append((ex, f"{type(e).__name__}: {str(e)[:150]}"))
            continue
        if "r" not in out:
            bad.append((ex, "no result " + str(eng.candidates)[:100]))
            continue
        s = out["s"]
        for k, x in data.items():
            x = np.array(x)
            y = np.array([float(s[v]) for n, v in out["v"] if n.rsplit("_", x.ndim)[0] == k])
            ref_mod.__dict__[k] = y.reshape(x.shape)
        ref = values(eval(ex, ref_mod.__dict__))

        def val(x):
            y = E.lift(x)
            if y is None:
                return x
            n = float(P.evaluate(y.n, lambda a: float(s[a])))
            for i, e in y.d:
                n /= float(P.evaluate(eng.factors[i], lambda a: float(s[a]))) ** e
            return n

        try:
            got = [bool(x) if isinstance(x, E.SBool) else val(x) for x in out["r"]]
            ok = len(got) == len(ref) and all(
                (isinstance(b, str) and a == b) or (not isinstance(b, (str, slice)) and abs(float(a) - float(b)) < 1e-9)
                or isinstance(b, slice) for a, b in zip(got, ref))
            if not ok:
                bad.append((ex, f"differs {got} {ref}"))
        except BaseException as e:  # noqa
            bad.append((ex, "evaluation " + repr(e)[:150]))
    for b in bad:
        print(*b, sep="   -> ")
    print(len(bad), "of", len(EXPRS.strip().splitlines()))


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
