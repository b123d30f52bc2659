"""Exact stand-ins of third-party routines that are compiled code (symbolic world only; replay uses
the real ones)."""

import types

import numpy as np


class Triangulation:
    def __init__(self, x, y, triangles=None, mask=None):
        self.x, self.y, self.triangles = np.asarray(x), np.asarray(y), np.asarray(triangles)


class LinearTriInterpolator:
    """piecewise linear interpolation over a triangulation"""

    def __init__(self, triangulation, z, trifinder=None):
        self.t, self.z = triangulation, np.asarray(z)

    def __call__(self, x, y):
        if np.ndim(x) or np.ndim(y):
            X, Y = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
            out = np.empty(X.shape, dtype=object)
            for i in np.ndindex(*X.shape):
                out[i] = self.at(X[i], Y[i])
            return out
        return self.at(x, y)

    def at(self, x, y):
        for tr in self.t.triangles:
            (ax, ay), (bx, by), (cx, cy) = [(self.t.x[i], self.t.y[i]) for i in tr]
            D = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
            b = [((bx - x) * (cy - y) - (by - y) * (cx - x)) / D,
                 ((cx - x) * (ay - y) - (cy - y) * (ax - x)) / D,
                 ((ax - x) * (by - y) - (ay - y) * (bx - x)) / D]
            if all(bool(v >= 0) for v in b):
                return sum(v * self.z[i] for v, i in zip(b, tr))
        raise AssertionError("point outside of the mesh")


tri = types.SimpleNamespace(Triangulation=Triangulation,
                            LinearTriInterpolator=LinearTriInterpolator)


class SparseModel(np.ndarray):
    """a sparse matrix of exact terms, kept dense"""

    def __new__(cls, a):
        return np.array(a, dtype=object, ndmin=2).view(cls)

    def toarray(self, *a, **k):
        return np.array(self, dtype=object)

    todense = toarray

    def tocsr(self, *a, **k):
        return self

    tocsc = tocoo = tolil = tocsr

    def __mul__(self, o):
        return np.asarray(self) @ np.asarray(o) if np.ndim(o) else np.asarray(self) * o

    def __matmul__(self, o):
        r = np.asarray(self) @ np.asarray(o)
        return SparseModel(r) if isinstance(o, SparseModel) else r


def scipy_linear(out):
    import scipy.linalg
    import scipy.sparse
    import scipy.sparse.linalg

    from . import npshim as S

    def plain(x):
        return np.asarray(x)

    def put(mod, name, model):
        real = getattr(mod, name)

        def f(*a, **k):
            if S.has_obj(*[x for x in a if isinstance(x, (np.ndarray, list, tuple))]):
                return model(*a, **k)
            return real(*a, **k)

        f.__name__ = name
        out[id(real)] = f
        setattr(mod, name, f)

    def solve(a, b, *args, transposed=False, **k):
        return S.la_solve(plain(a).T if transposed else plain(a), plain(b))

    put(scipy.linalg, "solve", solve)
    put(scipy.linalg, "inv", lambda a, *x, **k: S.la_inv(plain(a)))
    put(scipy.linalg, "det", lambda a, *x, **k: S.la_det(plain(a)))
    put(scipy.linalg, "norm", lambda a, ord=None, axis=None, keepdims=False, **k: S.la_norm(
        plain(a), ord, axis, keepdims))
    put(scipy.linalg, "lu_factor", lambda a, *x, **k: (plain(a), None))
    put(scipy.linalg, "lu_solve", lambda f, b, trans=0, **k: S.la_solve(
        plain(f[0]).T if trans else plain(f[0]), plain(b)))
    put(scipy.linalg, "cho_factor", lambda a, *x, **k: (plain(a), True))
    put(scipy.linalg, "cho_solve", lambda f, b, **k: S.la_solve(plain(f[0]), plain(b)))
    put(scipy.sparse.linalg, "spsolve", lambda a, b, *x, **k: S.la_solve(plain(a), plain(b)))
    put(scipy.sparse.linalg, "inv", lambda a, *x, **k: SparseModel(S.la_inv(plain(a))))
    put(scipy.sparse.linalg, "factorized", lambda a: lambda b: S.la_solve(plain(a), plain(b)))
    for name in ("csr_matrix", "csc_matrix", "coo_matrix", "csr_array", "csc_array"):
        put(scipy.sparse, name, lambda a, *x, **k: SparseModel(a))


def table(holder):
    """id of the real routine -> stand-in"""
    import matplotlib.tri
    import scipy.optimize

    out = {
        id(matplotlib.tri): tri,
        id(matplotlib.tri.Triangulation): Triangulation,
        id(matplotlib.tri.LinearTriInterpolator): LinearTriInterpolator,
    }

    scipy_linear(out)

    def finder(f, a, b, args=(), **kw):
        h = holder["world"].root_finder
        if h is None:
            raise NotImplementedError("root finder called without a stub")
        r = h(lambda x: f(x, *args), a, b)
        if kw.get("full_output"):
            return r, types.SimpleNamespace(root=r, converged=True)
        return r

    for name in ("brentq", "brenth", "bisect", "ridder"):
        out[id(getattr(scipy.optimize, name))] = finder
        setattr(scipy.optimize, name, finder)
    return out
