"""Harness worlds.

A harness is one function over a world `w`.  `SymWorld` runs it on symbolic terms through the real
(interpreted) conmech code; `ConcreteWorld` runs the *same* harness with the solver's numbers on
the real, JIT-compiled, unpatched conmech code (replay).
"""

import contextlib
import io
import itertools
import os
import sys
import types
from fractions import Fraction

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


TABLE = {}


class HarnessFailure(Exception):
    pass


class ReproStop(BaseException):
    pass


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class World:
    symbolic = False

    # -- input helpers shared by both worlds
    def reals(self, name, shape, hints=None):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            h = None if hints is None else np.asarray(hints, dtype=object)[idx]
            out[idx] = self.real(name + "_" + "_".join(map(str, idx)), h)
        return self.arr(out)

    def nonzero(self, name, hint=None):
        x = self.real(name, hint)
        self.assume(self.ne(x, 0))
        return x

    def pos(self, name, hint=1):
        x = self.real(name, hint)
        self.assume(self.gt(x, 0))
        return x

    def nonneg(self, name, hint=1):
        x = self.real(name, hint)
        self.assume(self.ge(x, 0))
        return x

    def prove_eq(self, a, b, label):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.prove(False, f"{label}: shape {a.shape} != {b.shape}")
            return
        self.prove(self.eq(a, b), label)

    def prove_int(self, a, b, label):
        """Equality of plain (path-concrete) python/integer data."""
        a, b = np.asarray(a), np.asarray(b)
        self.prove(a.shape == b.shape and bool(np.all(a == b)), label)

    def load(self, name):
        """a module outside of the default imports (plotting, mesh zoo)"""
        import importlib

        m = importlib.import_module(name)
        if self.symbolic:
            from . import npshim

            npshim.patch_module(m, TABLE)
        return m

    def expect_raises(self, fn, exc):
        try:
            fn()
        except exc:
            return True
        return False


# ============================================================================ symbolic


class SymWorld(World):
    symbolic = True

    def __init__(self, engine):
        from . import engine as E
        from . import npshim

        self.E = E
        self.e = engine
        self.np = npshim.NPX
        self.shim = npshim
        self.handler = None

    def start_path(self):
        self.handler = None
        self.root_finder = None
        self.cleanup = []
        self.vars = {}

    def arr(self, x):
        return np.asarray(x, dtype=object)

    def const(self, x):
        """Exact rational constant."""
        return self.E.lift(Fraction(x) if not isinstance(x, float) else x)

    def consts(self, xs):
        a = np.asarray(xs, dtype=object)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = self.E.lift(a[i])
        return out

    def real(self, name, hint=None):
        if name not in self.vars:
            v = self.e.new_var(name, hint)
            self.vars[name] = self.E.SReal({((v, 1),): 1}, ())
        return self.vars[name]

    def flag(self, name, hint=0):
        v = self.e.new_var(name, hint, kind="flag", sampler=lambda r: r.randint(0, 1))
        x = self.E.SReal({((v, 1),): 1}, ())
        self.assume((x == 0) | (x == 1))
        return x == 1

    def choice(self, name, n, hint=0):
        """Symbolic integer in range(n); the path fixes its value (solver-checked forks)."""
        v = self.e.new_var(name, hint, kind="int", sampler=lambda r: r.randrange(n))
        x = self.E.SReal({((v, 1),): 1}, ())
        f = self.E.SBool(self.E.f_or([(x == k).f for k in range(n)]))
        self.assume(f)
        for k in range(n - 1):
            if bool(x == k):
                return k
        return n - 1

    def assume(self, b):
        self.e.assume(self.E.as_formula(b))

    # formulas
    def eq(self, a, b):
        return self._rel(a, b, self.E.S_EQ)

    def ne(self, a, b):
        return ~self.eq(a, b) if np.ndim(a) or np.ndim(b) else self._rel(a, b, self.E.S_NE)

    def lt(self, a, b):
        return self._rel(a, b, self.E.S_LT)

    def le(self, a, b):
        return self._rel(a, b, self.E.S_LE)

    def gt(self, a, b):
        return self._rel(a, b, self.E.S_GT)

    def ge(self, a, b):
        return self._rel(a, b, self.E.S_GE)

    def _rel(self, a, b, signs):
        E = self.E
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        fs = []
        for x, y in zip(A.reshape(-1), B.reshape(-1)):
            x = E.lift(x)
            if x is None:
                return E.SBool(E.FALSE)
            r = x.rel(y, signs)
            if r is None:
                return E.SBool(E.FALSE)
            fs.append(r.f)
        return E.SBool(E.f_and(fs))

    def both(self, *fs):
        return self.E.SBool(self.E.f_and([self.E.as_formula(f) for f in fs]))

    def either(self, *fs):
        return self.E.SBool(self.E.f_or([self.E.as_formula(f) for f in fs]))

    def negate(self, f):
        return self.E.SBool(self.E.f_not(self.E.as_formula(f)))

    def implies(self, a, b):
        return self.either(self.negate(a), b)

    def sqrt(self, x):
        return self.E.lift(x).sqrt()

    def prove(self, b, label):
        f = self.E.as_formula(b)
        n = len(self.e.candidates)
        if f[0] == "f":
            # definite failure on this path: needs a model of the path condition
            self.e.obligations += 1
            self.e.queries += 1
            s = self.e.path_model()
            if s is None:
                self.e.unknown.append(label)
                return
            self.e.candidate(label, s)
        elif f[0] == "and" and len(f[1]) > 40:
            for k in range(0, len(f[1]), 40):
                self.e.prove(self.E.f_and(f[1][k:k + 40]), label)
                if len(self.e.candidates) > n:
                    break
        else:
            self.e.prove(f, label)
        if len(self.e.candidates) > n:
            raise self.E.Stop()

    def prove_eq(self, a, b, label):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.prove(False, f"{label}: shape {a.shape} != {b.shape}")
            return
        pairs, fs = [], []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            x, y = self.E.lift(x), self.E.lift(y)
            if x is None or y is None:
                self.prove(False, label)
                return
            df = x - y
            if not df.n:
                if (x.n != y.n or x.d != y.d) and len(x.n) * max(1, len(x.d)) < 400:
                    pairs.append((x, y))
            else:
                fs.append(self.E.atom(df.n, self.E.S_EQ))
        for k in range(0, len(pairs), 24):
            self.e.confirm_identity(pairs[k:k + 24])
        self.prove(self.E.SBool(self.E.f_and(fs)), label)

    def prove_ordered(self, a, b, variables, label):
        """a >= b for quadratic forms (a - b homogeneous of degree 2 in `variables`)

        a - b is split exactly into d_1 l_1^2 + ... + d_k l_k^2; that sum equals a - b (an identity)
        and the solver decides d_i y^2 >= 0 for an arbitrary y. A form that takes negative values is
        refuted on a line through such a value, again by the solver."""
        from . import poly as P

        q = self.E.lift(a) - self.E.lift(b)
        ids = {}
        for x in variables:
            for v in P.variables(self.E.lift(x).n):
                ids[v] = x
        if q.d or any(sum(e for _, e in m) != 2 or any(v not in ids for v, _ in m) for m in q.n):
            self.prove(self.ge(a, b), label)
            return
        parts, direction = P.squares(q.n)
        if parts is None:
            for v, x in ids.items():
                self.assume(self.eq(x, direction.get(v, 0)))
            self.prove(self.ge(a, b), label)
            return
        total = self.E.lift(0)
        y = self.E.lift(self.real("square_of"))
        for d, form in parts:
            one = self.E.lift(0)
            for v, c in form.items():
                one = one + self.E.SReal({((v, 1),): c}, ())
            total = total + one * one * d
        self.prove_eq([q], [total], label)
        for d in sorted({d for d, _ in parts}):
            self.prove(self.ge(y * y * d, 0), label)

    def note(self, name, value):
        self.e.notes.append((name, value))

    # -- environment
    def locate(self, named_points):
        """point -> name for a list of (name, point); exact term identity."""
        from . import poly as P

        def sig(p):
            return tuple((P.key(self.E.lift(x).n), self.E.lift(x).d) for x in np.asarray(p))

        table = {}
        for name, pt in named_points:
            table[sig(pt)] = name
        fallback = []

        def find(p):
            s = sig(p)
            if s in table:
                return table[s]
            for name, pt in named_points:
                if bool(self.eq(np.asarray(p), np.asarray(pt))):
                    return name
            return None

        _ = fallback
        return find

    def stub_optimizer(self, handler):
        """handler(kind, fun, x0, args, kwargs) -> solution vector."""
        self.handler = handler

    def stub_root_finder(self, handler):
        """handler(f, a, b) -> root; stands for bracketing root finders"""
        self.root_finder = handler

    def int_array(self, x):
        return np.array(x, dtype=np.int64)


def rewrite_methods():
    """numpy's `x.astype(float)` is compiled code that cannot hold exact terms: that method call in
    /repo's modules is routed to a stand-in when the module's source is compiled."""
    import ast
    import importlib.machinery as M

    top = os.path.realpath(os.path.join(REPO, "conmech")) + os.sep
    real = M.SourceFileLoader.get_code

    class Calls(ast.NodeTransformer):
        def visit_Call(self, node):
            self.generic_visit(node)
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr == "astype":
                return ast.copy_location(
                    ast.Call(func=ast.copy_location(ast.Name("__vsym_astype__", ast.Load()), f),
                             args=[f.value] + node.args, keywords=node.keywords), node)
            return node

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if not os.path.realpath(path).startswith(top):
            return real(self, fullname)
        tree = ast.parse(self.get_data(path), path)
        return compile(ast.fix_missing_locations(Calls().visit(tree)), path, "exec",
                       dont_inherit=True)

    M.SourceFileLoader.get_code = get_code
    from . import npshim

    import builtins

    builtins.__vsym_astype__ = npshim.astype


def install_symbolic():
    """Import all of conmech (interpreted) and route numpy to exact-term stand-ins."""
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import numba  # noqa
    import scipy.optimize  # noqa
    import matplotlib  # noqa

    from . import npshim

    rewrite_methods()
    import_all()
    table = {}
    holder = {}

    def minimize(fun, x0, args=(), **kw):
        h = holder["world"].handler
        if h is None:
            raise npshim.Unsupported("optimiser called without a stub")
        x = h("minimize", fun, x0, args, kw)
        return types.SimpleNamespace(x=x, success=True, fun=None, nit=1, nfev=1, status=0,
                                     message="")

    def fsolve(func, x0, args=(), **kw):
        h = holder["world"].handler
        if h is None:
            raise npshim.Unsupported("fsolve called without a stub")
        x = h("fsolve", func, x0, args, kw)
        if kw.get("full_output"):
            return x, {}, 1, ""
        return x

    def root(fun, x0, args=(), **kw):
        h = holder["world"].handler
        x = h("fsolve", fun, x0, args, kw)
        return types.SimpleNamespace(x=x, success=True)

    for name, f in (("minimize", minimize), ("fsolve", fsolve), ("root", root)):
        table[id(getattr(scipy.optimize, name))] = f
        setattr(scipy.optimize, name, f)
    from . import libmodels

    table.update(libmodels.table(holder))
    npshim.patch_package("conmech", table)
    TABLE.update(table)
    return holder


def install_concrete():
    import scipy.optimize

    holder = {}
    real = {n: getattr(scipy.optimize, n) for n in ("minimize", "fsolve", "root")}

    def minimize(fun, x0, args=(), **kw):
        h = holder["world"].handler
        if h is None:
            return real["minimize"](fun, x0, args=args, **kw)
        x = np.asarray(h("minimize", fun, x0, args, kw), dtype=float)
        return types.SimpleNamespace(x=x, success=True, fun=None, nit=1, nfev=1, status=0,
                                     message="")

    def fsolve(func, x0, args=(), **kw):
        h = holder["world"].handler
        if h is None:
            return real["fsolve"](func, x0, args=args, **kw)
        x = np.asarray(h("fsolve", func, x0, args, kw), dtype=float)
        return (x, {}, 1, "") if kw.get("full_output") else x

    def root(fun, x0, args=(), **kw):
        h = holder["world"].handler
        if h is None:
            return real["root"](fun, x0, args=args, **kw)
        x = np.asarray(h("fsolve", fun, x0, args, kw), dtype=float)
        return types.SimpleNamespace(x=x, success=True)

    for n, f in (("minimize", minimize), ("fsolve", fsolve), ("root", root)):
        setattr(scipy.optimize, n, f)
    import_all()
    table = {id(real["minimize"]): minimize, id(real["fsolve"]): fsolve, id(real["root"]): root}
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "conmech" or name.startswith("conmech.")):
            for k, v in list(mod.__dict__.items()):
                if id(v) in table:
                    mod.__dict__[k] = table[id(v)]
    return holder


def import_all():
    import importlib

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import conmech

    assert os.path.realpath(list(conmech.__path__)[0]).startswith(os.path.realpath(REPO)), conmech
    top = os.path.realpath(list(conmech.__path__)[0])
    for folder, dirs, files in sorted(os.walk(top)):
        dirs.sort()
        rel = os.path.relpath(folder, os.path.dirname(top)).replace(os.sep, ".")
        if ".plotting" in rel or "__pycache__" in rel:
            continue
        for f in sorted(files):
            if f.endswith(".py"):
                name = rel if f == "__init__.py" else f"{rel}.{f[:-3]}"
                try:
                    importlib.import_module(name)
                except ImportError:
                    pass


# ============================================================================ concrete


class ConcreteWorld(World):
    def __init__(self, model, rtol=1e-6):
        self.model = model
        self.np = np
        self.handler = None
        self.failures = []
        self.rtol = rtol
        self.notes = []
        self.defaulted = []
        self.proved = 0

    def start_path(self):
        self.handler = None

    def arr(self, x):
        return np.ascontiguousarray(np.asarray(x, dtype=float))

    def const(self, x):
        return float(Fraction(x)) if not isinstance(x, float) else x

    def consts(self, xs):
        return np.asarray(np.asarray(xs, dtype=object), dtype=float)

    def real(self, name, hint=None):
        if name in self.model:
            return float(Fraction(self.model[name]))
        self.defaulted.append(name)
        return float(hint) if hint is not None else 0.625

    def flag(self, name, hint=0):
        return bool(round(self.real(name, hint)))

    def choice(self, name, n, hint=0):
        return int(round(self.real(name, hint)))

    def assume(self, b):
        return None

    def _arr(self, x):
        a = np.asarray(x)
        if a.dtype == object:
            a = np.array([float(v) for v in a.reshape(-1)]).reshape(a.shape)
        return a.astype(float)

    def eq(self, a, b):
        try:
            A, B = self._arr(a), self._arr(b)
        except TypeError:
            return False
        scale = max([1.0] + [float(np.max(np.abs(z))) for z in (A, B) if z.size])
        if not np.isfinite(scale):
            return False
        return bool(np.all(np.abs(A - B) <= self.rtol * scale))

    def ne(self, a, b):
        return not self.eq(a, b)

    def _tol(self, a, b):
        A, B = self._arr(a), self._arr(b)
        scale = max([1.0] + [float(np.max(np.abs(z))) for z in (A, B) if z.size])
        return A, B, self.rtol * scale

    def lt(self, a, b):
        A, B, t = self._tol(a, b)
        return bool(np.all(A < B + t))

    le = lt

    def gt(self, a, b):
        return self.lt(b, a)

    ge = gt

    def both(self, *fs):
        return all(bool(f) for f in fs)

    def either(self, *fs):
        return any(bool(f) for f in fs)

    def negate(self, f):
        return not f

    def implies(self, a, b):
        return (not a) or b

    def sqrt(self, x):
        return float(np.sqrt(x))

    def prove_ordered(self, a, b, variables, label):
        self.prove(self.ge(a, b), label)

    def prove(self, b, label):
        self.proved += 1
        if not bool(b):
            self.failures.append(label)
            raise ReproStop()

    def note(self, name, value):
        self.notes.append((name, value))

    def locate(self, named_points):
        pts = [(n, np.asarray(p, dtype=float)) for n, p in named_points]

        def find(p):
            p = np.asarray(p, dtype=float)
            best, bd = None, 1e-7
            for n, q in pts:
                d = float(np.max(np.abs(p - q)))
                if d < bd:
                    best, bd = n, d
            return best

        return find

    def stub_optimizer(self, handler):
        self.handler = handler

    def stub_root_finder(self, handler):
        """the real root finder is used"""

    def int_array(self, x):
        return np.array(x, dtype=np.int64)


# ============================================================================ registry

HARNESSES = {}


def harness(prop, tier="quick", bounds="", timeout=None, known=None, max_paths=4000,
            witness=True, doc=None, stubs=""):
    def deco(fn):
        HARNESSES.setdefault(prop, []).append(
            {
                "fn": fn,
                "name": fn.__name__,
                "tier": tier,
                "bounds": bounds,
                "timeout": timeout,
                "known": known,
                "max_paths": max_paths,
                "witness": witness,
                "stubs": stubs,
                "doc": (doc or fn.__doc__ or "").strip(),
            }
        )
        return fn

    return deco


_ = itertools
