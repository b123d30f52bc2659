"""C32: results do not depend on the numbering of the mesh nor on the place of the body."""

from itertools import permutations

import numpy as np

from props.common import (Calls, F, Marker, SQUARE5, TWO_TET, flat, make_poisson, make_static,
                          make_timed, make_wave, node_perm, poly_field, strip)
from props.c16 import KITE
from vsym.world import harness

STUB = "optimiser replaced by arbitrary (symbolic) answers"
TURN2 = [[[F(3, 5), F(-4, 5)], [F(4, 5), F(3, 5)]], [[F(0), F(-1)], [F(1), F(0)]],
         [[F(5, 13), F(12, 13)], [F(12, 13), F(-5, 13)]]]  # turns and a mirror image
TURN3 = [[[F(2, 3), F(-1, 3), F(2, 3)], [F(2, 3), F(2, 3), F(-1, 3)], [F(-1, 3), F(2, 3), F(2, 3)]],
         [[F(0), F(1), F(0)], [F(1), F(0), F(0)], [F(0), F(0), F(1)]]]


class View:
    """the same body: other numbering (node j is node order[j] of the base), moved and turned"""

    def __init__(self, w, mesh, order=None, turn=None, shift=None, corners=0):
        self.w = w
        nodes, el = mesh
        self.n, self.d = len(nodes), len(nodes[0])
        self.order = list(order or range(self.n))
        self.turn = turn
        self.R = w.consts(turn) if turn else None
        self.shift = shift
        X = w.consts(nodes)
        self.X = w.arr([self.place(X[i]) for i in self.order])
        self.at = {k: j for j, k in enumerate(self.order)}
        el = [[self.at[i] for i in e] for e in el]
        el = [e[corners % len(e):] + e[:corners % len(e)] for e in el]
        self.el = el[::-1] if corners else el
        self.find = w.locate([(i, self.X[j]) for j, i in enumerate(self.order)])

    def vector(self, v):
        return v if self.R is None or len(v) != self.d else self.R @ np.asarray(v)

    def place(self, p):
        p = self.vector(p)
        return p if self.shift is None else p + self.shift

    def origin(self, p):
        """base place of a point"""
        p = np.asarray(p) if self.shift is None else np.asarray(p) - self.shift
        return p if self.R is None else self.R.T @ p

    def source(self, f):
        return lambda p, t=0: self.w.arr(self.vector(f(self.origin(p), t)))

    def field(self, a):
        """nodal values of the base (rows) as initial field"""
        def rows(p):
            out = [a[self.find(z)] for z in np.asarray(p)]
            return self.w.arr([self.vector(v) for v in out] if a.ndim == 2 else out)
        return rows

    def predicate(self, table):
        def key(k):
            return (k[0], self.at[k[1]] if k[0] == "n" else frozenset(self.at[i] for i in k[1]))
        mk = Marker(self.w, self.X, self.el)
        return mk.predicate({key(k): v for k, v in table.items()})

    def held(self, values):
        """fixed base nodes with prescribed values"""
        return (self.predicate({("n", i): True for i in values}),
                lambda p: self.w.arr([values[self.find(z)] for z in np.asarray(p)]))

    def contact(self, faces):
        faces = [frozenset(f) for f in faces]
        table = {("f", f): True for f in faces}
        table.update({("n", i): True for f in faces for i in f})
        return self.predicate(table)

    def tensor(self, t):
        t = np.asarray(self.w.consts(t))
        if self.R is None:
            return self.w.arr(t)
        for axis in range(t.ndim):
            t = np.moveaxis(np.tensordot(self.R, t, axes=(1, axis)), 0, axis)
        return self.w.arr(t)

    def numbers(self, s):
        return node_perm(self.w, s.body.mesh, self.X)

    def unknown(self, s, a, size):
        """nodal values of the base as vector of the solver (rest zero)"""
        a = np.asarray(a)
        rows = [a[self.order[j]] for j in self.numbers(s)]
        x = [self.vector(v) for v in rows] if a.ndim == 2 else rows
        x = flat(x) if a.ndim == 2 else w_arr(self.w, x)
        return self.w.arr(list(x) + [0] * (size - len(x)))

    def back(self, s, a):
        """field of the solver as nodal values of the base"""
        a = np.asarray(a)
        out = [None] * self.n
        for i, j in enumerate(self.numbers(s)):
            v = a[i]
            out[self.order[j]] = (v if a.ndim == 1 or self.R is None or len(v) != self.d
                                  else self.R.T @ v)
        return self.w.arr(out)


def w_arr(w, x):
    return w.arr(list(x))


def law_of(w, S=1, rate=1, L=1, T=1):
    """contact law with symbolic coefficients; S, rate, L, T: units of stress, of the first
    argument, of displacements and of time"""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    p, q, b = (w.reals(k, (m,)) for k, m in (("lp", 4), ("lq", 2), ("lb", 3)))

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            v, u = var_nu / rate, static_displacement_nu / L
            return S * rate * (p[0] * v + p[1] * v * v + p[2] * v * u + p[3] * v * dt / T)

        @staticmethod
        def potential_tangential_direction(var_tau, static_displacement_tau, dt):
            v, u = var_tau / rate, static_displacement_tau / L
            return S * rate * (q[0] * (v * v).sum() + q[1] * (v * u).sum())

        @staticmethod
        def tangential_bound(var_nu, static_displacement_nu, dt):
            return b[0] + b[1] * static_displacement_nu / L + b[2] * var_nu / rate

    return Law


def same(w, mesh, views, run, scalar=False):
    """run(view, answers) -> (solver, calls, fields); all views describe the same simulation"""
    base = None
    d = len(mesh[0][0])
    n = len(mesh[0])
    for view in views:
        s, calls, fields = run(view)
        out = []
        for k in range(len(calls.calls)):
            size = len(np.asarray(calls.calls[k][2]).reshape(-1))
            one = scalar or size == n
            a = w.reals("xs" if one else "x", (n,) if one else (n, d))
            x = view.unknown(s, a, size)
            out.append(calls.value(k, x)[0] - calls.value(k, 0 * x)[0])
        got = [view.back(s, f) for f in fields]
        if base is None:
            base = out, got
            continue
        w.prove_int(len(out), len(base[0]), "same number of minimisations")
        for k, (a, b) in enumerate(zip(base[0], out)):
            w.prove_eq(b, a, f"functional {k + 1}")
        for k, (a, b) in enumerate(zip(base[1], got)):
            w.prove_eq(b, a, f"field {k + 1}")


def views(w, mesh, kind, orders, turns):
    base = View(w, mesh)
    if kind == "numbering":
        k = w.choice("order", len(orders))
        return [base, View(w, mesh, order=orders[k], corners=k % 2)]
    if kind == "place":
        return [base, View(w, mesh, shift=w.reals("shift", (base.d,)))]
    return [base, View(w, mesh, turn=turns[w.choice("turn", len(turns))])]


def supply(w, view, holder, scalar=False):
    n, d = view.n, view.d

    def fn(k, x0):
        one = scalar or len(x0) == n
        a = w.reals(f"as{k}" if one else f"a{k}", (n,) if one else (n, d))
        return view.unknown(holder[0], a, len(x0))

    return fn


def static(w, mesh, kind, orders, turns, fixed, faces, law, value):
    d = len(mesh[0][0])
    n = len(mesh[0])
    f, q = poly_field(w, "f", d, d, time=False), poly_field(w, "q", d, d, time=False)
    vals = {i: (w.real(f"c{i}", i) if value else w.const(F(0))) for i in fixed}
    u0 = w.reals("u0", (n, d))
    Law = law_of(w) if law else "none"

    def run(view, method="global"):
        kw = dict(dirichlet=view.held(vals), inner=view.source(f), outer=view.source(q))
        if law and method == "global":
            kw.update(law=Law, contact=view.contact(faces))
        s = make_static(w, view.X, view.el, method, **kw)
        calls = Calls(w, supply(w, view, [s])) if method == "global" else None
        st = s.solve(initial_displacement=view.field(u0))
        return s, calls, [st.displacement]

    pair = views(w, mesh, kind, orders, turns)
    same(w, mesh, pair, run)
    got = []
    for view in pair:
        s, _, fields = run(view, "direct")
        got.append(view.back(s, fields[0]))
    w.prove_eq(got[1], got[0], "solution of the equations")


ORDERS4 = list(permutations(range(4)))
ORDERS5 = [(4, 3, 2, 1, 0), (2, 4, 0, 3, 1), (1, 2, 3, 4, 0), (0, 3, 1, 4, 2)]
FACES = [(0, 1), (1, 2)]  # lengths 5 and 13


@harness("C32", stubs=STUB, bounds="static, two triangles, all 24 numberings and two element orders; "
                                   "symbolic loads, law, prescribed values; functional and "
                                   "solution of the direct method")
def numbering(w):
    """numbering of nodes and elements, static"""
    static(w, KITE, "numbering", ORDERS4, None, [0, 3], FACES, True, True)


@harness("C32", stubs=STUB, bounds="static, 5 nodes with an interior one and 9 nodes of a strip, 4 "
                                   "numberings each; symbolic loads and prescribed values")
def numbering_more(w):
    """numbering, larger meshes"""
    if w.choice("mesh", 2):
        static(w, SQUARE5, "numbering", ORDERS5, None, [1, 2], None, False, True)
    else:
        orders = [tuple(range(8, -1, -1)), (4, 0, 8, 2, 6, 1, 7, 3, 5), (0, 3, 6, 1, 4, 7, 2, 5, 8),
                  (8, 0, 7, 1, 6, 2, 5, 3, 4)]
        static(w, strip(2, 2), "numbering", orders, None, [0, 3], None, False, True)


@harness("C32", stubs=STUB, bounds="static in space, two tetrahedra, 4 numberings; symbolic loads and "
                                   "prescribed values")
def numbering_solid(w):
    """numbering in space"""
    static(w, TWO_TET, "numbering", ORDERS5, None, [0, 3, 4], None, False, True)


@harness("C32", stubs=STUB, bounds="static, two triangles or two tetrahedra, moved by an arbitrary "
                                   "vector; symbolic loads, law (plane), prescribed values")
def place(w):
    """place of the body, static"""
    if w.choice("dimension", 2):
        static(w, TWO_TET, "place", None, None, [0, 3, 4], None, False, True)
    else:
        static(w, KITE, "place", None, None, [0, 3], FACES, True, True)


@harness("C32", stubs=STUB, bounds="static, two triangles or two tetrahedra, turned and mirrored; "
                                   "symbolic loads, law (plane)")
def direction(w):
    """direction of the body, static"""
    if w.choice("dimension", 2):
        static(w, TWO_TET, "direction", None, TURN3, [0, 3, 4], None, False, False)
    else:
        static(w, KITE, "direction", None, TURN2, [0, 3], FACES, True, False)


TENSORS = {
    "thermal_expansion": [[F(1, 2), F(1, 8)], [F(-1, 4), F(3, 4)]],
    "thermal_conductivity": [[F(1), F(1, 8)], [F(1, 8), F(3, 2)]],
    "piezoelectricity": [[[F(1, 2), F(1, 8)], [F(-1, 4), F(3, 4)]],
                         [[F(1), F(-1, 8)], [F(1, 4), F(2)]]],
    "permittivity": [[F(1), F(1, 8)], [F(1, 8), F(3, 2)]],
}
RELAX = [[[[F(1), F(1, 4)], [F(1, 8), F(1, 2)]], [[F(1, 2), F(1, 8)], [F(1, 4), F(2)]]],
         [[[F(3), F(1, 2)], [F(1, 4), F(1, 8)]], [[F(1), F(3, 8)], [F(1, 2), F(1)]]]]
ISOTROPIC = [[[[2 * m + k, k], [m, m]], [[m, m], [k, 2 * m + k]]]
             for m, k in ((F(1), F(1, 2)), (F(1, 4), F(3)))]  # moduli m, k


def timed(w, kind, fam):
    mesh = KITE
    n, d = 4, 2
    f, q = poly_field(w, "f", d, d), poly_field(w, "q", d, d)
    u0, v0 = w.reals("u0", (n, d)), w.reals("v0", (n, d))
    z0 = w.reals("z0", (n,))
    second = "initial_absement" if fam == "relaxation" else "initial_velocity"
    coupled = fam in ("temperature", "piezo", "piezo_dynamic")
    zero = w.const(F(0))
    Law = law_of(w)

    def run(view):
        mats = {k: view.tensor(v) for k, v in TENSORS.items()}
        if fam == "relaxation":
            parts = ISOTROPIC if kind == "direction" else RELAX
            mats["relaxation"] = lambda t: w.consts(parts[0]) + t * w.consts(parts[1])
        kw = {}
        start = {}
        if fam == "temperature":
            start = {"initial_temperature": view.field(z0)}
        elif coupled:
            start = {"initial_electric_potential": view.field(z0)}
            mk = {("f", frozenset((0, 3))): True, ("n", 0): True, ("n", 3): True}
            kw["piezo_dirichlet_0"] = (view.predicate(mk),
                                       lambda p: w.arr([zero] * len(p)))
        s = make_timed(w, view.X, view.el, fam, "global", law=Law, inner=view.source(f),
                       outer=view.source(q), mats=mats, dirichlet=view.held({3: zero}),
                       contact=view.contact(FACES), **kw)
        calls = Calls(w, supply(w, view, [s]))
        res = list(s.solve(n_steps=1 if coupled else 2, initial_displacement=view.field(u0),
                           **{second: view.field(v0)}, **start))
        fields = [r.displacement for r in res]
        names = ["absement" if fam == "relaxation" else "velocity"] + ["temperature"] * (fam == "temperature")
        names += ["electric_potential"] * fam.startswith("piezo")
        fields += [getattr(r, k) for k in names for r in res]
        return s, calls, fields

    orders = [(3, 2, 1, 0), (2, 0, 3, 1), (1, 2, 3, 0)]
    same(w, mesh, views(w, mesh, kind, orders, TURN2), run)


def make(fam, kind):
    def fn(w):
        timed(w, kind, fam)

    fn.__name__ = f"{fam}_{kind}"
    fn.__doc__ = f"{fam}: {kind}"
    what = {"numbering": "3 numberings", "place": "moved by an arbitrary vector",
            "direction": "turned and mirrored (tensors too)"}[kind]
    harness("C32", stubs=STUB, bounds=f"two triangles, contact law on two faces, {what}; symbolic "
                                      "loads, law and initial fields; all functionals of "
                                      "1-2 steps and returned fields")(fn)


for _f in ("dynamic", "quasistatic", "relaxation", "temperature", "piezo", "piezo_dynamic"):
    for _k in ("numbering", "place", "direction"):
        make(_f, _k)


def scalar(w, kind, fam):
    mesh = KITE
    n = 4
    f, q = poly_field(w, "f", 2, 1), poly_field(w, "q", 2, 1)
    vals = {3: w.real("c3", 2)}
    u0, v0 = w.reals("u0", (n,)), w.reals("v0", (n,))
    Law = law_of(w)

    def field(view, a):
        one = view.field(a)
        return lambda p: np.stack([one(p), 0 * one(p)], axis=1)

    def run(view, method="global"):
        kw = {} if method == "direct" else dict(law=Law, contact=view.contact(FACES))
        if fam == "poisson":
            s = make_poisson(w, view.X, view.el, method, internal=view.source(f),
                             outer=view.source(q), dirichlet=view.held(vals), **kw)
            calls = Calls(w, supply(w, view, [s], True)) if method == "global" else None
            return s, calls, [s.solve().temperature]
        s = make_wave(w, view.X, view.el, method, inner=view.source(f), outer=view.source(q),
                      dirichlet=view.held({3: w.const(F(0))}), **kw)
        calls = Calls(w, supply(w, view, [s], True)) if method == "global" else None
        res = list(s.solve(n_steps=2, initial_displacement=field(view, u0),
                           initial_velocity=field(view, v0)))
        return s, calls, [np.asarray(r.displacement)[:, 0] for r in res]

    orders = [(3, 2, 1, 0), (2, 0, 3, 1), (1, 2, 3, 0)]
    pair = views(w, mesh, kind, orders, TURN2)
    same(w, mesh, pair, run, scalar=True)
    got = []
    for view in pair:
        s, _, fields = run(view, "direct")
        got.append([view.back(s, x) for x in fields])
    for a, b in zip(*got):
        w.prove_eq(b, a, "solution of the equations")


def make_scalar(fam):
    def fn(w):
        scalar(w, ("numbering", "place", "direction")[w.choice("kind", 3)], fam)

    fn.__name__ = fam
    fn.__doc__ = f"{fam}: numbering, place and direction"
    harness("C32", stubs=STUB, bounds="two triangles, contact law on two faces, 3 numberings, "
                                      "arbitrary shift, turned and mirrored; symbolic loads, law and "
                                      "initial fields; functional and direct method")(fn)


for _f in ("poisson", "membrane"):
    make_scalar(_f)


class Units:
    """the same simulation in other units: length L, time T, stress S (unit density keeps its
    number in motion: S = L^2/T^2)"""

    def __init__(self, w, L, T, S, d):
        self.w, self.L, self.T, self.S, self.d = w, L, T, S, d

    def source(self, f, unit):
        return lambda p, t=0: unit * f(np.asarray(p) / self.L, t / self.T)


def in_units(w, fam, mesh, fixed, faces):
    n, d = len(mesh[0]), len(mesh[0][0])
    L = w.const((F(2), F(1, 3))[w.choice("L", 2)])
    T = w.pos("T", 3) if fam in ("dynamic", "quasistatic") else w.const(F(1))
    S = L * L / (T * T) if fam == "dynamic" else w.pos("S", 2)
    f, q = (poly_field(w, k, d, d, time=fam != "static") for k in ("f", "q"))
    vals = {i: w.real(f"c{i}", i) if fam == "static" else w.const(F(0)) for i in fixed}
    u0, v0 = w.reals("u0", (n, d)), w.reals("v0", (n, d))
    ans = [w.reals(f"a{k}", (n, d)) for k in range(2)]
    x = w.reals("x", (n, d))
    for i in fixed:  # equations of prescribed unknowns carry no unit
        x[i] = x[i] * 0

    def run(un, method):
        rate = un.L if fam == "static" else un.L / un.T
        view = View(w, mesh)
        view.X = w.arr(view.X * un.L)
        view.find = w.locate([(i, view.X[i]) for i in range(n)])
        kw = dict(dirichlet=view.held({i: v * rate for i, v in vals.items()}),
                  inner=un.source(f, un.S / un.L), outer=un.source(q, un.S),
                  mu=un.S * 3, la=un.S * 5)
        if faces and method == "global":
            kw.update(law=law_of(w, un.S, rate, un.L, un.T), contact=view.contact(faces))
        if fam == "static":
            s = make_static(w, view.X, mesh[1], method, **kw)
            calls = Calls(w, lambda k, x0: view.unknown(s, ans[k] * rate, len(x0)))
            res = [s.solve(initial_displacement=view.field(u0 * un.L))]
        else:
            mats = {"th_coef": un.S * un.T * 2, "ze_coef": un.S * un.T * 7}
            s = make_timed(w, view.X, mesh[1], fam, method, dt=un.T / 8, mats=mats, **kw)
            calls = Calls(w, lambda k, x0: view.unknown(s, ans[k] * rate, len(x0)))
            res = list(s.solve(n_steps=2, initial_displacement=view.field(u0 * un.L),
                               initial_velocity=view.field(v0 * rate)))
        if method == "direct":
            return [view.back(s, r.displacement) / un.L for r in res]
        power = un.S * rate * un.L ** (d - 1)
        out = []
        for k in range(len(calls.calls)):
            y = view.unknown(s, x * rate, d * n)
            out.append((calls.value(k, y)[0] - calls.value(k, 0 * y)[0]) / power)
        return out + [view.back(s, r.displacement) / un.L for r in res]

    one = Units(w, *([w.const(F(1))] * 3), d)
    other = Units(w, L, T, S, d)
    for method in ("global", "direct") if fam == "static" and d == 2 else ("global",):
        for k, (a, b) in enumerate(zip(run(one, method), run(other, method))):
            w.prove_eq(b, a, f"{method} {k + 1}")


def make_units(fam, where, mesh, fixed, faces):
    def fn(w):
        in_units(w, fam, mesh, fixed, faces)

    fn.__name__ = f"units_{fam}_{where}"
    fn.__doc__ = f"{fam}, {where}: other units"
    harness("C32", stubs=STUB, bounds="two elements, unit of length 2 and 1/3, "
            + {"static": "arbitrary unit of stress", "quasistatic": "arbitrary units of stress and "
               "time", "dynamic": "arbitrary unit of time"}[fam]
            + ", symbolic loads and initial fields" + (", contact law" if faces else ""))(fn)


for _f in ("static", "dynamic", "quasistatic"):
    make_units(_f, "plane", KITE, [0, 3], FACES)
    make_units(_f, "solid", TWO_TET, [0, 3, 4], None)
