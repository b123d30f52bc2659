"""Shared harness building blocks: reference formulas (written from the mathematics, not from the
code under test), meshes, bodies, problem classes."""

from fractions import Fraction as Fr

import numpy as np


# ----------------------------------------------------------------------------- geometry


def det2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def det3(a, b, c):
    return (
        a[0] * (b[1] * c[2] - b[2] * c[1])
        - a[1] * (b[0] * c[2] - b[2] * c[0])
        + a[2] * (b[0] * c[1] - b[1] * c[0])
    )


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def signed_det(X):
    E = [X[i] - X[0] for i in range(1, len(X))]
    return det2(*E) if len(E) == 2 else det3(*E)


def bary_gradients(X):
    """(det, g) with g[i] = det * gradient of the i-th barycentric function."""
    d = len(X) - 1
    E = [X[i] - X[0] for i in range(1, d + 1)]
    if d == 2:
        det = det2(*E)
        g1 = [E[1][1], -E[1][0]]
        g2 = [-E[0][1], E[0][0]]
        g = [[-(a + b) for a, b in zip(g1, g2)], g1, g2]
    else:
        det = det3(*E)
        g1 = cross3(E[1], E[2])
        g2 = cross3(E[2], E[0])
        g3 = cross3(E[0], E[1])
        g = [[-(a + b + c) for a, b, c in zip(g1, g2, g3)], g1, g2, g3]
    return det, g


class Ref:
    """Exact P1 finite element integrals on a mesh (reference)."""

    def __init__(self, w, nodes, elements, density=None):
        d = nodes.shape[1]
        n = len(nodes)
        fact = 2 if d == 2 else 6

        def z(*s):
            a = np.empty(s, dtype=object)
            a.fill(0)
            return a

        self.n, self.d = n, d
        self.U, self.V, self.W = z(n, n), z(d, n, n), z(d, d, n, n)
        self.vol, self.phi = [], z(n)
        self.loc = []
        for e, el in enumerate(elements):
            X = np.asarray(nodes)[list(el)]
            det, g = bary_gradients(X)
            vol = abs(det) / fact
            self.vol.append(vol)
            sgn = vol / det  # +-1/d!
            rho = 1 if density is None else density[e]
            loc = z(d, d, d + 1, d + 1)
            for i in range(d + 1):
                self.phi[el[i]] = self.phi[el[i]] + vol / (d + 1)
                for j in range(d + 1):
                    I, J = el[i], el[j]
                    self.U[I, J] = self.U[I, J] + vol * (2 if i == j else 1) / (
                        (d + 1) * (d + 2)
                    )
                    for k in range(d):
                        self.V[k, I, J] = self.V[k, I, J] + sgn * g[j][k] / (d + 1)
                        for l in range(d):
                            t = sgn * g[i][k] * g[j][l] / det
                            loc[k, l, i, j] = t
                            self.W[k, l, I, J] = self.W[k, l, I, J] + rho * t
            self.loc.append(loc)

    def elasticity(self, mu, la):
        d, n, W = self.d, self.n, self.W
        A = np.empty((d * n, d * n), dtype=object)
        for a in range(d):
            for b in range(d):
                if a == b:
                    B = (2 * mu + la) * W[a, a]
                    for k in range(d):
                        if k != a:
                            B = B + mu * W[k, k]
                else:
                    B = la * W[a, b] + mu * W[b, a]
                A[a * n:(a + 1) * n, b * n:(b + 1) * n] = B
        return A

    def mass(self, rho):
        d, n = self.d, self.n
        A = np.empty((d * n, d * n), dtype=object)
        A.fill(0)
        for a in range(d):
            A[a * n:(a + 1) * n, a * n:(a + 1) * n] = rho * self.U
        return A

    def laplace(self):
        return sum(self.W[k, k] for k in range(self.d))

    def contract(self, c):
        r = 0
        for k in range(self.d):
            for l in range(self.d):
                r = r + c[k][l] * self.W[k, l]
        return r

    def expansion(self, c):
        """rows: scalar test function, columns: vector trial (component-major)."""
        return np.hstack([sum(c[a][k] * self.V[k] for k in range(self.d)) for a in range(self.d)])

    def relaxation(self, c):
        d = self.d
        W = self.W
        blocks = [
            [c[0][0][0] * W[0, 0] + c[0][1][1] * W[1, 1],
             c[0][1][0] * W[1, 0] + c[0][0][1] * W[0, 1]],
            [c[1][1][0] * W[1, 0] + c[1][0][1] * W[0, 1],
             c[1][0][0] * W[0, 0] + c[1][1][1] * W[1, 1]],
        ]
        assert d == 2
        return np.vstack([np.hstack(r) for r in blocks])

    def piezo(self, c):
        return np.hstack(
            [sum(c[a][k][l] * self.W[k, l] for k in range(2) for l in range(2)) for a in range(2)]
        )


# ----------------------------------------------------------------------------- meshes

F = Fr
SQUARE5 = (  # distorted square with an interior node
    [[F(0), F(0)], [F(2), F(1, 4)], [F(9, 4), F(7, 4)], [F(-1, 4), F(3, 2)], [F(1), F(3, 4)]],
    [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
)
TWO_TRI = (
    [[F(0), F(0)], [F(1), F(1, 8)], [F(1, 4), F(1)], [F(5, 4), F(9, 8)]],
    [[0, 1, 2], [3, 2, 1]],
)
TWO_TET = (
    [[F(0), F(0), F(0)], [F(1), F(1, 8), F(0)], [F(1, 4), F(1), F(1, 8)], [F(0), F(1, 4), F(1)],
     [F(1), F(1), F(9, 8)]],
    [[0, 1, 2, 3], [4, 3, 2, 1]],
)


def kuhn():
    """Unit cube cut into 6 tetrahedra."""
    from itertools import permutations

    nodes = [[F(i), F(j), F(k)] for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    el = []
    for p in permutations(range(3)):
        x = [0, 0, 0]
        t = [0]
        for a in p:
            x[a] = 1
            t.append(4 * x[0] + 2 * x[1] + x[2])
        el.append(t)
    return nodes, el


def strip(nx, ny):
    """Structured triangulation (rational, sheared) of nx x ny cells."""
    nodes, idx = [], {}
    for j in range(ny + 1):
        for i in range(nx + 1):
            idx[i, j] = len(nodes)
            nodes.append([F(i) + F(j, 8), F(j) - F(i, 16)])
    el = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]
            if (i + j) % 2:
                el += [[a, b, c], [c, d, a]]
            else:
                el += [[a, b, d], [d, c, b]]
    return nodes, el


def raw_mesh_description(nodes, elements):
    from conmech.mesh.zoo.raw_mesh import RawMesh
    from conmech.properties.mesh_description import MeshDescription

    class Given(MeshDescription):
        def build(self):
            return RawMesh(nodes=nodes.copy(), elements=elements.copy())

    return Given(initial_position=None)


def make_mesh(nodes, elements, **boundaries):
    """Mesh through the public constructor, with caller-chosen nodes and elements."""
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    return Mesh(
        mesh_descr=raw_mesh_description(nodes, elements),
        boundaries_description=BoundariesDescription(**boundaries),
    )


def bare_mesh(nodes, elements):
    """A Mesh object with exactly these nodes/elements (no reordering), for operator harnesses."""
    from conmech.mesh.mesh import Mesh

    m = object.__new__(Mesh)
    m.nodes = nodes
    m.elements = elements
    return m


def make_body(mesh, properties):
    from conmech.dynamics.dynamics import Dynamics
    from conmech.simulations.problem_solver import Body

    body = Body(properties, mesh)
    Dynamics(body)
    return body


def data(x):
    """Plain array of a stiffness matrix wrapper."""
    return getattr(x, "data") if type(x).__module__.startswith("conmech") else x


# ----------------------------------------------------------------------------- boundary reference


def faces_of(elements):
    """face (frozenset of nodes) -> list of (element number, opposite node)."""
    out = {}
    for e, el in enumerate(elements):
        el = [int(i) for i in el]
        for k in range(len(el)):
            f = frozenset(el[:k] + el[k + 1:])
            out.setdefault(f, []).append((e, el[k]))
    return out


def boundary_of(elements):
    return {f: v[0] for f, v in faces_of(elements).items() if len(v) == 1}


def midpoint(nodes, face):
    f = sorted(face)
    s = nodes[f[0]]
    for i in f[1:]:
        s = s + nodes[i]
    return s / len(f)


class Marker:
    """User predicates given by a table: nodes and boundary face midpoints -> truth value."""

    def __init__(self, w, nodes, elements):
        self.w = w
        pts = [(("n", i), nodes[i]) for i in range(len(nodes))]
        pts += [(("f", f), midpoint(nodes, f)) for f in sorted(boundary_of(elements), key=sorted)]
        self.names = [p[0] for p in pts]
        self.find = w.locate(pts)

    def predicate(self, table, default=False):
        def pred(p):
            name = self.find(p)
            assert name is not None, "predicate asked about a point that is neither node nor face"
            return bool(table.get(name, default))

        return pred


def node_perm(w, mesh, nodes):
    """For every node of the built mesh, the number of the given node at that place."""
    find = w.locate([(i, nodes[i]) for i in range(len(nodes))])
    return [find(p) for p in np.asarray(mesh.nodes)]


def poly_field(w, name, dim, k, time=True):
    """A user-supplied field R^dim x R -> R^k: affine in x, affine in t, symbolic coefficients."""
    a = w.reals(name, (k, dim + 1, 2 if time else 1))

    def f(x, t=0):
        out = []
        for c in range(k):
            v = 0
            for p in range(a.shape[2]):
                s = a[c, 0, p]
                for d in range(dim):
                    s = s + a[c, d + 1, p] * x[d]
                v = v + s * (t if p else 1)
            out.append(v)
        return w.arr(out)

    return f


# ----------------------------------------------------------------------------- problems


def zero_law():
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    class Zero(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return 0.0 * var_nu

    return Zero


def descr(**kw):
    from conmech.mesh.boundaries_description import BoundariesDescription

    return BoundariesDescription(**{k: v for k, v in kw.items() if v is not None})


def _sources(ns, inner, outer, bare, w, k):
    if bare:
        return
    zero = w.arr([0] * k)
    ns["inner_forces"] = staticmethod(inner or (lambda x, t=None: zero))
    ns["outer_forces"] = staticmethod(outer or (lambda x, t=None: zero))


def make_static(w, nodes, elements, method="direct", cls="StaticSolver", law="none", inner=None,
                outer=None, bare=False, mu=None, la=None, **bnd):
    from conmech.scenarios.problems import StaticDisplacementProblem
    from conmech.simulations import problem_solver as ps

    ns = {}
    _sources(ns, inner, outer, bare, w, nodes.shape[1])
    Setup = type("Setup", (StaticDisplacementProblem,), ns)
    if law == "none":
        law = None if method == "direct" else zero_law()
    p = Setup(raw_mesh_description(nodes, w.int_array(elements)), descr(**bnd),
              mu_coef=w.const(F(3)) if mu is None else mu,
              la_coef=w.const(F(5)) if la is None else la, contact_law=law)
    return getattr(ps, cls)(p, method)


def make_poisson(w, nodes, elements, method="direct", internal=None, outer=None, bare=False,
                 law=None, **bnd):
    from conmech.scenarios.problems import PoissonProblem
    from conmech.simulations.problem_solver import PoissonSolver

    ns = {}
    if not bare:
        z = w.arr([0])
        ns["internal_temperature"] = staticmethod(internal or (lambda x, t=None: z))
        ns["outer_temperature"] = staticmethod(outer or (lambda x, t=None: z))
    if law is not None:
        ns["contact_law_2"] = law
    Setup = type("Setup", (PoissonProblem,), ns)
    p = Setup(raw_mesh_description(nodes, w.int_array(elements)), descr(**bnd))
    return PoissonSolver(p, method)


def make_wave(w, nodes, elements, method="direct", law=None, inner=None, outer=None, bare=False,
              propagation=None, dt=None, interior=False, **bnd):
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import WaveSolver

    ns = {"time_step": w.const(F(1, 8)) if dt is None else dt}
    _sources(ns, inner, outer, bare, w, 1)
    prop = w.const(F(2)) if propagation is None else propagation
    args = (raw_mesh_description(nodes, w.int_array(elements)), descr(**bnd))
    if law is None:
        Setup = type("Setup", (pr.WaveProblem,), ns)
        p = Setup(*args, propagation=prop)
    else:
        base = pr.InteriorContactWaveProblem if interior else pr.ContactWaveProblem
        Setup = type("Setup", (base,), ns)
        p = Setup(*args, propagation=prop, contact_law=law)
    return WaveSolver(p, method)


def make_timed(w, nodes, elements, family, method="schur", law=None, law2=None, inner=None,
               outer=None, dt=None, mats=None, mu=None, la=None, **bnd):
    """family: quasistatic, dynamic, temperature, piezo, piezo_dynamic, relaxation."""
    from conmech.scenarios import problems as pr
    from conmech.simulations import problem_solver as ps

    base, solver = {
        "quasistatic": (pr.QuasistaticDisplacementProblem, ps.TimeDependentSolver),
        "dynamic": (pr.DynamicDisplacementProblem, ps.TimeDependentSolver),
        "temperature": (pr.TemperatureDynamicProblem, ps.TemperatureTimeDependentSolver),
        "piezo": (pr.PiezoelectricQuasistaticProblem, ps.PiezoelectricTimeDependentSolver),
        "piezo_dynamic": (pr.PiezoelectricDynamicProblem, ps.PiezoelectricTimeDependentSolver),
        "relaxation": (pr.RelaxationQuasistaticProblem, ps.QuasistaticRelaxation),
    }[family]
    ns = {
        "time_step": w.const(F(1, 8)) if dt is None else dt,
        "th_coef": w.const(F(2)),
        "ze_coef": w.const(F(7)),
    }
    ns.update(mats or {})
    _sources(ns, inner, outer, False, w, nodes.shape[1])
    if family in ("temperature", "piezo", "piezo_dynamic"):
        ns["contact_law_2"] = law2 or zero_law()
    if family == "temperature":
        ns.setdefault("thermal_expansion", w.consts([[F(1, 2), F(1, 8)], [F(-1, 4), F(3, 4)]]))
        ns.setdefault("thermal_conductivity", w.consts([[F(1), F(1, 8)], [F(1, 8), F(3, 2)]]))
    if family.startswith("piezo"):
        ns.setdefault("piezoelectricity", w.consts(
            [[[F(1, 2), F(1, 8)], [F(-1, 4), F(3, 4)]], [[F(1), F(-1, 8)], [F(1, 4), F(2)]]]))
        ns.setdefault("permittivity", w.consts([[F(1), F(1, 8)], [F(1, 8), F(3, 2)]]))
    if family == "relaxation":
        r = ns.get("relaxation") or (lambda t: w.consts(
            [[[F(1), F(1, 4)], [F(1, 8), F(1, 2)]], [[F(1, 2), F(1, 8)], [F(1, 4), F(2)]]]))
        ns["relaxation"] = staticmethod(r)
    Setup = type("Setup", (base,), ns)
    p = Setup(raw_mesh_description(nodes, w.int_array(elements)), descr(**bnd),
              mu_coef=w.const(F(3)) if mu is None else mu,
              la_coef=w.const(F(5)) if la is None else la, contact_law=law or zero_law())
    return solver(p, method)


def eliminate(A, b, fixed):
    """Reference Dirichlet elimination: fixed = {dof: value}."""
    A = np.array(A, dtype=object)
    b = np.array(b, dtype=object)
    n = len(b)
    A2, b2 = A.copy(), b.copy()
    for i in range(n):
        for d, v in fixed.items():
            if i not in fixed:
                b2[i] = b2[i] - A[i, d] * v
    for d, v in fixed.items():
        A2[d, :] = 0
        A2[:, d] = 0
        A2[d, d] = 1
        b2[d] = v
    return A2, b2


class Calls:
    """Optimiser stand-in: records what is minimised / solved, returns prescribed vectors.

    `supply(k, x0)` gives the k-th returned vector (any vector: the optimiser is unconstrained)."""

    def __init__(self, w, supply):
        self.w = w
        self.calls = []
        self.given = []
        self.supply = supply
        w.stub_optimizer(self)

    def __call__(self, kind, fun, x0, args, kw):
        k = len(self.calls)
        frozen = tuple(a.copy() if isinstance(a, np.ndarray) else a for a in args)
        self.calls.append((kind, fun, np.array(x0).copy(), frozen, kw))
        x = self.supply(k, np.asarray(x0).reshape(-1))
        self.given.append(x)
        return x.copy()

    def value(self, k, x):
        """the k-th functional (or residual) at x"""
        kind, fun, _, args, _ = self.calls[k]
        return np.asarray(fun(x.copy(), *args)).reshape(-1)


def quad(A, b, x):
    """x.A.x/2 - b.x"""
    A = np.asarray(A, dtype=object)
    return (A @ x) @ x / 2 - np.asarray(b, dtype=object) @ x


def const_field(a):
    return lambda nodes: a.copy()


def flat(a):
    """(nodes, components) -> component-major vector"""
    return np.asarray(a).T.reshape(-1)


def fresh_load(solver, inner, outer, t):
    """Integrated load of an untouched body with the same mesh and sources (decided by C07)."""
    from conmech.dynamics.dynamics import Dynamics
    from conmech.simulations.problem_solver import Body

    b = Body(solver.body.properties, solver.body.mesh)
    Dynamics(b)
    b.dynamics.force.inner.source, b.dynamics.force.outer.source = inner, outer
    return np.asarray(b.dynamics.force.integrate(t))


def mesh_ref(w, mesh):
    return Ref(w, np.asarray(mesh.nodes), [[int(i) for i in e] for e in mesh.elements])
