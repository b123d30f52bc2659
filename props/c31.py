"""C31: without loads a body never gains energy."""

import numpy as np

from props.c24 import MATS
from props.common import (Calls, F, Marker, SQUARE5, TWO_TET, TWO_TRI, const_field, flat,
                          make_timed, make_wave, mesh_ref, strip)
from vsym.world import harness

EXACT = "optimiser replaced by the exact minimiser of the (quadratic) functional it is given"
STUB = "optimiser replaced by arbitrary (symbolic) answers"


def gauss(A, b):
    """solution of A x = b (A symmetric positive definite, entries numbers)"""
    A, b = [list(r) for r in A], list(b)
    n = len(b)
    for k in range(n):
        for i in range(k + 1, n):
            m = A[i][k] / A[k][k]
            for j in range(k, n):
                A[i][j] = A[i][j] - m * A[k][j]
            b[i] = b[i] - m * b[k]
    x = [None] * n
    for k in reversed(range(n)):
        s = b[k]
        for j in range(k + 1, n):
            s = s - A[k][j] * x[j]
        x[k] = s / A[k][k]
    return x


def minimiser(w, calls, k, n, size):
    """exact minimiser of the k-th functional over its first n unknowns, the others are zero"""
    def at(*ones):
        x = w.arr([0] * size)
        for i in ones:
            x[i] = x[i] + 1
        return calls.value(k, x)[0]

    f0 = at()
    f = [at(i) for i in range(n)]
    H = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            H[i][j] = H[j][i] = at(i, j) - f[i] - f[j] + f0
    b = [H[i][i] / 2 - (f[i] - f0) for i in range(n)]
    x = w.arr([0] * size)
    x[:n] = w.arr(gauss(H, b))
    return x


def symbols(*arrays):
    return [x for a in arrays for x in np.asarray(a, dtype=object).reshape(-1)]


def energy(w, s, rho):
    """kinetic plus elastic energy (moduli 3 and 5)"""
    ref = mesh_ref(w, s.body.mesh)
    E = ref.elasticity(w.const(F(3)), w.const(F(5)))
    M = ref.mass(w.const(F(rho)))

    def value(u, v):
        u, v = flat(u), flat(v)
        return ((E @ u) @ u + (M @ v) @ v) / 2

    return value


def held(w, X, el, nodes):
    mk = Marker(w, X, el)
    return mk.predicate({("n", i): True for i in nodes})


def friction(w):
    """contact law that resists normal and tangential motion"""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return 3 * var_nu * var_nu

        @staticmethod
        def potential_tangential_direction(var_tau, static_displacement_tau, dt):
            return (var_tau * var_tau).sum()

        @staticmethod
        def tangential_bound(var_nu, static_displacement_nu, dt):
            return 2.0

    return Law


def free_motion(w, fam, mesh, fixed, steps, law=None, contact=None, method="global"):
    X = w.consts(mesh[0])
    n, d = X.shape
    dt = w.const((F(1, 8), F(3))[w.choice("dt", 2)])
    s = make_timed(w, X, mesh[1], fam, method, dt=dt, law=law, contact=contact,
                   dirichlet=held(w, X, mesh[1], fixed) if fixed else None)
    u0, v0 = w.reals("u0", (n, d)), w.reals("v0", (n, d))
    calls = Calls(w, lambda k, x0: minimiser(w, calls, k, len(x0), len(x0)))
    res = s.solve(n_steps=steps, output_step=range(steps + 1), initial_displacement=const_field(u0),
                  initial_velocity=const_field(v0))
    E = energy(w, s, 1 if fam == "dynamic" else 0)
    for k in range(steps):
        w.prove_ordered(E(res[k].displacement, res[k].velocity),
                        E(res[k + 1].displacement, res[k + 1].velocity), symbols(u0, v0),
                        f"energy does not grow in step {k + 1}")


@harness("C31", stubs=EXACT, bounds="two triangles, free or held at 2 nodes, 2 steps of 1/8 or 3, "
                                    "symbolic initial displacement and velocity")
def dynamic(w):
    """viscoelastic body in motion"""
    free_motion(w, "dynamic", TWO_TRI, [[], [0, 1]][w.choice("held", 2)], 2)


@harness("C31", stubs=EXACT, bounds="4 triangles held at 2 nodes, 2 steps of 1/8 or 3, symbolic "
                                    "initial displacement")
def quasistatic(w):
    """viscoelastic body without inertia"""
    free_motion(w, "quasistatic", SQUARE5, [0, 1], 2)


@harness("C31", stubs=EXACT, bounds="two tetrahedra held at 3 nodes, one step of 1/8 or 3, symbolic "
                                    "initial displacement and velocity")
def solid(w):
    """viscoelastic body in space"""
    free_motion(w, ("dynamic", "quasistatic")[w.choice("family", 2)], TWO_TET, [0, 1, 2], 1)


@harness("C31", stubs=EXACT, bounds="two triangles held at a node, two contact faces of different "
                                    "direction, quadratic damping law in normal and tangential "
                                    "direction, 2 steps of 1/8 or 3; dynamic and quasistatic")
def contact(w):
    """damping contact only takes energy"""
    from props.c16 import KITE, marked

    X = w.consts(KITE[0])
    faces = [frozenset((0, 1)), frozenset((1, 2))]  # lengths 5 and 13
    free_motion(w, ("dynamic", "quasistatic")[w.choice("family", 2)], KITE, [3], 2,
                law=friction(w), contact=marked(w, X, KITE[1], faces)["contact"])


@harness("C31", stubs=EXACT, bounds="4 triangles, rim held at 2 nodes or free, 2 steps of 1/8 or 3, "
                                    "symbolic initial deflection and velocity, propagation 2")
def membrane(w):
    """free vibration of a membrane"""
    X = w.consts(SQUARE5[0])
    n = len(X)
    dt = w.const((F(1, 8), F(3))[w.choice("dt", 2)])
    fixed = [[], [0, 1]][w.choice("held", 2)]
    s = make_wave(w, X, SQUARE5[1], "global", dt=dt,
                  dirichlet=held(w, X, SQUARE5[1], fixed) if fixed else None)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    calls = Calls(w, lambda k, x0: minimiser(w, calls, k, n, len(x0)))
    res = s.solve(n_steps=2, output_step=range(3), initial_displacement=const_field(u0),
                  initial_velocity=const_field(v0))
    ref = mesh_ref(w, s.body.mesh)
    K, M = 4 * ref.laplace(), ref.mass(1)[:n, :n]

    def E(r):
        u, v = (np.asarray(a)[:, 0] for a in (r.displacement, r.velocity))
        return ((K @ u) @ u + (M @ v) @ v) / 2

    for k in range(2):
        w.prove_ordered(E(res[k]), E(res[k + 1]), symbols(u0[:, 0], v0[:, 0]),
                        f"energy does not grow in step {k + 1}")


def coupled(w, fam):
    """answers are arbitrary but the same in all inner iterations of the step; the energy grows by
    at most the work of the residuals (which vanishes for exact answers)"""
    X = w.consts(TWO_TRI[0])
    n, d = X.shape
    dt = w.const((F(1, 8), F(3))[w.choice("dt", 2)])
    kw = {}
    if fam != "temperature":
        mk = Marker(w, X, TWO_TRI[1])
        table = {("f", frozenset((0, 1))): True, ("n", 0): True, ("n", 1): True}
        kw = {"piezo_dirichlet_0": (mk.predicate(table), lambda p: w.arr([0] * len(p)))}
    s = make_timed(w, X, TWO_TRI[1], fam, "global", dt=dt,
                   mats={k: w.consts(v) for k, v in MATS.items()}, **kw)
    u0, v0, v = (w.reals(k, (n, d)) for k in ("u0", "v0", "v"))
    z0, z = w.reals("z0", (n,)), w.reals("z", (n,))
    name = "initial_temperature" if fam == "temperature" else "initial_electric_potential"
    answer = {}

    def supply(k, x0):
        if len(x0) == n and fam != "temperature":
            return minimiser(w, calls, k, n, n)
        return answer[len(x0)]

    def solve(velocity, start):
        answer.update({d * n: flat(velocity), n: z})
        return list(s.solve(n_steps=1, initial_displacement=const_field(u0),
                            initial_velocity=const_field(v0), **{name: const_field(start)}))[-1]

    if fam != "temperature":
        # the potential in equilibrium with the start
        calls = Calls(w, supply)
        z0 = np.array(solve(w.arr(np.zeros((n, d))), z0).electric_potential)
    calls = Calls(w, supply)
    r = solve(v, z0)
    size = [len(np.asarray(c[2]).reshape(-1)) for c in calls.calls]
    mech = max(i for i, m in enumerate(size) if m == d * n)
    part = max(i for i, m in enumerate(size) if m == n)

    def work(k, x):
        return (calls.value(k, 2 * x)[0] - calls.value(k, 0 * x)[0]) / 2

    ref = mesh_ref(w, s.body.mesh)
    if fam == "temperature":
        E, K, z1 = energy(w, s, 1), ref.U, np.asarray(r.temperature)
        gained = work(mech, flat(v)) + work(part, z)
    else:
        E = energy(w, s, F(1, 10) if fam == "piezo_dynamic" else 0)
        K, z1 = ref.contract(w.consts(MATS["permittivity"])), np.asarray(r.electric_potential)
        gained = work(mech, flat(v))
    w.prove_ordered(E(u0, v0) + (K @ z0) @ z0 / 2 + dt * gained,
                    E(r.displacement, r.velocity) + (K @ z1) @ z1 / 2,
                    symbols(u0, v0, v, w.reals("z0", (n,)), z), "energy of both fields")


def make(fam):
    def fn(w):
        coupled(w, fam)

    fn.__name__ = fam
    fn.__doc__ = f"{fam}: exchange between the fields creates no energy"
    harness("C31", stubs=STUB,
            bounds="two triangles, 1 step of 1/8 or 3, symbolic initial fields, arbitrary answers "
                   "(the same in all inner iterations"
                   + (")" if fam == "temperature" else "), exact potential, one side grounded"))(fn)


for _f in ("temperature", "piezo", "piezo_dynamic"):
    make(_f)
