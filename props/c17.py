"""C17: nonlinear equation and subgradient are the derivative of the minimised functional.

The laws are polynomials of degree <= 3 in the unknown with symbolic coefficients, so functionals
have degree <= 4 in each unknown and the five-point formula below is their exact derivative."""

import numpy as np

from props.c09 import prescribed
from props.c16 import KITE, LOWER, marked
from props.common import (Calls, F, Marker, boundary_of, const_field, make_poisson, make_static,
                          make_timed, make_wave, strip)
from vsym.world import harness

STUB = "optimiser / root finder replaced by an arbitrary (symbolic) answer"


def derivative(w, fun, x, i):
    def at(h):
        y = x.copy()
        y[i] = y[i] + h
        return fun(y)

    return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / 12


def gradient(w, fun, x):
    return [derivative(w, fun, x, i) for i in range(len(x))]


def smooth_law(w, history=True):
    from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw

    p1, p2, p3 = (w.real(f"p{k}", 2 - k) for k in range(3))
    h1, h2 = (w.real(f"h{k}", 1 + k) if history else 0.0 for k in range(2))

    class Law(DirectContactLaw, PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return (p1 * var_nu + p2 * var_nu * var_nu + p3 * var_nu * var_nu * var_nu
                    + h1 * var_nu * static_displacement_nu
                    + h2 * var_nu * var_nu * dt)

        @staticmethod
        def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
            return (p1 + 2 * p2 * var_nu + 3 * p3 * var_nu * var_nu
                    + h1 * static_displacement_nu + 2 * h2 * var_nu * dt)

    return Law


def functional(calls, k):
    return lambda x: calls.value(k, x)[0]


def slope(w, calls, k, x):
    """the gradient handed to the optimiser at x"""
    _, _, _, args, kw = calls.calls[k]
    jac = kw.get("jac")
    w.prove(callable(jac), "a gradient is passed to a gradient-based optimiser")
    return np.asarray(jac(x.copy(), *args)).reshape(-1)


def compare(w, got, calls, k, x, what):
    w.prove_eq(np.asarray(got), w.arr(gradient(w, functional(calls, k), x)), what)


@harness("C17", stubs=STUB, bounds="two triangles, two contact faces of different direction, "
                                   "symbolic unknown, law of degree 3 with symbolic coefficients; "
                                   "load constant")
def direct(w):
    """equations of the direct method: static displacement"""
    X = w.consts(KITE[0])
    n = len(X)
    Law = smooth_law(w, history=False)
    x = w.reals("x", (2 * n,))
    got = {}
    for m in ("direct", "global"):
        s = make_static(w, X, KITE[1], m, law=Law, inner=lambda z, t=None: w.consts([F(1, 2), -3]),
                        **marked(w, X, KITE[1], LOWER))
        got[m] = Calls(w, lambda k, x0: w.reals("s", (2 * n,)))
        s.solve(initial_displacement=const_field(w.reals("u0", (n, 2))))
    compare(w, got["direct"].value(0, x), got["global"], 0, x, "equations of the direct method")


@harness("C17", stubs=STUB, bounds="two tetrahedra, one outer face in contact, one fixed node with "
                                   "symbolic prescribed value, symbolic unknown, law of degree 3; "
                                   "load constant")
def direct_solid(w):
    """equations of the direct method in three dimensions"""
    from props.c19 import tetrahedra

    X, el, kw = tetrahedra(w)
    n = len(X)
    Law = smooth_law(w, history=False)
    x = w.reals("x", (3 * n,))
    got = {}
    for m in ("direct", "global"):
        s = make_static(w, X, el, m, law=Law, outer=lambda z, t=None: w.consts([F(1, 2), -3, 1]),
                        **kw)
        got[m] = Calls(w, lambda k, x0: w.reals("s", (3 * n,)))
        s.solve(initial_displacement=const_field(w.arr(np.zeros((n, 3)))))
    compare(w, got["direct"].value(0, x), got["global"], 0, x, "equations of the direct method")


@harness("C17", stubs=STUB, bounds="4 triangles, one contact face, one fixed node with symbolic "
                                   "prescribed value, symbolic unknown, law of degree 3; Poisson")
def direct_scalar(w):
    """equations of the direct method of a scalar unknown"""
    from props.c19 import square

    X, el, kw = square(w)
    n = len(X)
    Law = smooth_law(w, history=False)
    x = w.reals("x", (n,))
    got = {}
    for m in ("direct", "global"):
        s = make_poisson(w, X, el, m, law=Law, internal=lambda z, t=None: w.consts([F(1, 2)]),
                         **kw)
        got[m] = Calls(w, lambda k, x0: w.reals("s", (n,)))
        s.solve()
    compare(w, got["direct"].value(0, x), got["global"], 0, x, "equations of the direct method")


@harness("C17", stubs=STUB, bounds="6 nodes, contact bottom, 3 choices of fixed nodes with symbolic "
                                   "prescribed values, symbolic unknown and law")
def direct_fixed(w):
    """equations of the direct method with prescribed displacements"""
    from props.c10 import world

    X, el, bc, vals, find, contact = world(w)
    n = len(X)
    Law = smooth_law(w, history=False)
    x = w.reals("x", (2 * n,))
    got = {}
    for m in ("direct", "global"):
        s = make_static(w, X, el, m, law=Law, dirichlet=bc, contact=contact,
                        outer=lambda z, t=None: w.consts([F(1, 2), -3]))
        got[m] = Calls(w, lambda k, x0: w.reals("s", (2 * n,)))
        s.solve(initial_displacement=const_field(w.arr(np.zeros((n, 2)))))
    compare(w, got["direct"].value(0, x), got["global"], 0, x, "equations of the direct method")


@harness("C17", stubs=STUB, bounds="two triangles, two contact faces, symbolic states and law that "
                                   "depends on history and time step; static, quasistatic, dynamic "
                                   "and long-memory, 2 steps, global")
def subgradient(w):
    """gradient passed to gradient-based optimisers, two components"""
    X = w.consts(KITE[0])
    n = len(X)
    Law = smooth_law(w)
    fam = ["static", "quasistatic", "dynamic", "relaxation"][w.choice("family", 4)]
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    x = w.reals("x", (2 * n,))
    kw = marked(w, X, KITE[1], LOWER)
    calls = lambda: Calls(w, lambda k, x0: w.reals(f"s{k}", (2 * n,)))  # noqa: E731
    if fam == "static":
        s = make_static(w, X, KITE[1], "global", law=Law, **kw)
        c = calls()
        s.solve(initial_displacement=const_field(u0), method="gradiented BFGS")
    else:
        s = make_timed(w, X, KITE[1], fam, "global", law=Law, **kw)
        c = calls()
        second = "initial_absement" if fam == "relaxation" else "initial_velocity"
        s.solve(n_steps=2, initial_displacement=const_field(u0), method="gradiented BFGS",
                **{second: const_field(v0)})
    for k in range(len(c.calls)):
        compare(w, slope(w, c, k, x), c, k, x, f"gradient, step {k + 1}")


@harness("C17", stubs=STUB, bounds="6 nodes, contact along the left side up to the fixed top; "
                                   "symbolic states, values and law; static, dynamic, wave; 1-2 "
                                   "steps, condensed")
def subgradient_condensed(w):
    """gradient of the condensed functional; contact faces reach nodes that are no unknowns"""
    N, el = strip(1, 2)
    X = w.consts(N)
    n = len(X)
    Law = smooth_law(w)
    fam = ["static", "dynamic", "wave"][w.choice("family", 3)]
    mk = Marker(w, X, el)
    chosen = [f for f in boundary_of(el) if f <= {0, 2, 4}]
    table = {("f", f): True for f in chosen}
    table.update({("n", i): True for i in (0, 2)})
    bc, _, _ = prescribed(w, X, el, [4, 5], "g")
    kw = {"dirichlet": bc, "contact": mk.predicate(table)}
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    if fam == "static":
        s = make_static(w, X, el, "schur", law=Law, **kw)
    elif fam == "wave":
        s = make_wave(w, X, el, "schur", law=Law, **kw)
    else:
        s = make_timed(w, X, el, fam, "schur", law=Law, **kw)
    c = Calls(w, lambda k, x0: w.reals(f"s{k}", (len(x0),)))
    if fam == "static":
        s.solve(initial_displacement=const_field(u0), method="gradiented BFGS")
    else:
        s.solve(n_steps=1, initial_displacement=const_field(u0), method="gradiented BFGS",
                initial_velocity=const_field(v0))
    x = w.reals("x", (2 if fam == "wave" else 4,))
    compare(w, slope(w, c, 0, x), c, 0, x, "gradient of the condensed functional")


@harness("C17", stubs=STUB, bounds="two triangles, two contact faces, symbolic states and law; wave "
                                   "(2 steps) and Poisson, global and condensed")
def subgradient_scalar(w):
    """gradient for one component"""
    X = w.consts(KITE[0])
    n = len(X)
    Law = smooth_law(w)
    fam = ["wave", "poisson"][w.choice("family", 2)]
    method = ["global", "schur"][w.choice("method", 2)]
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    kw = marked(w, X, KITE[1], LOWER)
    if fam == "wave":
        s = make_wave(w, X, KITE[1], method, law=Law, **kw)
        c = Calls(w, lambda k, x0: w.reals(f"s{k}", (len(x0),)))
        s.solve(n_steps=2, initial_displacement=const_field(u0), method="gradiented BFGS",
                initial_velocity=const_field(v0))
    else:
        s = make_poisson(w, X, KITE[1], method, law=Law, **kw)
        c = Calls(w, lambda k, x0: w.reals(f"s{k}", (len(x0),)))
        s.solve(method="gradiented BFGS")
    x = w.reals("x", (3 if method == "schur" else 2 * n if fam == "wave" else n,))
    for k in range(len(c.calls)):
        compare(w, slope(w, c, k, x), c, k, x, f"gradient, step {k + 1}")
