"""C06: element densities weight every stiffness contribution of their own element, and only it."""

import numpy as np

from props.common import (Marker, Ref, SQUARE5, TWO_TRI, bare_mesh, data, eliminate, make_body,
                          node_perm, signed_det, strip)
from vsym.world import harness


def visco(w):
    from conmech.properties.body_properties import ViscoelasticProperties

    mu, la, th, ze = w.real("mu", 3), w.real("la", 5), w.real("th", 2), w.real("ze", 7)
    rho = w.pos("rho", 2)
    return ViscoelasticProperties(mass_density=rho, mu=mu, lambda_=la, theta=th, zeta=ze), (
        mu, la, th, ze, rho)


def check(w, body, ref, base, par, tag):
    mu, la, th, ze, rho = par
    w.prove_eq(data(body.dynamics.elasticity), ref.elasticity(mu, la), f"elasticity {tag}")
    w.prove_eq(data(body.dynamics.viscosity), ref.elasticity(th, ze), f"viscosity {tag}")
    w.prove_eq(data(body.dynamics.acceleration_operator), base.mass(rho), f"mass {tag}")
    w.prove_eq(body.dynamics.element_initial_volume, base.vol, f"volumes {tag}")
    w.prove_eq(np.asarray(body.dynamics.volume_at_nodes).sum(axis=1), base.phi, f"nodal {tag}")


@harness("C06", bounds="two triangles, 8 symbolic coordinates, symbolic densities and moduli")
def pair(w):
    """assembly with densities on arbitrary geometry"""
    X = w.reals("x", (4, 2), TWO_TRI[0])
    for e in TWO_TRI[1]:
        w.assume(w.gt(signed_det(X[e]), 0))
    p, par = visco(w)
    body = make_body(bare_mesh(X, w.int_array(TWO_TRI[1])), p)
    rho = w.reals("d", (2,), [2, 5])
    body.dynamics.reinitialize_matrices(rho)
    check(w, body, Ref(w, X, TWO_TRI[1], density=rho), Ref(w, X, TWO_TRI[1]), par, "updated")


@harness("C06", bounds="4 triangles; histories: densities, other densities, uniform, none")
def history(w):
    """repeated updates do not compound"""
    X = w.consts(SQUARE5[0])
    p, par = visco(w)
    body = make_body(bare_mesh(X, w.int_array(SQUARE5[1])), p)
    base = Ref(w, X, SQUARE5[1])
    for k in range(3):
        rho = w.reals(f"d{k}", (4,), [1, 2, 3, 4])
        body.dynamics.reinitialize_matrices(rho)
        check(w, body, Ref(w, X, SQUARE5[1], density=rho), base, par, f"after update {k}")
    s = w.real("s", 2)
    body.dynamics.reinitialize_matrices(w.arr([s] * 4))
    mu, la, th, ze, r = par
    w.prove_eq(data(body.dynamics.elasticity), s * base.elasticity(mu, la), "uniform scaling")
    body.dynamics.reinitialize_matrices()
    check(w, body, base, base, par, "after reset")


@harness("C06", bounds="30 nodes / 40 triangles, symbolic densities")
def many(w):
    """assembly with densities on a larger mesh"""
    N, EL = strip(5, 4)
    X = w.consts(N)
    p, par = visco(w)
    body = make_body(bare_mesh(X, w.int_array(EL)), p)
    rho = w.reals("d", (40,), [1 + k for k in range(40)])
    body.dynamics.reinitialize_matrices(rho)
    check(w, body, Ref(w, X, EL, density=rho), Ref(w, X, EL), par, "updated")


@harness("C06", bounds="public solver object, 4 triangles in built-in node order, symbolic "
                       "densities, two updates, methods direct/schur/global")
def solver_update(w):
    """density updates through the solver reach the system that is solved"""
    from props.common import make_static

    X = w.consts(SQUARE5[0])
    mk = Marker(w, X, SQUARE5[1])
    fixed = [0, 1, 2]
    pred = mk.predicate({("n", i): True for i in fixed})
    for method in ("direct", "schur", "global"):
        solver = make_static(w, X, SQUARE5[1], method, cls="NonHomogenousSolver", dirichlet=pred)
        m = solver.body.mesh
        n = len(X)
        perm = node_perm(w, m, X)
        dofs = {c * n + i: 0 for c in range(2) for i in range(n) if perm[i] in fixed}
        for k in range(2):
            rho = w.consts([2, 3, 5, 7])
            rho[2 * k] = w.pos(f"d{method}{k}", 2)
            solver.update_density(rho)
            el = [[int(i) for i in e] for e in m.elements]
            # densities follow the elements in the order of the mesh
            ref = Ref(w, m.nodes, el, density=rho)
            pr = solver.body.properties
            A, _ = eliminate(ref.elasticity(pr.mu, pr.lambda_), np.zeros(2 * n), dofs)
            w.prove_eq(data(solver.step_solver.statement.left_hand_side), A,
                       f"{method} system after update {k}")
            w.prove(str(solver.step_solver).startswith(method), "method kept")
            if method == "schur":
                # nothing is in contact: everything is eliminated by the inverse
                w.prove_eq(np.asarray(solver.step_solver.free_x_free_inverted) @ A,
                           np.eye(2 * n), f"eliminated block after update {k}")
