"""C05: the relaxation operator always belongs to the requested time."""

import numpy as np

from props.common import Ref, SQUARE5, TWO_TRI, bare_mesh, data, make_body, signed_det, strip
from vsym.world import harness


def tensor_law(w, name="c"):
    a, b = w.reals(name + "a", (2, 2, 2)), w.reals(name + "b", (2, 2, 2))
    return lambda t: w.arr(a + t * b)


def body_of(w, X, el, law):
    from conmech.properties.body_properties import ElasticRelaxationProperties

    mu, la = w.real("mu", 3), w.real("la", 5)
    p = ElasticRelaxationProperties(mass_density=w.pos("rho", 2), mu=mu, lambda_=la,
                                    relaxation=law)
    return make_body(bare_mesh(X, w.int_array(el)), p), mu, la


@harness("C05", bounds="one triangle (6 symbolic coordinates), symbolic 2x2x2 tensor, one time")
def tensor(w):
    """the operator is the contraction of the tensor with the gradient integrals"""
    X = w.reals("x", (3, 2), [[0, 0], [1, 0], [0, 1]])
    w.assume(w.ne(signed_det(X), 0))
    law = tensor_law(w)
    body, _, _ = body_of(w, X, [[0, 1, 2]], law)
    t = w.real("t", 1)
    R = data(body.dynamics.relaxation(t))
    w.prove_eq(R, Ref(w, X, [[0, 1, 2]]).relaxation(law(t)), "relaxation operator")
    w.note("R", R)


@harness("C05", bounds="two triangles; isotropic tensor (2 symbolic moduli)")
def isotropic(w):
    """an isotropic relaxation tensor gives the elasticity form with its moduli"""
    X = w.reals("x", (4, 2), TWO_TRI[0])
    for e in TWO_TRI[1]:
        w.assume(w.gt(signed_det(X[e]), 0))
    m, l = w.real("m", 2), w.real("l", 7)
    z = [[[2 * m + l, l], [m, m]], [[m, m], [l, 2 * m + l]]]
    body, _, _ = body_of(w, X, TWO_TRI[1], lambda t: w.arr(z))
    w.prove_eq(data(body.dynamics.relaxation(0)), Ref(w, X, TWO_TRI[1]).elasticity(m, l),
               "isotropic relaxation")


@harness("C05", bounds="4 triangles, 4 consecutive requests at arbitrary (also repeated or "
                       "decreasing) symbolic times; symbolic tensor, any one of its 8 entries "
                       "varying affinely with time")
def history(w):
    """every request of a history returns the operator of its own time"""
    X = w.consts(SQUARE5[0])
    a, b = w.reals("a", (2, 2, 2)), w.real("b", 2)
    k = w.choice("entry", 8)

    def law(t):
        c = w.arr(a).copy()
        c[k // 4, (k // 2) % 2, k % 2] = c[k // 4, (k // 2) % 2, k % 2] + t * b
        return c

    body, _, _ = body_of(w, X, SQUARE5[1], law)
    ref = Ref(w, X, SQUARE5[1])
    for j in range(4):
        t = w.real(f"t{j}", j)
        R = data(body.dynamics.relaxation(t))
        w.prove_eq(R, ref.relaxation(law(t)), f"relaxation of request {j}")


@harness("C05", bounds="4 triangles, request / density update / request, symbolic densities")
def reinitialised(w):
    """after an update of element densities the operator uses the updated matrices"""
    X = w.consts(SQUARE5[0])
    law = tensor_law(w)
    body, mu, la = body_of(w, X, SQUARE5[1], law)
    t, s = w.real("t", 1), w.real("s", 1)
    body.dynamics.relaxation(t)
    rho = w.reals("d", (4,), [1, 2, 3, 4])
    body.dynamics.reinitialize_matrices(rho)
    ref = Ref(w, X, SQUARE5[1], density=rho)
    w.prove_eq(data(body.dynamics.relaxation(s)), ref.relaxation(law(s)), "after density update")
    w.prove_eq(data(body.dynamics.elasticity), ref.elasticity(mu, la), "elasticity after update")
    body.dynamics.reinitialize_matrices()
    ref = Ref(w, X, SQUARE5[1])
    w.prove_eq(data(body.dynamics.relaxation(s)), ref.relaxation(law(s)), "after reset")


@harness("C05", bounds="30 nodes / 40 triangles, symbolic tensor")
def many(w):
    """operator on a larger mesh"""
    N, EL = strip(5, 4)
    X = w.consts(N)
    law = tensor_law(w)
    body, _, _ = body_of(w, X, EL, law)
    t = w.real("t", 1)
    w.prove_eq(data(body.dynamics.relaxation(t)), Ref(w, X, EL).relaxation(law(t)), "operator")


@harness("C05", bounds="every property class without relaxation")
def absent(w):
    """bodies without relaxation refuse the request"""
    from conmech.properties import body_properties as bp

    X = w.consts(TWO_TRI[0])
    for p in (bp.ElasticProperties(1, 2, 3), bp.ViscoelasticProperties(1, 2, 3, 4, 5),
              bp.MembraneProperties(1, 2)):
        body = make_body(bare_mesh(X, w.int_array(TWO_TRI[1])), p)
        w.prove(w.expect_raises(lambda: body.dynamics.relaxation(0), TypeError), "refused")


_ = np
