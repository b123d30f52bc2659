"""C03: scalar operators (mass, Poisson/wave, conductivity, permittivity) are exact integrals."""

import numpy as np

from props.common import Ref, TWO_TET, TWO_TRI, bare_mesh, data, make_body, signed_det, strip
from vsym.world import harness


def geometry(w, d, size):
    if d == 2 and size == "small":
        X = w.reals("x", (4, 2), TWO_TRI[0])
        el = TWO_TRI[1]
        for e in el:
            w.assume(w.ne(signed_det(X[e]), 0))
        return X, el
    if d == 3 and size == "one":
        X = w.reals("x", (4, 3), [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
        w.assume(w.ne(signed_det(X), 0))
        return X, [[0, 1, 2, 3]]
    if d == 3:
        s = w.pos("s", 1)
        return w.arr(w.consts(TWO_TET[0]) * s), TWO_TET[1]
    N, el = strip(4, 3)
    s = w.pos("s", 1)
    return w.arr(w.consts(N) * s), el


def membrane(w, d, size):
    from conmech.properties import body_properties as bp

    X, el = geometry(w, d, size)
    rho, c = w.real("rho", 2), w.real("c", 3)
    body = make_body(bare_mesh(X, w.int_array(el)),
                     bp.MembraneProperties(mass_density=rho, propagation=c))
    ref = Ref(w, X, el)
    dyn = body.dynamics
    w.prove_eq(data(dyn.acceleration_operator), ref.mass(rho), "mass matrix, density-weighted")
    w.prove_eq(data(dyn.acceleration_operator.SM1), rho * ref.U, "scalar block of the mass matrix")
    P = data(dyn.poisson_operator)
    w.prove_eq(P, c * c * ref.laplace(), "c^2 times the Dirichlet form")
    w.prove_eq(P, np.asarray(P).T, "symmetric")
    w.prove_eq(np.asarray(P).sum(axis=1), np.zeros(len(X)), "constants carry no energy")
    w.note("P", P)


def thermal(w, d, size):
    from conmech.properties import body_properties as bp

    X, el = geometry(w, d, size)
    K = w.reals("K", (d, d))
    B = w.reals("B", (d, d))
    mu, la = w.real("mu"), w.real("la")
    body = make_body(
        bare_mesh(X, w.int_array(el)),
        bp.ViscoelasticTemperatureProperties(
            mass_density=w.real("rho"), mu=mu, lambda_=la, theta=w.real("th"), zeta=w.real("ze"),
            thermal_expansion=B, thermal_conductivity=K),
    )
    ref = Ref(w, X, el)
    w.prove_eq(data(body.dynamics.thermal_conductivity), ref.contract(K), "conductivity form")
    w.note("K", data(body.dynamics.thermal_conductivity))


@harness("C03", bounds="two arbitrary triangles, symbolic density and speed")
def membrane_2d(w):
    """membrane operators in 2D"""
    membrane(w, 2, "small")


@harness("C03", bounds="one arbitrary tetrahedron, symbolic density and speed")
def membrane_3d_one(w):
    """membrane operators in 3D"""
    membrane(w, 3, "one")


@harness("C03", bounds="two tetrahedra, symbolic scale, density and speed")
def membrane_3d(w):
    """membrane operators in 3D (assembly)"""
    membrane(w, 3, "small")


@harness("C03", bounds="20 nodes / 24 triangles, symbolic scale, density, speed")
def membrane_many(w):
    """membrane operators on a larger mesh"""
    membrane(w, 2, "many")


@harness("C03", bounds="two arbitrary triangles, arbitrary (asymmetric) tensors")
def conductivity_2d(w):
    """thermal conductivity in 2D"""
    thermal(w, 2, "small")


@harness("C03", bounds="one arbitrary tetrahedron, arbitrary tensors")
def conductivity_3d(w):
    """thermal conductivity in 3D"""
    thermal(w, 3, "one")


@harness("C03", bounds="two arbitrary triangles, arbitrary (asymmetric) tensors")
def permittivity_2d(w):
    """permittivity in 2D"""
    from conmech.properties import body_properties as bp

    X, el = geometry(w, 2, "small")
    K = w.reals("K", (2, 2))
    body = make_body(
        bare_mesh(X, w.int_array(el)),
        bp.ViscoelasticPiezoelectricProperties(
            mass_density=w.real("rho"), mu=w.real("mu"), lambda_=w.real("la"), theta=w.real("th"),
            zeta=w.real("ze"), piezoelectricity=w.reals("e", (2, 2, 2)), permittivity=K),
    )
    ref = Ref(w, X, el)
    w.prove_eq(data(body.dynamics.permittivity), ref.contract(K), "permittivity form")
    w.prove_eq(data(body.dynamics.acceleration_operator), ref.mass(body.properties.mass_density),
               "mass matrix, density-weighted")
