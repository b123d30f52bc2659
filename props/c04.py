"""C04: coupling operators (thermal expansion, piezoelectricity) are exact, incl. transposes."""

from props.c03 import geometry
from props.common import Ref, bare_mesh, data, make_body
from vsym.world import harness


def thermal(w, d, size):
    from conmech.properties import body_properties as bp

    X, el = geometry(w, d, size)
    B = w.reals("B", (d, d))
    body = make_body(
        bare_mesh(X, w.int_array(el)),
        bp.ViscoelasticTemperatureProperties(
            mass_density=w.real("rho"), mu=w.real("mu"), lambda_=w.real("la"), theta=w.real("th"),
            zeta=w.real("ze"), thermal_expansion=B, thermal_conductivity=w.reals("K", (d, d))),
    )
    ref = Ref(w, X, el)
    T = data(body.dynamics.thermal_expansion)
    n = len(X)
    w.prove_eq(T, ref.expansion(B), "thermal expansion operator")
    th = w.reals("theta_n", n)
    v = w.reals("v_n", d * n)
    # power identity: the work of thermal stress equals minus the heat it consumes
    dyn = body.dynamics
    w.prove_eq(v @ (dyn.thermal_expansion.T @ th), th @ (dyn.thermal_expansion @ v),
               "expansion and its transpose are adjoint")
    w.note("T", T)


@harness("C04", bounds="two arbitrary triangles, arbitrary tensor")
def expansion_2d(w):
    """thermal expansion in 2D"""
    thermal(w, 2, "small")


@harness("C04", bounds="one arbitrary tetrahedron, arbitrary tensor")
def expansion_3d(w):
    """thermal expansion in 3D"""
    thermal(w, 3, "one")


@harness("C04", bounds="20 nodes / 24 triangles, symbolic scale, arbitrary tensor")
def expansion_many(w):
    """thermal expansion on a larger mesh"""
    thermal(w, 2, "many")


def piezo(w, size):
    from conmech.properties import body_properties as bp

    X, el = geometry(w, 2, size)
    e = w.reals("e", (2, 2, 2))
    body = make_body(
        bare_mesh(X, w.int_array(el)),
        bp.ViscoelasticPiezoelectricProperties(
            mass_density=w.real("rho"), mu=w.real("mu"), lambda_=w.real("la"), theta=w.real("th"),
            zeta=w.real("ze"), piezoelectricity=e, permittivity=w.reals("K", (2, 2))),
    )
    ref = Ref(w, X, el)
    n = len(X)
    P = data(body.dynamics.piezoelectricity)
    w.prove_eq(P, ref.piezo(e), "piezoelectric coupling operator")
    ph = w.reals("phi_n", n)
    u = w.reals("u_n", 2 * n)
    dyn = body.dynamics
    w.prove_eq(u @ (dyn.piezoelectricity.T @ ph), ph @ (dyn.piezoelectricity @ u),
               "coupling and its transpose are adjoint")
    w.note("P", P)


@harness("C04", bounds="two arbitrary triangles, arbitrary tensor")
def piezo_2d(w):
    """piezoelectric coupling"""
    piezo(w, "small")


@harness("C04", bounds="20 nodes / 24 triangles, symbolic scale, arbitrary tensor")
def piezo_many(w):
    """piezoelectric coupling on a larger mesh"""
    piezo(w, "many")
