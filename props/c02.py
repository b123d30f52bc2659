"""C02: elasticity and viscosity are the exact isotropic (Lame) bilinear forms, 2D and 3D."""

import numpy as np

from props.common import Ref, TWO_TET, TWO_TRI, bare_mesh, data, make_body, signed_det, strip
from vsym.world import harness


def props(kind, w):
    from conmech.properties import body_properties as bp

    mu, la = w.real("mu", 3), w.real("la", 5)
    th, ze = w.real("theta", 2), w.real("zeta", 7)
    rho = w.pos("rho", 2)
    if kind == "elastic":
        return bp.ElasticProperties(mass_density=rho, mu=mu, lambda_=la), mu, la, None, None
    return (
        bp.ViscoelasticProperties(mass_density=rho, mu=mu, lambda_=la, theta=th, zeta=ze),
        mu, la, th, ze,
    )


def rigid(nodes):
    n, d = nodes.shape
    out = []
    for a in range(d):
        v = np.empty(d * n, dtype=object)
        v.fill(0)
        v[a * n:(a + 1) * n] = 1
        out.append(v)
    for a in range(d):
        for b in range(a + 1, d):
            v = np.empty(d * n, dtype=object)
            v.fill(0)
            v[a * n:(a + 1) * n] = -nodes[:, b]
            v[b * n:(b + 1) * n] = nodes[:, a]
            out.append(v)
    return out


def check(w, X, el, kind, modes=True):
    p, mu, la, th, ze = props(kind, w)
    body = make_body(bare_mesh(X, w.int_array(el)), p)
    ref = Ref(w, X, el)
    A = data(body.dynamics.elasticity)
    w.prove_eq(A, ref.elasticity(mu, la), "elasticity form")
    if th is not None:
        w.prove_eq(data(body.dynamics.viscosity), ref.elasticity(th, ze), "viscosity form")
    else:
        w.prove(body.dynamics.viscosity is None, "no viscosity for purely elastic bodies")
    if modes:
        w.prove_eq(A, np.asarray(A).T, "symmetry")
        for k, r in enumerate(rigid(X)):
            w.prove_eq(np.asarray(A) @ r, np.zeros(len(A)), f"rigid mode {k} carries no stress")
    w.note("A", A)


@harness("C02", bounds="one arbitrary triangle (6 symbolic coordinates), symbolic moduli")
def tri_single(w):
    """elastic form on one triangle incl. symmetry and rigid modes"""
    X = w.reals("x", (3, 2), [[0, 0], [1, 0], [0, 1]])
    w.assume(w.ne(signed_det(X), 0))
    check(w, X, [[0, 1, 2]], "visco")


@harness("C02", bounds="two triangles, 8 symbolic coordinates, symbolic moduli")
def tri_pair(w):
    """elastic and viscous form assembled on two triangles"""
    X = w.reals("x", (4, 2), TWO_TRI[0])
    for e in TWO_TRI[1]:
        w.assume(w.gt(signed_det(X[e]), 0))
    check(w, X, TWO_TRI[1], "elastic", modes=False)


@harness("C02", bounds="one tetrahedron (12 symbolic coordinates), symbolic moduli")
def tet_single(w):
    """elastic form on one tetrahedron"""
    X = w.reals("x", (4, 3), [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    w.assume(w.ne(signed_det(X), 0))
    check(w, X, [[0, 1, 2, 3]], "visco", modes=False)


@harness("C02", bounds="two fixed generic tetrahedra, symbolic moduli and scale")
def tet_pair(w):
    """3D forms: symmetry and rigid modes"""
    s = w.pos("s", 1)
    X = w.arr(w.consts(TWO_TET[0]) * s)
    check(w, X, TWO_TET[1], "visco")


@harness("C02", bounds="30 nodes / 40 triangles, symbolic moduli and scale")
def tri_many(w):
    """forms on a larger mesh"""
    N, EL = strip(5, 4)
    s = w.pos("s", 1)
    X = w.arr(w.consts(N) * s)
    check(w, X, EL, "visco", modes=False)
