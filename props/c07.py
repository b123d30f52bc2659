"""C07: integrated loads."""

import numpy as np

from props.common import (Marker, Ref, SQUARE5, TWO_TET, TWO_TRI, bare_mesh, boundary_of, cross3,
                          make_body, make_mesh, node_perm, poly_field, signed_det, strip)
from vsym.world import harness


def membrane():
    from conmech.properties.body_properties import MembraneProperties

    return MembraneProperties(mass_density=1, propagation=1)


def measure(w, X):
    """Length / area of a face."""
    if len(X) == 2:
        e = X[1] - X[0]
        return w.sqrt(e[0] * e[0] + e[1] * e[1])
    c = cross3(X[1] - X[0], X[2] - X[0])
    return w.sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) / 2


def load(body, t, k):
    """integrated load as (nodes, components)"""
    v = np.asarray(body.dynamics.force.integrate(t))
    return v.reshape(k, -1).T


def setup(w, X, el, neumann=None, other="dirichlet"):
    """Body whose boundary faces listed in `neumann` (table face -> truth) are free."""
    mk = Marker(w, X, el)
    table = {}
    for f in boundary_of(el):
        if neumann is not None:
            table[("f", f)] = not bool(neumann[f])
    kw = {other: mk.predicate(table)}
    mesh = make_mesh(X, w.int_array(el), **kw)
    return make_body(mesh, membrane()), table


def spec(w, X, el, f, g, table, t, body, k, nodal=True):
    d = X.shape[1]
    perm = node_perm(w, body.mesh, X)
    got = np.empty((len(X), k), dtype=object)
    L = load(body, t, k)
    w.prove_int(L.shape, (len(X), k), "one load per node and component")
    for i, p in enumerate(perm):
        got[p] = L[i]
    ref = Ref(w, X, el)
    total = 0
    nod = np.empty((len(X), k), dtype=object)
    nod.fill(0)
    for e, E in enumerate(el):
        m = sum(f(X[i], t) for i in E) / (d + 1)
        total = total + ref.vol[e] * m
        for i in E:
            nod[i] = nod[i] + ref.vol[e] / (d + 1) * f(X[i], t)
    for F in boundary_of(el):
        if not table.get(("f", F), False):
            S = measure(w, X[sorted(F)])
            for i in F:
                total = total + S / d * g(X[i], t)
                nod[i] = nod[i] + S / d * g(X[i], t)
    if nodal:
        w.prove_eq(got, nod, "load of every node (uniform densities)")
    w.prove_eq(sum(got[i] for i in range(len(X))), total, "total load")
    return got


@harness("C07", bounds="one triangle (6 symbolic coordinates), uniform body force and traction, "
                       "every subset of traction-free faces")
def uniform_tri(w):
    """uniform densities are integrated exactly, node by node"""
    X = w.reals("x", (3, 2), [[0, 0], [1, 0], [0, 1]])
    w.assume(w.gt(signed_det(X), 0))
    el = [[0, 1, 2]]
    nm = {f: w.flag(f"neu{k}", 1) for k, f in enumerate(sorted(boundary_of(el), key=sorted))}
    body, table = setup(w, X, el, nm)
    a, b = w.reals("f", (2,)), w.reals("g", (2,))
    f, g = (lambda x, t: a), (lambda x, t: b)
    body.dynamics.force.inner.source, body.dynamics.force.outer.source = f, g
    spec(w, X, el, f, g, table, 0, body, 2)


@harness("C07", bounds="two triangles, one symbolic node, uniform vector densities, "
                       "every subset of traction-free faces")
def uniform_pair(w):
    """uniform densities on two triangles"""
    X = w.consts(TWO_TRI[0])
    X[0] = w.reals("x", (2,), [0, 0])
    el = TWO_TRI[1]
    w.assume(w.gt(signed_det(X[el[0]]), 0))
    nm = {f: w.flag(f"neu{k}", 1) for k, f in enumerate(sorted(boundary_of(el), key=sorted))}
    body, table = setup(w, X, el, nm, other="contact")
    a, b = w.reals("f", (2,)), w.reals("g", (2,))
    f, g = (lambda x, t: a), (lambda x, t: b)
    body.dynamics.force.inner.source, body.dynamics.force.outer.source = f, g
    spec(w, X, el, f, g, table, 0, body, 2)


@harness("C07", bounds="two tetrahedra, symbolic scale, uniform densities, 3 symbolic face flags")
def uniform_tet(w):
    """uniform densities in 3D"""
    X = w.consts(TWO_TET[0]) * w.pos("s", 1)
    el = TWO_TET[1]
    bd = sorted(boundary_of(el), key=sorted)
    nm = {f: (w.flag(f"neu{k}", 1) if k < 3 else k % 2) for k, f in enumerate(bd)}
    body, table = setup(w, X, el, nm)
    a, b = w.reals("f", (3,)), w.reals("g", (3,))
    f, g = (lambda x, t: a), (lambda x, t: b)
    body.dynamics.force.inner.source, body.dynamics.force.outer.source = f, g
    spec(w, X, el, f, g, table, 0, body, 3)


@harness("C07", bounds="two triangles / 4 triangles, fields affine in space and time with "
                       "symbolic coefficients, 1 and 2 components")
def conserved(w):
    """the total load equals the integral of the (interpolated) densities"""
    for name, (N, el), k in (("a", TWO_TRI, 2), ("b", SQUARE5, 1)):
        X = w.consts(N)
        nm = {f: j % 2 == 0 for j, f in enumerate(sorted(boundary_of(el), key=sorted))}
        body, table = setup(w, X, el, nm)
        f, g = poly_field(w, "f" + name, 2, k), poly_field(w, "g" + name, 2, k)
        body.dynamics.force.inner.source, body.dynamics.force.outer.source = f, g
        spec(w, X, el, f, g, table, w.real("t" + name, 1), body, k, nodal=False)


@harness("C07", bounds="two tetrahedra, affine fields with symbolic coefficients")
def conserved_3d(w):
    """total load in 3D"""
    X = w.consts(TWO_TET[0])
    el = TWO_TET[1]
    nm = {f: j % 2 == 0 for j, f in enumerate(sorted(boundary_of(el), key=sorted))}
    body, table = setup(w, X, el, nm)
    f, g = poly_field(w, "f", 3, 3), poly_field(w, "g", 3, 3)
    body.dynamics.force.inner.source, body.dynamics.force.outer.source = f, g
    spec(w, X, el, f, g, table, w.real("t", 1), body, 3, nodal=False)


@harness("C07", bounds="4 triangles; 4 requests at arbitrary symbolic times (repeats and "
                       "decreases included), then replaced sources after clear()")
def history(w):
    """every request is answered for its own time"""
    X = w.consts(SQUARE5[0])
    el = SQUARE5[1]
    mk = Marker(w, X, el)
    mesh = make_mesh(X, w.int_array(el), dirichlet=mk.predicate({}))

    def fresh():
        b = make_body(mesh, membrane())
        return b

    f, g = poly_field(w, "f", 2, 1), poly_field(w, "g", 2, 1)
    body = fresh()
    fo = body.dynamics.force
    fo.inner.source, fo.outer.source = f, g

    def expect(f, g, t):
        b = fresh()
        b.dynamics.force.inner.source, b.dynamics.force.outer.source = f, g
        return b.dynamics.force.integrate(t)

    for k in range(4):
        t = w.real(f"t{k}", k)
        w.prove_eq(fo.integrate(t), expect(f, g, t), f"request {k}")
    f2, g2 = poly_field(w, "ff", 2, 1), poly_field(w, "gg", 2, 1)
    fo.inner.source, fo.outer.source = f2, g2
    fo.clear()
    w.prove_eq(fo.integrate(t), expect(f2, g2, t), "after clear")


@harness("C07", bounds="linear in the densities: 12 boundary faces, symbolic nodal values")
def superposition(w):
    """loads of a larger mesh: linear in the densities, inner and outer parts independent"""
    N, el = strip(3, 2)
    X = w.consts(N)
    mk = Marker(w, X, el)
    bd = sorted(boundary_of(el), key=sorted)
    table = {("f", f): j % 3 == 0 for j, f in enumerate(bd)}
    mesh = make_mesh(X, w.int_array(el), contact=mk.predicate(table))
    body = make_body(mesh, membrane())
    find = w.locate([(i, X[i]) for i in range(len(X))])
    a, b = w.reals("a", (len(X), 1)), w.reals("b", (len(X), 1))
    f, g = (lambda x, t: a[find(x)]), (lambda x, t: b[find(x)])
    body.dynamics.force.inner.source, body.dynamics.force.outer.source = f, g
    spec(w, X, el, f, g, table, 0, body, 1, nodal=False)


@harness("C07", bounds="temperature source of a Poisson problem, default (zero) loads of every "
                       "problem family, built through the public solvers")
def problem_sources(w):
    """problem sources reach the integrated loads; defaults are zero loads"""
    from props.common import make_poisson, make_static, make_wave

    X = w.consts(SQUARE5[0])
    el = SQUARE5[1]
    c = w.real("c", 2)
    h = w.real("h", 3)
    s = make_poisson(w, X, el, internal=lambda x, t=None: w.arr([c]),
                     outer=lambda x, t=None: w.arr([h]))
    ref = Ref(w, X, el)
    perm = node_perm(w, s.body.mesh, X)
    T = s.body.dynamics.temperature.integrate(0)
    per = sum(measure(w, X[sorted(F)]) for F in boundary_of(el))
    w.prove_eq(sum(T), sum(ref.vol) * c + per * h, "total heat")
    inner = [4]
    for i, p in enumerate(perm):
        if p in inner:
            w.prove_eq(T[i], ref.phi[p] * c, "interior heat")
    for mkr, k in ((make_poisson, 1), (make_wave, 1), (make_static, 2)):
        s = mkr(w, X, el, bare=True)
        fo = s.body.dynamics.temperature if mkr is make_poisson else s.body.dynamics.force
        z = fo.integrate(0)
        w.prove_eq(z, np.zeros(k * len(X)), "default load is zero")


_ = bare_mesh


def _tables(faces, kinds):
    """Tables of a realistic user: the nodes of a contact / Dirichlet face have its kind too."""
    out = {"contact": {}, "dirichlet": {}}
    for f, k in zip(faces, kinds):
        if k != "neumann":
            out[k][("f", f)] = True
            for i in f:
                out[k][("n", i)] = True
    return out


def _mixed(w, X, el, kinds, k, nodal):
    faces = sorted(boundary_of(el), key=sorted)
    mk = Marker(w, X, el)
    tabs = _tables(faces, kinds)
    mesh = make_mesh(X, w.int_array(el), **{n: mk.predicate(t) for n, t in tabs.items()})
    body = make_body(mesh, membrane())
    if nodal:
        a, b = w.reals("f", (k,)), w.reals("g", (k,))
        f, g = (lambda x, t: a), (lambda x, t: b)
    else:
        f, g = poly_field(w, "f", X.shape[1], k), poly_field(w, "g", X.shape[1], k)
    body.dynamics.force.inner.source, body.dynamics.force.outer.source = f, g
    both = {**tabs["contact"], **tabs["dirichlet"]}
    spec(w, X, el, f, g, both, w.real("t", 1), body, k, nodal=nodal)


@harness("C07", bounds="4 triangles; every assignment of contact / Dirichlet / free to the 4 faces, "
                       "nodes of a face share its kind, uniform densities")
def shared_nodes(w):
    """nodes shared by loaded and other faces carry exactly the share of the loaded faces"""
    N, el = SQUARE5
    kinds = [("contact", "dirichlet", "neumann")[w.choice(f"k{i}", 3)] for i in range(4)]
    _mixed(w, w.consts(N), el, kinds, 2, True)


@harness("C07", bounds="20 nodes / 24 triangles, contact, Dirichlet and free faces mixed (4 patterns), "
                       "fields affine in space and time with symbolic coefficients")
def shared_nodes_many(w):
    """total load of a larger mesh with all boundary kinds"""
    N, el = strip(4, 3)
    n = len(boundary_of(el))
    p = w.choice("pattern", 4)
    kinds = [("contact", "neumann", "dirichlet", "neumann")[(i * (p + 1) // 2 + p) % 4]
             for i in range(n)]
    _mixed(w, w.consts(N), el, kinds, 2, False)


@harness("C07", bounds="two tetrahedra, contact / Dirichlet / free faces mixed (3 patterns), "
                       "symbolic uniform densities")
def shared_nodes_3d(w):
    """loads of a solid with all boundary kinds"""
    N, el = TWO_TET
    p = w.choice("pattern", 3)
    kinds = [("neumann", "contact", "dirichlet")[(i + p) % 3] for i in range(6)]
    _mixed(w, w.consts(N), el, kinds, 3, True)
