"""C12: the boundary is found exactly and split by the user's predicates."""

import numpy as np

from props.common import (Marker, SQUARE5, TWO_TET, boundary_of, make_mesh, node_perm, signed_det,
                          strip)
from vsym.world import harness


def spec(w, X, el, table_c, table_d, mesh, others=()):
    """tables: boundary face (set of given nodes) -> truth of the predicate at its midpoint"""
    perm = node_perm(w, mesh, X)

    def back(faces):
        fs = [frozenset(perm[int(i)] for i in f) for f in np.asarray(faces)]
        w.prove(len(fs) == len(set(fs)), "no face is listed twice")
        return set(fs)

    bd = set(boundary_of(el))
    c = {f for f in bd if table_c[f]}
    d = {f for f in bd if table_d[f]}
    w.prove(back(mesh.contact_boundary) == c, "contact faces")
    w.prove(back(mesh.dirichlet_boundary) == d, "Dirichlet faces")
    w.prove(back(mesh.neumann_boundary) == bd - c - d, "Neumann faces are the remaining ones")
    if not c & d:
        w.prove(back(mesh.boundary_surfaces) == bd, "boundary faces belong to exactly one element")
        w.prove_int(mesh.boundary_surfaces_count, len(bd), "number of boundary faces")
    for name, tab in others:
        sel = {f for f in bd if tab[f]}
        b = mesh.boundaries.boundaries.get(name)
        if not sel:
            w.prove(b is None or len(b.surfaces) == 0, "empty named boundary")
            continue
        w.prove(back(b.surfaces) == sel, "faces of a named boundary")
        w.prove_int(sorted(perm[int(i)] for i in np.arange(len(X))[b.node_indices]),
                    sorted(set().union(*sel)), "nodes of a named boundary")
        w.prove_int(b.node_count, len(set().union(*sel)), "node count of a named boundary")


def build(w, X, el, tc, td, others=()):
    mk = Marker(w, X, el)
    t = lambda tab: mk.predicate({("f", f): v for f, v in tab.items()})  # noqa: E731
    kw = {n: (t(tab), lambda p: np.zeros(len(p))) for n, tab in others}
    return make_mesh(X, w.int_array(el), contact=t(tc), dirichlet=t(td), **kw)


@harness("C12", bounds="5 nodes / 4 triangles; every pair of predicates on the 4 boundary faces "
                       "(overlaps included)")
def square(w):
    """every classification of the faces"""
    X = w.consts(SQUARE5[0])
    bd = sorted(boundary_of(SQUARE5[1]), key=sorted)
    tc = {f: bool(w.flag(f"c{k}", k % 2)) for k, f in enumerate(bd)}
    td = {f: bool(w.flag(f"d{k}", 0)) for k, f in enumerate(bd)}
    spec(w, X, SQUARE5[1], tc, td, build(w, X, SQUARE5[1], tc, td))


@harness("C12", bounds="4 triangles, one symbolic node, one symbolic face flag")
def coordinates(w):
    """independent of the geometry"""
    X = w.consts(SQUARE5[0])
    X[0] = w.reals("x", (2,), SQUARE5[0][0])
    for e in SQUARE5[1]:
        if 0 in e:
            w.assume(w.gt(signed_det(X[e]), 0))
    bd = sorted(boundary_of(SQUARE5[1]), key=sorted)
    tc = {f: k == 0 and bool(w.flag("c0", 1)) for k, f in enumerate(bd)}
    td = {f: k == 2 for k, f in enumerate(bd)}
    spec(w, X, SQUARE5[1], tc, td, build(w, X, SQUARE5[1], tc, td))


@harness("C12", bounds="12 nodes / 12 triangles, 10 boundary faces, a hole-free strip in 2 element "
                       "orders and node orders inside elements; two named electric boundaries")
def named(w):
    """additional named boundaries"""
    N, el = strip(3, 2)
    X = w.consts(N)
    if w.choice("order", 2):
        el = [e[1:] + e[:1] for e in el[::-1]]
    bd = sorted(boundary_of(el), key=sorted)
    a, b, c = (bool(w.flag(f"q{j}", j % 2)) for j in range(3))
    tc = {f: k % 3 == 0 and a for k, f in enumerate(bd)}
    td = {f: k % 4 == 1 for k, f in enumerate(bd)}
    o1 = {f: k % 5 == 2 or (c and k % 3 == 0) for k, f in enumerate(bd)}
    o2 = {f: b and k in (1, 7) for k, f in enumerate(bd)}
    others = (("piezo_dirichlet_0", o1), ("piezo_dirichlet_1", o2))
    spec(w, X, el, tc, td, build(w, X, el, tc, td, others), others)


@harness("C12", bounds="ring: 8 nodes / 8 triangles around a hole, symbolic flags of 2 inner and "
                       "2 outer faces")
def hole(w):
    """inner boundaries are boundaries"""
    from fractions import Fraction as Fr

    N = [[Fr(0), Fr(0)], [Fr(3), Fr(1, 8)], [Fr(25, 8), Fr(3)], [Fr(-1, 8), Fr(23, 8)],
         [Fr(1), Fr(9, 8)], [Fr(17, 8), Fr(1)], [Fr(2), Fr(15, 8)], [Fr(7, 8), Fr(2)]]
    el = []
    for k in range(4):
        j = (k + 1) % 4
        el += [[k, j, 4 + k], [j, 4 + j, 4 + k]]
    X = w.consts(N)
    bd = sorted(boundary_of(el), key=sorted)
    fl = [bool(w.flag(f"c{k}", k % 2)) for k in range(4)]
    tc = {f: fl[k] if k < 2 else (fl[k - 4] if 6 <= k < 8 else False) for k, f in enumerate(bd)}
    td = {f: k in (3, 5) for k, f in enumerate(bd)}
    spec(w, X, el, tc, td, build(w, X, el, tc, td))


@harness("C12", bounds="two tetrahedra, 6 boundary faces, every contact predicate; every Dirichlet "
                       "predicate")
def tetrahedra(w):
    """three dimensions"""
    X = w.consts(TWO_TET[0])
    bd = sorted(boundary_of(TWO_TET[1]), key=sorted)
    none = {f: False for f in bd}
    t = {f: bool(w.flag(f"c{k}", k % 2)) for k, f in enumerate(bd)}
    spec(w, X, TWO_TET[1], t, none, build(w, X, TWO_TET[1], t, none))
    spec(w, X, TWO_TET[1], none, t, build(w, X, TWO_TET[1], none, t))


@harness("C12", bounds="strip of 30 x 20 cells (651 nodes, 1200 triangles, 100 boundary faces) given "
                       "with shuffled elements; every 3rd / 4th face, one symbolic flag")
def large(w):
    """many nodes and faces"""
    N, el = strip(30, 20)
    X = w.consts(N)
    n = len(el)
    el = [el[(7 * k + 3) % n] for k in range(n)]
    el = [e[k % 3:] + e[:k % 3] for k, e in enumerate(el)]
    bd = sorted(boundary_of(el), key=sorted)
    flag = bool(w.flag("q", 1))
    tc = {f: k % 3 == 0 and (flag or k > 5) for k, f in enumerate(bd)}
    td = {f: k % 4 == 1 and not k % 3 == 0 for k, f in enumerate(bd)}
    spec(w, X, el, tc, td, build(w, X, el, tc, td))
