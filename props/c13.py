"""C13: every boundary face carries its own outward unit normal."""

import numpy as np

from props.common import (Marker, SQUARE5, TWO_TET, boundary_of, kuhn, make_mesh, node_perm, signed_det,
                          strip)
from vsym.world import harness


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def one(w, X, face, opposite, nrm, what):
    """nrm is the outward unit normal of the face whose element has the node `opposite`."""
    f = sorted(face)
    w.prove_eq(dot(nrm, nrm), 1, f"{what}: unit length")
    for i in f[1:]:
        w.prove_eq(dot(nrm, X[i] - X[f[0]]), 0, f"{what}: perpendicular to the face")
    w.prove(w.lt(dot(nrm, X[opposite] - X[f[0]]), 0), f"{what}: points outward")


def spec(w, X, el, mesh):
    perm = node_perm(w, mesh, X)
    bd = boundary_of(el)
    cb, cn = np.asarray(mesh.contact_boundary), np.asarray(mesh.boundaries.contact_normals)
    w.prove_int(len(cb), len(cn), "one normal per contact face")
    for face, nrm in zip(cb, cn):
        f = frozenset(perm[int(i)] for i in face)
        one(w, X, f, bd[f][1], nrm, "contact normal")
    sb, sn = np.asarray(mesh.boundary_surfaces), np.asarray(mesh.boundaries.surface_normals)
    w.prove_int(len(sb), len(sn), "one normal per boundary face")
    for face, nrm in zip(sb, sn):
        f = frozenset(perm[int(i)] for i in face)
        one(w, X, f, bd[f][1], nrm, "boundary normal")


def build(w, X, el, kinds):
    """kinds: face -> 0 Neumann, 1 contact, 2 Dirichlet"""
    mk = Marker(w, X, el)
    tab = {1: {}, 2: {}}
    for f, k in kinds.items():
        if k:
            tab[k][("f", f)] = True
            for i in f:
                tab[k][("n", i)] = True
    return make_mesh(X, w.int_array(el), contact=mk.predicate(tab[1]),
                     dirichlet=mk.predicate(tab[2]))


@harness("C13", bounds="5 nodes / 4 triangles, every assignment of contact / Neumann / Dirichlet "
                       "to the 4 faces")
def square(w):
    """all mixtures of boundary kinds"""
    X = w.consts(SQUARE5[0])
    bd = sorted(boundary_of(SQUARE5[1]), key=sorted)
    kinds = {f: w.choice(f"k{j}", 3) for j, f in enumerate(bd)}
    spec(w, X, SQUARE5[1], build(w, X, SQUARE5[1], kinds))


@harness("C13", bounds="one triangle with 6 symbolic coordinates in both orientations, 3 mixtures "
                       "of kinds")
def triangle(w):
    """any triangle"""
    X = w.reals("x", (3, 2), [[0, 0], [1, 0], [0, 1]])
    w.assume(w.ne(signed_det(X), 0))
    bd = sorted(boundary_of([[0, 1, 2]]), key=sorted)
    mix = [(1, 1, 1), (0, 1, 2), (2, 0, 1)][w.choice("mix", 3)]
    spec(w, X, [[0, 1, 2]], build(w, X, [[0, 1, 2]], dict(zip(bd, mix))))


@harness("C13", bounds="4 triangles, one symbolic node, contact and Dirichlet faces mixed")
def moved_node(w):
    """one node anywhere"""
    X = w.consts(SQUARE5[0])
    X[0] = w.reals("x", (2,), SQUARE5[0][0])
    for e in SQUARE5[1]:
        if 0 in e:
            w.assume(w.gt(signed_det(X[e]), 0))
    bd = sorted(boundary_of(SQUARE5[1]), key=sorted)
    spec(w, X, SQUARE5[1], build(w, X, SQUARE5[1], dict(zip(bd, (1, 2, 0, 1)))))


@harness("C13", bounds="20 nodes / 24 triangles with re-entrant numbering, 4 mixtures of kinds")
def larger(w):
    """larger mesh"""
    N, el = strip(4, 3)
    n = len(N)
    p = [(7 * i) % n for i in range(n)]
    inv = [p.index(i) for i in range(n)]
    X = w.consts([N[i] for i in p])
    el = [[inv[i] for i in e] for e in el]
    bd = sorted(boundary_of(el), key=sorted)
    k = w.choice("mix", 4)
    kinds = {f: [(j * j) % 3, j % 3, 1 if j < 5 else 2, 1][k] for j, f in enumerate(bd)}
    spec(w, X, el, build(w, X, el, kinds))


@harness("C13", bounds="ring around a hole: 8 nodes / 8 triangles, inner faces in contact")
def hole(w):
    """normals of a hole point into the hole"""
    from fractions import Fraction as Fr

    N = [[Fr(0), Fr(0)], [Fr(3), Fr(1, 8)], [Fr(25, 8), Fr(3)], [Fr(-1, 8), Fr(23, 8)],
         [Fr(1), Fr(9, 8)], [Fr(17, 8), Fr(1)], [Fr(2), Fr(15, 8)], [Fr(7, 8), Fr(2)]]
    el = []
    for k in range(4):
        j = (k + 1) % 4
        el += [[k, j, 4 + k], [j, 4 + j, 4 + k]]
    X = w.consts(N)
    kinds = {f: 1 if min(f) > 3 else 2 * (0 in f) for f in boundary_of(el)}
    spec(w, X, el, build(w, X, el, kinds))


@harness("C13", bounds="two tetrahedra, symbolic positive scale per axis, one boundary kind for "
                       "all faces (contact, Neumann or Dirichlet)")
def tetrahedra(w):
    """three dimensions, uniform boundary"""
    X = w.consts(TWO_TET[0])
    X = X * w.arr([w.pos("sx", 1), w.pos("sy", 1), w.pos("sz", 1)])
    k = w.choice("kind", 3)
    spec(w, X, TWO_TET[1], build(w, X, TWO_TET[1], {f: k for f in boundary_of(TWO_TET[1])}))


@harness("C13", bounds="unit cube of 6 tetrahedra with symbolic size, one boundary kind")
def cube(w):
    """three dimensions, coplanar faces"""
    N, el = kuhn()
    X = w.consts(N) * w.pos("s", 2)
    k = w.choice("kind", 3)
    spec(w, X, el, build(w, X, el, {f: k for f in boundary_of(el)}))


@harness("C13", bounds="unit cube of 6 tetrahedra, any one side in contact, others free", known=True)
def cube_mixed(w):
    """three dimensions, mixed boundary (known finding)"""
    N, el = kuhn()
    X = w.consts(N) * w.pos("s", 2)
    k = w.choice("side", 6)
    spec(w, X, el, build(w, X, el, {f: int(all(N[i][k // 2] == k % 2 for i in f))
                                    for f in boundary_of(el)}))
