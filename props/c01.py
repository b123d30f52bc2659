"""C01: elementary and assembled matrices are the exact integrals of P1 basis functions."""

import numpy as np

from props.common import Ref, SQUARE5, TWO_TET, TWO_TRI, signed_det, strip
from vsym.world import harness


def compare(w, nodes, elements, local=True):
    from conmech.dynamics.factory.dynamics_factory_method import get_basic_matrices

    el = w.int_array(elements)
    vol, van, U, V, W, loc = get_basic_matrices(el, nodes)
    ref = Ref(w, nodes, elements)
    d = nodes.shape[1]
    w.prove_eq(vol, ref.vol, "element volumes")
    w.prove_eq(U, ref.U, "mass integrals of phi_i phi_j")
    for k in range(d):
        w.prove_eq(V[k], ref.V[k], f"integrals of phi_i d{k} phi_j")
        for l in range(d):
            w.prove_eq(W[k, l], ref.W[k, l], f"integrals of d{k} phi_i d{l} phi_j")
    if local:
        for e in range(len(elements)):
            w.prove_eq(loc[:, :, e], ref.loc[e], f"element matrix {e}")
    w.prove_eq(np.asarray(van).sum(axis=1), ref.phi, "nodal volumes")
    w.note("W", W)
    w.note("U", U)


@harness("C01", bounds="one triangle, 6 symbolic coordinates, either orientation, non-degenerate")
def tri_single(w):
    """all matrices of one arbitrary triangle"""
    X = w.reals("x", (3, 2), [[0, 0], [1, 0], [0, 1]])
    w.assume(w.ne(signed_det(X), 0))
    compare(w, X, [[0, 1, 2]])


@harness("C01", bounds="two triangles sharing an edge, 8 symbolic coordinates, any orientation")
def tri_pair(w):
    """assembly over two arbitrary triangles"""
    X = w.reals("x", (4, 2), TWO_TRI[0])
    for e in TWO_TRI[1]:
        w.assume(w.ne(signed_det(X[e]), 0))
    compare(w, X, TWO_TRI[1])


@harness("C01", bounds="one tetrahedron, 12 symbolic coordinates, any orientation")
def tet_single(w):
    """all matrices of one arbitrary tetrahedron"""
    X = w.reals("x", (4, 3), [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    w.assume(w.ne(signed_det(X), 0))
    compare(w, X, [[0, 1, 2, 3]], local=False)


@harness("C01", bounds="two tetrahedra sharing a face; apex nodes and a scale symbolic")
def tet_pair(w):
    """assembly over two tetrahedra"""
    X = w.consts(TWO_TET[0])
    a = w.reals("apex", (3,), TWO_TET[0][0])
    b = w.reals("apexb", (3,), TWO_TET[0][4])
    X[0] = a
    X[4] = b
    X = w.arr(X)
    for e in TWO_TET[1]:
        w.assume(w.ne(signed_det(X[e]), 0))
    compare(w, X, TWO_TET[1], local=False)


@harness("C01", bounds="30 nodes / 40 triangles, symbolic scaling in x and y and shift")
def tri_many(w):
    """assembly over a larger mesh"""
    N, EL = strip(5, 4)
    sx, sy = w.pos("sx", 1), w.pos("sy", 1)
    X = w.consts(N)
    X = w.arr(np.stack([X[:, 0] * sx, X[:, 1] * sy], axis=1))
    compare(w, X, EL)


@harness("C01", bounds="5 nodes / 4 triangles; symbolic interior node, arbitrary symbolic shift")
def tri_patch(w):
    """patch of four triangles around a symbolic interior node"""
    X = w.consts(SQUARE5[0])
    s = w.reals("s", 2, [3, -2])
    X = X + s
    X[4] = w.reals("c", 2, [4, -1])
    X = w.arr(X)
    for e in SQUARE5[1]:
        w.assume(w.gt(signed_det(X[e]), 0))
    compare(w, X, SQUARE5[1])
