"""C14: mesh preparation: stray nodes, edges, translation, imported arrays."""

import numpy as np

from props.common import (SQUARE5, TWO_TET, TWO_TRI, boundary_of, make_mesh, node_perm,
                          raw_mesh_description, strip)
from vsym.world import harness


def spec(w, X, el, mesh):
    """X, el: the given nodes that are used by elements, and the elements over them"""
    n = len(X)
    w.prove_int(len(mesh.nodes), n, "exactly the used nodes are kept")
    perm = node_perm(w, mesh, X)
    w.prove(None not in perm and sorted(perm) == list(range(n)), "kept nodes")
    got = sorted(tuple(sorted(perm[int(i)] for i in e)) for e in mesh.elements)
    w.prove_int(got, sorted(tuple(sorted(e)) for e in el), "elements refer to their own nodes")
    pairs = {tuple(sorted((perm[int(a)], perm[int(b)]))) for a, b in mesh.edges}
    want = {tuple(sorted((a, b))) for e in el for a in e for b in e if a != b}
    w.prove(pairs == want, "edges join nodes of one element")
    w.prove_int([len(mesh.edges), mesh.edges_number], [len(want)] * 2, "every edge once")


def pad(w, X, el, places, name="stray"):
    """insert stray nodes (symbolic coordinates) at the given places"""
    places = sorted(places)
    total = len(X) + len(places)
    rows, pos, used = [], [], 0
    for i in range(total):
        if i in places:
            rows.append(w.reals(f"{name}{i}", (X.shape[1],), [50 + i] * X.shape[1]))
        else:
            rows.append(X[used])
            pos.append(i)
            used += 1
    return w.arr(np.stack(rows)), [[pos[i] for i in e] for e in el]


@harness("C14", bounds="4 triangles + up to 3 stray nodes at every combination of 6 places "
                       "(leading, trailing, adjacent), symbolic stray coordinates")
def stray(w):
    """nodes that belong to no element are dropped and the rest is renumbered consistently"""
    X = w.consts(SQUARE5[0])
    sets = [[], [0], [5], [0, 1], [4, 5, 6], [2], [1, 3], [0, 6], [0, 4, 7], [5, 6], [2, 3, 4]]
    places = sets[w.choice("places", len(sets))]
    Y, el = pad(w, X, SQUARE5[1], places)
    for i in places:
        # stray nodes do not coincide with used ones (they may coincide with each other)
        w.assume(w.gt(Y[i, 0], 10))
    mesh = make_mesh(Y, w.int_array(el))
    spec(w, X, SQUARE5[1], mesh)


@harness("C14", bounds="two tetrahedra + stray nodes at 4 combinations of places")
def stray_3d(w):
    """three dimensions"""
    X = w.consts(TWO_TET[0])
    places = [[0], [5], [2, 3], [0, 1, 6]][w.choice("places", 4)]
    Y, el = pad(w, X, TWO_TET[1], places)
    for i in places:
        w.assume(w.gt(Y[i, 0], 10))
    spec(w, X, TWO_TET[1], make_mesh(Y, w.int_array(el)))


@harness("C14", bounds="two triangles with 8 symbolic coordinates, symbolic target position")
def translated(w):
    """a requested position puts the lower corner of the bounding box there, rigidly"""
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh
    from props.common import signed_det

    X = w.reals("x", (4, 2), TWO_TRI[0])
    for e in TWO_TRI[1]:
        w.assume(w.gt(signed_det(X[e]), 0))
    # one of the orders of the coordinates; the lowest node per axis is a symbolic choice
    for c in range(2):
        k = w.choice(f"low{c}", 4)
        for i in range(4):
            w.assume(w.le(X[k, c], X[i, c]))
    p = w.reals("p", (2,), [3, -2])
    d = raw_mesh_description(X, w.int_array(TWO_TRI[1]))
    d.initial_position = p
    mesh = Mesh(d, BoundariesDescription())
    low = [w.np.min(X[:, 0]), w.np.min(X[:, 1])]
    Y = w.arr([[X[i, 0] - low[0] + p[0], X[i, 1] - low[1] + p[1]] for i in range(4)])
    perm = node_perm(w, mesh, Y)
    w.prove(None not in perm and sorted(perm) == [0, 1, 2, 3], "translated rigidly")
    w.prove_eq(w.np.min(np.asarray(mesh.nodes)[:, 0]), p[0], "lower corner")
    w.prove_eq(w.np.min(np.asarray(mesh.nodes)[:, 1]), p[1], "lower corner")


@harness("C14", bounds="4 triangles or two tetrahedra, one stray node left of or beyond the body, symbolic "
                       "stray coordinates and target position")
def translated_stray(w):
    """unused nodes do not take part in the position of the body"""
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    given = (SQUARE5, TWO_TET)[w.choice("body", 2)]
    X = w.consts(given[0])
    side = w.choice("side", 2)
    Y, el = pad(w, X, given[1], [1])
    for c in range(Y.shape[1]):
        w.assume(w.gt(Y[1, c], 10) if side else w.lt(Y[1, c], -10))
    p = w.reals("p", (X.shape[1],), [3, -2, 1][:X.shape[1]])
    d = raw_mesh_description(Y, w.int_array(el))
    d.initial_position = p
    spec(w, w.arr(X - X.min(axis=0) + p), given[1], Mesh(d, BoundariesDescription()))


@harness("C14", bounds="4 triangles, stray nodes at 3 sets of places, with and without a symbolic target "
                       "position, a source that hands out its own arrays twice")
def reused(w):
    """the arrays of the source are left alone: a second mesh of it is the same"""
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh
    from conmech.mesh.zoo.raw_mesh import RawMesh
    from conmech.properties.mesh_description import MeshDescription

    X = w.consts(SQUARE5[0])
    places = [[], [0], [1, 4]][w.choice("places", 3)]
    Y, el = pad(w, X, SQUARE5[1], places)
    for i in places:
        w.assume(w.gt(Y[i, 0], 10))
    own = RawMesh(nodes=Y.copy(), elements=w.int_array(el))

    class Given(MeshDescription):
        def build(self):
            return own

    moved = bool(w.choice("moved", 2))
    p = w.reals("p", (2,), [3, -2]) if moved else None
    low = X.min(axis=0)
    want = w.arr(X - low + p) if moved else X
    for _ in range(2):
        spec(w, want, SQUARE5[1], Mesh(Given(initial_position=p), BoundariesDescription()))
    w.prove_eq(np.asarray(own.nodes), Y, "nodes of the source")
    w.prove_int(np.asarray(own.elements).tolist(), el, "elements of the source")


@harness("C14", bounds="two triangles, two coordinates symbolic")
def measures(w):
    """extent of the body and its nodes relative to their mean"""
    from props.common import signed_det

    X = w.consts(TWO_TRI[0])
    X[0] = w.reals("x", (2,), TWO_TRI[0][0])
    for e in TWO_TRI[1]:
        w.assume(w.gt(signed_det(X[e]), 0))
    mesh = make_mesh(X, w.int_array(TWO_TRI[1]))
    for c in range(2):
        for i in range(4):
            for j in range(4):
                w.prove(w.ge(mesh.scale[c], X[i, c] - X[j, c]), "extent of the body: at least")
        w.prove(w.either(*[w.eq(mesh.scale[c], X[i, c] - X[j, c])
                           for i in range(4) for j in range(4)]), "extent of the body: attained")
    mean = X.sum(axis=0) / 4
    nodes = np.asarray(mesh.nodes)
    for got in (mesh.normalized_initial_nodes, mesh.input_initial_nodes):
        w.prove_eq(got, nodes - mean, "nodes relative to their mean")
    w.prove_eq(mesh.nodes, nodes, "nodes are left as they are")


@harness("C14", bounds="4 triangles, symbolic shift: position given through a full problem solver "
                       "does not change operators")
def translation_invariance(w):
    """operators do not depend on the position of the body"""
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh
    from conmech.properties.body_properties import ElasticProperties
    from props.common import Ref, data, make_body

    X = w.consts(SQUARE5[0])
    p = w.reals("p", (2,), [3, -2])
    d = raw_mesh_description(X, w.int_array(SQUARE5[1]))
    d.initial_position = p
    mesh = Mesh(d, BoundariesDescription())
    mu, la = w.real("mu", 3), w.real("la", 5)
    body = make_body(mesh, ElasticProperties(mass_density=1, mu=mu, lambda_=la))
    shift = w.arr([p[0] - X[:, 0].min(), p[1] - X[:, 1].min()])
    perm = node_perm(w, mesh, X + shift)
    el = [[int(i) for i in e] for e in mesh.elements]
    ref = Ref(w, X[perm], el)
    w.prove_eq(data(body.dynamics.elasticity), ref.elasticity(mu, la), "elasticity")
    w.prove_eq(mesh.scale, X.max(axis=0) - X.min(axis=0), "size of the body")


@harness("C14", bounds="12 nodes / 12 triangles; edges against the reference, 3 numberings")
def edges(w):
    """edge list of a larger mesh"""
    N, el = strip(3, 2)
    n = len(N)
    k = w.choice("numbering", 3)
    p = [list(range(n)), list(range(n))[::-1], [(5 * i) % n for i in range(n)]][k]
    inv = [p.index(i) for i in range(n)]
    X = w.consts([N[i] for i in p])
    el = [[inv[i] for i in e] for e in el]
    spec(w, X, el, make_mesh(X, w.int_array(el)))


_ = boundary_of
