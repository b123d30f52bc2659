"""C11: node renumbering keeps the geometry and groups the nodes by boundary kind."""

import numpy as np

from props.common import (Marker, SQUARE5, TWO_TET, boundary_of, make_mesh, node_perm, signed_det,
                          strip)
from vsym.world import harness


def spec(w, X, el, isc, isd, mesh, orient=True):
    """isc / isd: truth of the contact / Dirichlet predicate at every given node."""
    n = len(X)
    perm = node_perm(w, mesh, X)
    w.prove(None not in perm and sorted(perm) == list(range(n)), "nodes are a permutation")
    w.prove_eq(np.asarray(mesh.nodes), X[perm], "coordinates of renumbered nodes")
    got = sorted(tuple(sorted(perm[int(i)] for i in e)) for e in mesh.elements)
    w.prove_int(got, sorted(tuple(sorted(e)) for e in el), "elements keep their nodes")
    onb = set().union(*boundary_of(el))
    kind = {}
    for i in range(n):
        if i not in onb:
            kind[i] = "I"
        elif isd[i]:
            kind[i] = "D"
        else:
            kind[i] = "C" if isc[i] else "N"
    order = "".join(kind[p] for p in perm)
    cnt = {k: order.count(k) for k in "CNID"}
    w.prove(order == "C" * cnt["C"] + "N" * cnt["N"] + "I" * cnt["I"] + "D" * cnt["D"],
            "order contact, Neumann, internal, Dirichlet")
    w.prove_int([mesh.contact_nodes_count, mesh.neumann_nodes_count, mesh.inner_nodes_count,
                 mesh.dirichlet_nodes_count], [cnt[k] for k in "CNID"], "counts of node kinds")
    w.prove_int([mesh.nodes_count, mesh.boundary_nodes_count, mesh.independent_nodes_count,
                 mesh.free_nodes_count],
                [n, n - cnt["I"], n - cnt["D"], cnt["N"] + cnt["I"]], "derived counts")
    num = np.arange(n)
    for k, nm in (("C", "contact_indices"), ("N", "neumann_indices"), ("D", "dirichlet_indices")):
        sel = num[getattr(mesh, nm)]
        w.prove_int(list(sel), [i for i in range(n) if order[i] == k], f"range {nm}")
    w.prove_int(sorted(num[mesh.independent_indices]), [i for i in range(n) if order[i] != "D"],
                "range independent_indices")
    w.prove_int(sorted(num[mesh.free_indices]), [i for i in range(n) if order[i] in "NI"],
                "range free_indices")
    w.prove_int(sorted(num[mesh.boundary_indices]), [i for i in range(n) if order[i] != "I"],
                "range boundary_indices")
    w.prove_eq(np.asarray(mesh.initial_boundary_nodes),
               X[[perm[int(i)] for i in num[mesh.boundary_indices]]], "nodes of the boundary")


def build(w, X, el, isc, isd):
    mk = Marker(w, X, el)
    on = {("n", i): v for i, v in enumerate(isc)}
    od = {("n", i): v for i, v in enumerate(isd)}
    return make_mesh(X, w.int_array(el), contact=mk.predicate(on), dirichlet=mk.predicate(od))


@harness("C11", bounds="5 nodes / 4 triangles; every truth table of both predicates on the 4 "
                       "boundary nodes, predicates true at the interior node")
def square(w):
    """all classifications of a square with an interior node"""
    X = w.consts(SQUARE5[0])
    isc = [bool(w.flag(f"c{i}", i % 2)) for i in range(4)] + [True]
    isd = [bool(w.flag(f"d{i}", 0)) for i in range(4)] + [True]
    spec(w, X, SQUARE5[1], isc, isd, build(w, X, SQUARE5[1], isc, isd))


@harness("C11", bounds="one triangle with 6 symbolic coordinates, every classification; 4 "
                       "triangles with one symbolic node")
def coordinates(w):
    """coordinates are carried over unchanged for every geometry"""
    X = w.reals("x", (3, 2), [[0, 0], [1, 0], [0, 1]])
    w.assume(w.gt(signed_det(X), 0))
    isc = [bool(w.flag(f"c{i}", 1)) for i in range(3)]
    isd = [False, bool(w.flag("d1", 1)), False]
    spec(w, X, [[0, 1, 2]], isc, isd, build(w, X, [[0, 1, 2]], isc, isd))


@harness("C11", bounds="4 triangles with one symbolic node (any position that keeps the mesh valid)")
def moved_node(w):
    """one node anywhere"""
    X = w.consts(SQUARE5[0])
    X[0] = w.reals("x", (2,), SQUARE5[0][0])
    for e in SQUARE5[1]:
        if 0 in e:
            w.assume(w.gt(signed_det(X[e]), 0))
    isc, isd = [True, False, True, False, False], [False, True, False, False, False]
    spec(w, X, SQUARE5[1], isc, isd, build(w, X, SQUARE5[1], isc, isd))


@harness("C11", bounds="12 nodes / 12 triangles in 3 numberings, 8 classifications")
def strip_numberings(w):
    """renumbered input, larger mesh"""
    N, el = strip(3, 2)
    k = w.choice("numbering", 3)
    n = len(N)
    p = [list(range(n)), list(range(n))[::-1], [(5 * i) % n for i in range(n)]][k]
    inv = [p.index(i) for i in range(n)]
    X = w.consts([N[i] for i in p])
    el = [[inv[i] for i in e][k % 3:] + [inv[i] for i in e][:k % 3] for e in el]
    a, b, c = (bool(w.flag(f"q{j}", j % 2)) for j in range(3))
    isc = [(p[i] < 4) and (a or p[i] % 2 == 0) for i in range(n)]
    isd = [(p[i] % 4 == 0 and b) or (p[i] >= 8 and c) for i in range(n)]
    spec(w, X, el, isc, isd, build(w, X, el, isc, isd))


@harness("C11", bounds="two tetrahedra (all 5 nodes on the boundary), homogeneous classification "
                       "or contact/Dirichlet split by node")
def tetrahedra(w):
    """three dimensions"""
    X = w.consts(TWO_TET[0])
    isc = [bool(w.flag(f"c{i}", i % 2)) for i in range(5)]
    isd = [False] * 5
    spec(w, X, TWO_TET[1], isc, isd, build(w, X, TWO_TET[1], isc, isd))
    isd = [bool(w.flag("d0", 0)), False, True, False, bool(w.flag("d4", 0))]
    spec(w, X, TWO_TET[1], isc, isd, build(w, X, TWO_TET[1], isc, isd))


@harness("C11", bounds="strip of 30 x 20 cells (651 nodes, 1200 triangles) in a shuffled numbering, "
                       "contact / Dirichlet along parts of the rim, one symbolic flag")
def large(w):
    """many nodes"""
    N, el = strip(30, 20)
    n = len(N)
    p = [(37 * i + 5) % n for i in range(n)]
    inv = [0] * n
    for i, k in enumerate(p):
        inv[k] = i
    X = w.consts([N[i] for i in p])
    m = len(el)
    el = [el[(7 * k + 3) % m] for k in range(m)]
    el = [[inv[i] for i in e[k % 3:] + e[:k % 3]] for k, e in enumerate(el)]
    flag = bool(w.flag("q", 1))
    isc = [k < 31 and (flag or k % 2 == 0) for k in p]
    isd = [k % 31 == 0 and k > 100 for k in p]
    spec(w, X, el, isc, isd, build(w, X, el, isc, isd))
