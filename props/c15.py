"""C15: the structured cross mesh covers its rectangle exactly."""

import numpy as np

from props.common import boundary_of, signed_det
from vsym.world import harness


def build(w, sx, sy, h):
    from conmech.properties.mesh_description import CrossMeshDescription

    m = CrossMeshDescription(initial_position=None, max_element_perimeter=h,
                             scale=[sx, sy]).build()
    return np.asarray(m.nodes), [[int(i) for i in e] for e in m.elements]


def spec(w, sx, sy, h, nx, ny):
    X, el = build(w, sx, sy, h)
    w.prove_int([len(X), len(el)], [2 * nx * ny + nx + ny + 1, 4 * nx * ny], "sizes")
    w.prove(all(len(set(e)) == 3 for e in el), "elements have distinct nodes")
    # nodes are exactly the grid points and cell centres
    pts = [(("g", i, j), w.arr([sx * i / nx, sy * j / ny]))
           for i in range(nx + 1) for j in range(ny + 1)]
    pts += [(("c", i, j), w.arr([sx * (2 * i + 1) / (2 * nx), sy * (2 * j + 1) / (2 * ny)]))
            for i in range(nx) for j in range(ny)]
    find = w.locate(pts)
    names = [find(p) for p in X]
    w.prove(None not in names and len(set(names)) == len(pts), "nodes are grid points and centres")
    total = 0
    for e in el:
        det = signed_det(X[e])
        w.prove_eq(abs(det), sx * sy / (2 * nx * ny), "every element is a quarter of a cell")
        total = total + abs(det) / 2
    w.prove_eq(total, sx * sy, "elements cover the rectangle")
    quarter = {frozenset(names[i] for i in e) for e in el}
    want = set()
    for i in range(nx):
        for j in range(ny):
            c = [("g", i, j), ("g", i + 1, j), ("g", i + 1, j + 1), ("g", i, j + 1)]
            for k in range(4):
                want.add(frozenset((c[k], c[(k + 1) % 4], ("c", i, j))))
    w.prove(quarter == want, "elements are the quarters of all cells")
    bd = boundary_of(el)
    w.prove_int(len(bd), 2 * (nx + ny), "boundary is the outline")


def grid(w, nx, ny):
    sx, sy, h = w.pos("sx", 1), w.pos("sy", 1), w.pos("h", 1)
    w.assume(w.both(w.gt(sx, (nx - 1) * h), w.le(sx, nx * h)))
    w.assume(w.both(w.gt(sy, (ny - 1) * h), w.le(sy, ny * h)))
    spec(w, sx, sy, h, nx, ny)


@harness("C15", bounds="one cell, symbolic sizes")
def single(w):
    """one cell"""
    grid(w, 1, 1)


@harness("C15", bounds="2 x 1 cells, symbolic sizes")
def wide(w):
    """two cells in a row"""
    grid(w, 2, 1)


@harness("C15", bounds="1 x 3 cells, symbolic sizes")
def tall(w):
    """three cells in a column"""
    grid(w, 1, 3)


@harness("C15", bounds="2 x 2 cells, symbolic sizes")
def block(w):
    """two by two"""
    grid(w, 2, 2)


@harness("C15", bounds="3 x 2 cells, symbolic sizes")
def block32(w):
    """three by two"""
    grid(w, 3, 2)


@harness("C15", bounds="5 x 4 cells, symbolic uniform scale (any size, also tiny)")
def scaled(w):
    """larger grid at every scale"""
    s = w.pos("s", 1)
    spec(w, 5 * s, 3 * s, s * 99 / 100 + s / 100, 5, 3)
