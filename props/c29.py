"""C29: mesh sources deliver the described body."""

import types

import numpy as np

from props.common import F, boundary_of, make_mesh, signed_det
from vsym.world import harness

STUB = "meshing library replaced by a recorder that returns arbitrary (symbolic) points"


class Patched:
    """attributes of a module replaced for a while"""

    def __init__(self, obj, **kw):
        self.obj, self.kw = obj, kw

    def __enter__(self):
        self.old = {k: getattr(self.obj, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.obj, k, v)

    def __exit__(self, *_):
        for k, v in self.old.items():
            setattr(self.obj, k, v)


def cells_of(kinds, form):
    return [types.SimpleNamespace(type=t, data=np.array(d, dtype=form), dim=k)
            for t, d, k in kinds]


class FakeMesh:
    def __init__(self, points, kinds, form="<u8"):
        self.points = points
        self.cells = cells_of(kinds, form)

    @property
    def cells_dict(self):
        return {c.type: c.data for c in self.cells}

    def get_cells_type(self, kind):
        return self.cells_dict[kind]


FLAT = [("line", [[0, 1], [1, 2], [2, 3], [3, 0]], 1), ("triangle", [[0, 1, 2], [2, 0, 3]], 2),
        ("vertex", [[0], [1], [2], [3]], 0)]
SOLID = [("line", [[0, 1], [1, 2]], 1), ("triangle", [[0, 1, 2], [3, 1, 2]], 2),
         ("tetra", [[1, 0, 2, 3]], 3), ("vertex", [[0], [1], [2], [3]], 0)]


def read(w, points, kinds):
    import meshio
    from conmech.properties.mesh_description import ImportedMeshDescription

    asked = []
    form = ("<u8", ">i8", "<i4")[w.choice("format", 3)]

    def fake(path, *_, **__):
        asked.append(path)
        return FakeMesh(points.copy(), kinds, form)

    with Patched(meshio, read=fake):
        raw = ImportedMeshDescription(initial_position=None, path="some.msh").build()
    w.prove([str(p) for p in asked] == ["some.msh"], "the file of the description is read")
    return raw


def same(w, raw, points, elements):
    w.prove_eq(np.asarray(raw.nodes), points, "points of the file")
    w.prove([list(map(int, e)) for e in raw.elements] == elements, "elements of the file")
    t = np.asarray(raw.elements).dtype
    w.prove(t.kind in "iO" and t.isnative, "elements are native integers")


@harness("C29", stubs=STUB, bounds="planar file with 2 or 3 coordinates, 4 symbolic points")
def imported_2d(w):
    """planar meshes from files"""
    dim = 2 + w.choice("columns", 2)
    X = w.reals("x", (4, dim), [[0, 0, 0][:dim], [2, 0, 0][:dim], [2, 3, 0][:dim], [0, 3, 0][:dim]])
    kinds = FLAT if w.choice("lines", 2) == 0 else [k for k in FLAT if k[0] == "triangle"]
    same(w, read(w, X, kinds), X[:, :2], [[0, 1, 2], [2, 0, 3]])


@harness("C29", stubs=STUB, bounds="spatial file that also lists faces, 4 symbolic points")
def imported_3d(w):
    """spatial meshes from files"""
    X = w.reals("x", (4, 3), [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    same(w, read(w, X, SOLID), X, [[1, 0, 2, 3]])


@harness("C29", stubs=STUB, bounds="planar file with an unused point at any of 5 places and a "
                                   "symbolic offset of the body")
def imported_body(w):
    """bodies from files keep shape, position and connectivity"""
    import meshio
    from conmech.mesh.mesh import Mesh
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.properties.mesh_description import ImportedMeshDescription

    X = w.consts([[0, 0], [2, 0], [3, 4], [-1, F(5, 2)]]) + w.reals("o", (2,))
    at = w.choice("unused", 5)
    P = np.concatenate([X[:at], w.reals("p", (1, 2)), X[at:]])
    P = np.concatenate([P, w.reals("z", (5, 1))], axis=1)
    old = [[0, 1, 2], [2, 0, 3]]
    new = [[i + (i >= at) for i in e] for e in old]
    moved = w.choice("moved", 2)
    place = w.reals("q", (2,))
    with Patched(meshio, read=lambda *_, **__: FakeMesh(P.copy(), [("triangle", new, 2)])):
        mesh = Mesh(mesh_descr=ImportedMeshDescription(
            initial_position=place if moved else None, path="some.msh"),
            boundaries_description=BoundariesDescription(contact=lambda x: False,
                                                         dirichlet=lambda x: False))
    if moved:
        lowest = w.arr([min_of(w, X[:, k]) for k in range(2)])
        X = X - lowest + place
    Y, el = np.asarray(mesh.nodes), [list(map(int, e)) for e in mesh.elements]
    w.prove_int([len(Y), len(el)], [4, 2], "no other nodes or elements")
    # nodes and elements may be renumbered
    find = w.locate([(k, X[k]) for k in range(4)])
    names = [find(y) for y in Y]
    w.prove(None not in names and len(set(names)) == 4, "nodes of the file")
    w.prove({frozenset(names[i] for i in e) for e in el} == {frozenset(e) for e in old},
            "elements of the file")
    w.prove_int(len({i for e in el for i in e}), 4, "shared nodes stay shared")


def min_of(w, xs):
    m = xs[0]
    for x in xs[1:]:
        if bool(w.lt(x, m)):
            m = x
    return m


# --- shapes generated by pygmsh -------------------------------------------------------------------


class Geometry:
    """recorder in place of pygmsh.geo.Geometry"""

    made = None

    def __init__(self, *_, **__):
        self.log, self.size = [], None
        Geometry.made = self

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None

    def set_mesh_size_callback(self, fn, *_, **__):
        self.size = fn

    def generate_mesh(self, dim=None, *_, **__):
        return FakeMesh(Geometry.answer[0].copy(), Geometry.answer[1])

    def __getattr__(self, name):
        if not name.startswith("add_") and name not in ("extrude", "twist", "revolve"):
            raise AttributeError(name)

        def call(*a, **k):
            self.log.append((name, a, k))
            return (name, a, k)

        return call

    def points(self):
        """every point handed to the geometry, in order"""
        r = []
        for name, a, k in self.log:
            if name == "add_polygon":
                r += [list(p)[:2] for p in (a[0] if a else k["points"])]
            elif name == "add_point":
                r.append(list(a[0] if a else k["x"])[:2])
        return r


def shape(w, module, cls, descr, points, kinds):
    import pygmsh

    Geometry.answer = (points, kinds)
    with Patched(pygmsh.geo, Geometry=Geometry):
        mod = w.load(module)
        raw = getattr(mod, cls)(descr)
    geo = Geometry.made
    w.prove(geo.size is not None, "a mesh size is requested")
    for args in ((2, 1, 0.0, 0.0, 0.0), (1, 7, 0.5, -3.0, 2.0, 1.0)):
        w.prove_eq(geo.size(*args), descr.max_element_perimeter, "requested mesh size")
    return raw, geo


def descr(name, **kw):
    import conmech.properties.mesh_description as md

    return getattr(md, name)(initial_position=None, **kw)


def points2(w):
    return w.reals("x", (4, 3), [[0, 0, 0], [2, 0, 0], [2, 3, 0], [0, 3, 0]])


ZOO = "conmech.mesh.zoo."
SCALED = {"rectangle": ("PgmshRectangle", "PgmshRectangleMeshDescription"),
          "polygon": ("Polygon", "PolygonMeshDescription"),
          "spline": ("Spline", "SplineMeshDescription")}


@harness("C29", stubs=STUB, bounds="rectangle, polygon and spline shapes, all scales and mesh sizes")
def scaled(w):
    """planar shapes follow the scale and the mesh size"""
    kind = list(SCALED)[w.choice("shape", 3)]
    cls, d = SCALED[kind]
    sx, sy, h = w.pos("sx", 2), w.pos("sy", 3), w.pos("h", 1)
    X = points2(w)
    mod = ZOO + "pygmsh.dim_2." + kind
    raw, geo = shape(w, mod, cls, descr(d, scale=[sx, sy], max_element_perimeter=h), X, FLAT)
    same(w, raw, X[:, :2], [[0, 1, 2], [2, 0, 3]])
    _, unit = shape(w, mod, cls, descr(d, scale=[w.const(1), w.const(1)],
                                       max_element_perimeter=h), X, FLAT)
    p, q = w.arr(geo.points()), w.arr(unit.points())
    w.prove_int(len(p), len(q), "same outline for every scale")
    w.prove_eq(p, q * w.arr([sx, sy]), "outline follows the scale in each direction")
    for k in range(2):
        w.prove(all(bool(w.ge(x, 0)) and bool(w.le(x, 1)) for x in q[:, k]),
                "the shape stays inside its box")
    if kind == "rectangle":
        names = w.locate([((i, j), w.arr([sx * i, sy * j])) for i in range(2) for j in range(2)])
        got = [names(x) for x in p]
        w.prove(None not in got and len(set(got)) == 4, "corners of the rectangle")
        w.prove(all(sum(a != b for a, b in zip(got[k], got[k - 1])) == 1 for k in range(4)),
                "corners in order")


@harness("C29", stubs=STUB, bounds="all radii and mesh sizes")
def circle(w):
    """circles follow radius and mesh size"""
    r, h = w.pos("r", 2), w.pos("h", 1)
    X = points2(w)
    raw, geo = shape(w, ZOO + "pygmsh.dim_2.circle", "Circle",
                     descr("CircleMeshDescription", radius=r, max_element_perimeter=h), X, FLAT)
    same(w, raw, X[:, :2], [[0, 1, 2], [2, 0, 3]])
    (name, a, k), = geo.log
    args = dict(zip(("x0", "radius"), a), **k)
    w.prove(name == "add_circle", "a circle")
    w.prove_eq(args["radius"], r, "radius")
    w.prove_eq(w.arr(list(args["x0"])[:2]), w.arr([r, r]), "the circle touches both axes")


@harness("C29", stubs=STUB, bounds="both spatial shapes, 4 symbolic points returned by the mesher")
def spatial(w):
    """spatial shapes are scaled to the unit box"""
    kind = ("polygon", "twist")[w.choice("shape", 2)]
    h = w.pos("h", 1)
    X = w.consts([[0, 0, 0], [1, 2, F(1, 2)], [-3, 1, 4], [F(1, 3), -1, 7]])
    # one arbitrary coordinate per direction, offset and stretch of every direction
    o, s = w.reals("o", (3,)), w.arr([w.pos(f"s{k}", k + 1) for k in range(3)])
    X[3, 0] = w.real("a", F(1, 3))
    Y = o + X * s
    cls, d = {"polygon": ("Polygon3D", "Polygon3DMeshDescription"),
              "twist": ("Twist", "TwistMeshDescription")}[kind]
    raw, geo = shape(w, ZOO + "pygmsh.dim_3." + kind, cls, descr(d, max_element_perimeter=h), Y,
                     SOLID)
    w.prove([list(map(int, e)) for e in raw.elements] == [[1, 0, 2, 3]], "tetrahedra")
    lo = w.arr([min_of(w, X[:, k]) for k in range(3)])
    hi = w.arr([-min_of(w, -X[:, k]) for k in range(3)])
    w.prove_eq(np.asarray(raw.nodes) * (hi - lo), X - lo, "scaled to the unit box")


@harness("C29", stubs="meshzoo (not installed) replaced by a recorder",
         bounds="all scales and mesh sizes with at most 3 x 3 cells")
def regular(w):
    """regular rectangles follow scale and mesh size"""
    import sys

    sx, sy, h = w.pos("sx", 2), w.pos("sy", 3), w.pos("h", 1)
    w.assume(w.both(w.le(sx, 3 * h), w.le(sy, 3 * h)))
    log = []
    X = points2(w)[:, :2]

    def rectangle_tri(a, b, n, variant="zigzag"):
        log.append((a, b, n))
        return X.copy(), np.array(FLAT[1][1])

    mod = types.ModuleType("meshzoo")
    mod.rectangle_tri = rectangle_tri
    old = sys.modules.get("meshzoo")
    sys.modules["meshzoo"] = mod
    try:
        m = w.load(ZOO + "rectangle")
        m.meshzoo = mod
        raw = m.Rectangle(descr("RectangleMeshDescription", scale=[sx, sy],
                                max_element_perimeter=h))
    finally:
        if old is None:
            del sys.modules["meshzoo"]
        else:
            sys.modules["meshzoo"] = old
    same(w, raw, X, [[0, 1, 2], [2, 0, 3]])
    (a, b, n), = log
    w.prove_eq(w.arr(list(a)), w.arr([0, 0]), "lower left corner")
    w.prove_eq(w.arr(list(b)), w.arr([sx, sy]), "upper right corner")
    for s, k in zip((sx, sy), n):
        w.prove(w.ge((int(k) - 1) * h, s), "cells are not longer than the mesh size")
        w.prove(w.lt((int(k) - 2) * h, s), "no more cells than needed")


# --- hard-coded meshes ----------------------------------------------------------------------------


def faces(t):
    """the four half spaces of a tetrahedron as (normal, offset): inside is n.x > c"""
    r = []
    for k in range(4):
        a, b, c = (t[i] for i in range(4) if i != k)
        u, v = [b[i] - a[i] for i in range(3)], [c[i] - a[i] for i in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        d = sum(x * y for x, y in zip(n, a))
        if sum(x * y for x, y in zip(n, t[k])) < d:
            n, d = [-x for x in n], -d
        r.append((n, d))
    return r


def hardcoded(w, cls, name):
    raw = descr(name).build()
    P = [[F(str(float(x))) for x in p] for p in np.asarray(raw.nodes)]
    el = [[int(i) for i in e] for e in raw.elements]
    w.prove(all(0 <= i < len(P) for e in el for i in e), "elements name existing nodes")
    w.prove_int(len({i for e in el for i in e}), len(P), "every node belongs to the body")
    w.prove_int(len({tuple(p) for p in P}), len(P), "nodes are distinct")
    w.prove_int(len({frozenset(e) for e in el}), len(el), "elements are distinct")
    for e in el:
        w.prove(signed_det(np.array([P[i] for i in e], dtype=object)) != 0,
                "elements have a volume")
    count = {}
    for e in el:
        for k in range(4):
            f = frozenset(e[:k] + e[k + 1:])
            count[f] = count.get(f, 0) + 1
    w.prove(set(count.values()) <= {1, 2}, "faces are shared by at most two elements")
    edge = {}
    for f, n in count.items():
        if n == 1:
            for i in f:
                edge[f - {i}] = edge.get(f - {i}, 0) + 1
    w.prove(set(edge.values()) == {2}, "the surface is closed")
    return P, el


def inside(w, x, tet, strict):
    rel = w.gt if strict else w.ge
    return w.both(*[rel(sum(a * b for a, b in zip(n, x)), c) for n, c in faces(tet)])


def disjoint(w, P, el, x):
    tets = [[P[i] for i in e] for e in el]
    for k, s in enumerate(tets):
        near = []
        for t in tets[:k]:
            if all(max(p[d] for p in t) > min(p[d] for p in s)
                   and min(p[d] for p in t) < max(p[d] for p in s) for d in range(3)):
                near.append(inside(w, x, t, True))
        if near:
            w.prove(w.negate(w.both(inside(w, x, s, True), w.either(*near))),
                    "elements do not overlap")
    return tets


@harness("C29", bounds="every point of the unit cube (symbolic)")
def cube(w):
    """the cube's elements fill it without overlapping"""
    P, el = hardcoded(w, "Cube", "CubeMeshDescription")
    x = w.reals("x", (3,))
    tets = disjoint(w, P, el, x)
    for k in range(3):
        w.assume(w.both(w.ge(x[k], 0), w.le(x[k], 1)))
    w.prove(w.either(*[inside(w, x, t, False) for t in tets]), "elements fill the cube")
    for p in P:
        w.prove(all(0 <= c <= 1 for c in p), "nodes belong to the cube")


@harness("C29", bounds="every point of space (symbolic)")
def ball(w):
    """the ball's elements do not overlap and reach its centre"""
    P, el = hardcoded(w, "Ball", "BallMeshDescription")
    x = w.reals("x", (3,))
    tets = disjoint(w, P, el, x)
    # a box inside the polyhedron is filled
    for k in range(3):
        w.assume(w.both(w.ge(x[k], F(-3, 10)), w.le(x[k], F(3, 10))))
    w.prove(w.either(*[inside(w, x, t, False) for t in tets]), "elements fill the core")


_ = boundary_of, make_mesh
