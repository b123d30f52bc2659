"""C28: pictures show the fields of the state they are drawn from."""

import types

import numpy as np

from props.common import (F, Marker, boundary_of, const_field, flat, make_mesh, make_static,
                          poly_field, strip, zero_law)
from vsym.world import harness

STUB = "matplotlib axes and networkx.draw record what they are given"


class Axes:
    def __init__(self):
        self.log = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*a, **k):
            a = [x.copy() if isinstance(x, np.ndarray) else x for x in a]
            self.log.append((name, a, k))
            return Axes()

        return call

    def named(self, name):
        return [(a, k) for n, a, k in self.log if n == name]


class Canvas:
    """recorder in place of networkx.draw* and matplotlib"""

    def __init__(self, mod):
        import networkx

        self.graphs = []
        self.axes = Axes()
        self.fig = Axes()

        def draw(graph, pos=None, *a, **k):
            self.graphs.append(([tuple(e) for e in graph.edges],
                                {i: np.asarray(pos[i]).copy() for i in graph.nodes}, k))

        self.nx = types.SimpleNamespace(Graph=networkx.Graph, draw=draw, draw_networkx=draw,
                                        draw_networkx_edges=draw)
        self.plt = Axes()
        self.plt.cm = Axes()
        self.mod = mod

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in ("nx", "plt") if hasattr(self.mod, k)}
        for k in self.old:
            setattr(self.mod, k, getattr(self, k))
        return self

    def __exit__(self, *_):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def drawn(w, moving=True, dirichlet=True, sources=None):
    """(solver, state) with symbolic displacement"""
    N, el = strip(2, 1)
    X = w.consts(N)
    n = len(X)
    mk = Marker(w, X, el)
    table = {("n", i): True for i in (0, 1, 2)}
    table.update({("f", f): True for f in boundary_of(el) if f <= {0, 1, 2}})
    kw = {"contact": mk.predicate(table)}
    if dirichlet:
        kw["dirichlet"] = mk.predicate({("n", 3): True, ("n", 4): True,
                                        ("f", frozenset((3, 4))): True})
    s = make_static(w, X, el, "global", law=zero_law(), outer=sources, **kw)
    from conmech.state.state import State

    st = State(s.body)
    if moving:
        st.set_displacement(w.reals("u", (2 * n,)), time=0)
    return s, st


def edges_of(elements):
    return {frozenset((int(e[i]), int(e[j]))) for e in elements for i in range(3) for j in range(i)}


def same_graph(w, g, edges, pos, what):
    w.prove_int(sorted(sorted(int(i) for i in e) for e in g[0]),
                sorted(sorted(e) for e in edges), f"{what}: edges")
    for i, p in g[1].items():
        w.prove_eq(p, np.asarray(pos)[i], f"{what}: position of a node")


@harness("C28", stubs=STUB, bounds="6 nodes / 4 triangles, symbolic displacement")
def meshes(w):
    """original and deformed mesh and the coloured boundary parts"""
    mod = w.load("conmech.plotting.drawer")
    s, st = drawn(w)
    m = s.body.mesh
    moved = np.asarray(m.nodes) + np.asarray(st.displacement)
    with Canvas(mod) as c:
        d = mod.Drawer(st, None)
        d.x_min = d.y_min = -1
        d.x_max = d.y_max = 3
        d.do_draw(fig_axes=(c.fig, c.axes))
    at = {"k": moved, "0.7": m.nodes}
    seen = {}
    for g in c.graphs:
        col = g[2].get("edge_color")
        seen[col] = seen.get(col, 0) + 1
        if col in at:
            same_graph(w, g, edges_of(m.elements), at[col], "mesh")
        else:
            part = {"b": m.contact_boundary, "r": m.dirichlet_boundary,
                    "g": m.neumann_boundary}[col]
            same_graph(w, g, {frozenset(int(i) for i in f) for f in part}, moved, "boundary part")
    w.prove(seen == {"k": 1, "0.7": 1, "b": 1, "r": 1, "g": 1}, "each part is drawn once")


@harness("C28", stubs=STUB, bounds="4 nodes, 3 symbolic displacement components")
def limits(w):
    """the picture is large enough for the original and the deformed body"""
    mod = w.load("conmech.plotting.drawer")
    N, el = strip(1, 1)
    X = w.consts(N)
    s = make_static(w, X, el, "global", law=zero_law())
    from conmech.state.state import State

    st = State(s.body)
    u = w.consts([0] * (2 * len(X)))
    for i in (0, 3, 5):
        u[i] = w.real(f"u{i}", i - 2)
    st.set_displacement(u, time=0)
    with Canvas(mod) as c:
        d = mod.Drawer(st, None)
        d.deformed_mesh_color = d.original_mesh_color = None
        d.colorful = True
        d.do_draw(fig_axes=(c.fig, c.axes))
    for k, name in enumerate(("set_xlim", "set_ylim")):
        (lo, hi), _ = c.axes.named(name)[-1]
        for p in list(np.asarray(s.body.mesh.nodes)) + list(np.asarray(st.displaced_nodes)):
            w.prove(w.both(w.le(lo, p[k]), w.ge(hi, p[k])), "node within the picture")


@harness("C28", stubs=STUB, bounds="6 nodes / 4 triangles, symbolic displacement, field and colour "
                                   "range; given by name and by value")
def field(w):
    """coloured fields"""
    mod = w.load("conmech.plotting.drawer")
    s, st = drawn(w)
    m = s.body.mesh
    values = w.reals("T", (len(m.nodes),))
    lo, hi = w.real("lo", -1), w.real("hi", 2)
    named = w.choice("given by", 2)
    if named:
        st.temperature = values
    with Canvas(mod) as c:
        d = mod.Drawer(st, None)
        if named:
            d.field_name = "temperature"
        else:
            d.field = values
        d.x_min = d.y_min = -1
        d.x_max = d.y_max = 3
        d.do_draw(fig_axes=(c.fig, c.axes), field_min=lo, field_max=hi, colorbar=True)
    fills = c.axes.named("tricontourf")
    w.prove_int(len(fills), 1, "one coloured field")
    moved = np.asarray(m.nodes) + np.asarray(st.displacement)
    for args, kw in fills + c.axes.named("tricontour"):
        w.prove_eq(args[0], moved[:, 0], "first coordinates")
        w.prove_eq(args[1], moved[:, 1], "second coordinates")
        w.prove_int(args[2], m.elements, "elements")
        w.prove_eq(args[3], values, "values at the nodes")
    w.prove_eq([fills[0][1]["vmin"], fills[0][1]["vmax"]], [lo, hi], "colour range")


@harness("C28", stubs=STUB, bounds="6 nodes / 4 triangles, symbolic displacement, traction affine in "
                                   "place and time, symbolic time")
def forces(w):
    """arrows of the traction at the loaded boundary"""
    mod = w.load("conmech.plotting.drawer")
    g = poly_field(w, "g", 2, 2)
    s, st = drawn(w, sources=g)
    m = s.body.mesh
    t = w.real("t", 2)
    st.time = t
    with Canvas(mod) as c:
        d = mod.Drawer(st, None)
        d.outer_forces_scale = 1
        d.x_min = d.y_min = -1
        d.x_max = d.y_max = 3
        d.do_draw(fig_axes=(c.fig, c.axes))
    q = c.axes.named("quiver")
    w.prove_int(len(q), 1, "one set of arrows")
    x, y, a, b = [np.asarray(z) for z in q[0][0][:4]]
    loaded = sorted({int(i) for f in m.neumann_boundary for i in f})
    w.prove_int(len(x), len(loaded), "one arrow per loaded node")
    moved = np.asarray(m.nodes) + np.asarray(st.displacement)
    for i in loaded:
        f = g(np.asarray(m.nodes)[i], t)
        w.prove(w.either(*[w.eq(w.arr([x[k], y[k], a[k], b[k]]),
                                w.arr([moved[i][0], moved[i][1], f[0], f[1]]))
                           for k in range(len(x))]), "arrow of a loaded node")


@harness("C28", stubs=STUB, bounds="6 nodes / 4 triangles, with and without a fixed part")
def plain(w):
    """single-colour pictures"""
    mod = w.load("conmech.plotting.drawer")
    s, st = drawn(w, dirichlet=bool(w.choice("fixed part", 2)))
    m = s.body.mesh
    moved = np.asarray(m.nodes) + np.asarray(st.displacement)
    with Canvas(mod) as c:
        d = mod.Drawer(st, None)
        d.colorful = False
        d.original_mesh_color = d.deformed_mesh_color = None
        d.x_min = d.y_min = -1
        d.x_max = d.y_max = 3
        d.do_draw(fig_axes=(c.fig, c.axes))
    w.prove_int(len(c.graphs), 1, "the boundary is drawn once")
    same_graph(w, c.graphs[0], {frozenset(int(i) for i in f) for f in m.boundary_surfaces}, moved,
               "boundary")
    fixed = sorted({int(i) for f in m.dirichlet_boundary for i in f})
    for args, _ in c.axes.named("quiver"):
        for x, y in zip(np.asarray(args[0]), np.asarray(args[1])):
            w.prove(w.either(*[w.eq(w.arr([x, y]), moved[i]) for i in fixed]) if fixed else False,
                    "marks sit at fixed nodes")


def limit_points(w, counts):
    mod = w.load("conmech.plotting.membrane")
    from conmech.state.products.intersection_contact_limit_points import (
        VerticalIntersectionContactLimitPoints)

    prod = VerticalIntersectionContactLimitPoints(x=0.5, obstacle_level=1.0)
    vals = w.reals("z", (4,))
    k = 0
    for t, c in enumerate(counts):
        pts = []
        for _ in range(c):
            pts.append(vals[k % 4] if k < 4 or k > sum(counts) - 4 else w.const(F(k % 7, 8)))
            k += 1
        prod.data[w.const(F(t + 1, 8))] = tuple(pts)
    with Canvas(mod) as c:
        mod.plot_limit_points(prod, finish=False, title="t", label="l")
    got = []
    for args, _ in c.plt.named("scatter"):
        got += list(zip(np.asarray(args[0]).tolist(), np.asarray(args[1]).tolist()))
    want = [(t, z) for t, zs in prod.data.items() for z in zs]
    w.prove_int(len(got), len(want), "one mark per recorded point")
    w.prove_eq(w.arr(got).reshape(-1, 2), w.arr(want).reshape(-1, 2), "marks at recorded points")


@harness("C28", stubs=STUB, bounds="up to 5 recorded points at up to 4 times, symbolic positions")
def few_limit_points(w):
    """marks of recorded contact limit points"""
    limit_points(w, [[1, 2, 2], [0, 1, 0, 3], [], [0]][w.choice("counts", 4)])


@harness("C28", stubs=STUB, bounds="about 1000 and 2100 recorded points, 1, 2, 3 or hundreds per time, first and "
                                   "last ones symbolic")
def many_limit_points(w):
    """long records"""
    limit_points(w, [[1] * 1003, [1] + [2] * 510, [3] * 700, [999, 200]][w.choice("counts", 4)])


def square_membrane(w):
    X = w.consts([[0, 0], [1, 0], [1, 1], [0, 1], [F(1, 2), F(1, 2)]])
    return make_static(w, X, [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]], "global",
                       law=zero_law())


def deflected(w, s, k=""):
    """(state, deflection at a point, velocity at a point)"""
    from conmech.state.state import State

    m = s.body.mesh
    st = State(s.body)
    u = w.reals(f"u{k}", (5,))
    st.displacement = w.arr(np.stack((u, w.arr([0] * 5)), axis=1))
    v = w.reals(f"v{k}", (5,))
    st.velocity = w.arr(np.stack((v, w.arr([0] * 5)), axis=1))
    X = w.consts([[0, 0], [1, 0], [1, 1], [0, 1], [F(1, 2), F(1, 2)]])
    find = w.locate([(i, X[i]) for i in range(5)])
    order = [find(p) for p in np.asarray(m.nodes)]

    def exact(vals, x, y):
        at = {k: vals[i] for i, k in enumerate(order)}
        a, b = (0, 1) if y <= x and y <= 1 - x else (1, 2) if y <= x else (
            (2, 3) if y >= 1 - x else (3, 0))
        P = [[0, 0], [1, 0], [1, 1], [0, 1]]
        (ax, ay), (bx, by) = P[a], P[b]
        D = (bx - ax) * (F(1, 2) - ay) - (by - ay) * (F(1, 2) - ax)
        la = ((bx - x) * (F(1, 2) - y) - (by - y) * (F(1, 2) - x)) / D
        lb = ((F(1, 2) - x) * (ay - y) - (F(1, 2) - y) * (ax - x)) / D
        la, lb, lc = (w.const(F(z)) for z in (la, lb, 1 - la - lb))
        return la * at[a] + lb * at[b] + lc * at[4]

    return st, lambda x, y: exact(u, x, y), lambda x, y: exact(v, x, y)


def value(z):
    return F(z.const()) if hasattr(z, "const") else F(float(z)).limit_denominator(1000)


@harness("C28", stubs=STUB, bounds="square of 4 triangles around a centre, symbolic deflection and "
                                   "field; section at 3 places and surface")
def membrane(w):
    """deflection of a membrane along a section and as a surface"""
    mod = w.load("conmech.plotting.membrane")
    st, u_at, v_at = deflected(w, square_membrane(w))
    where = w.choice("picture", 4)
    with Canvas(mod) as c:
        ax = Axes()
        if where < 3:
            x = (F(1, 4), F(1, 2), F(1))[where]
            mod.do_plot(c.fig, st, field="velocity", ax=ax, in3d=False, x=w.const(x), zmin=0,
                        zmax=1)
            (y, got), _ = ax.named("plot")[0]
            w.prove_eq(got, w.arr([u_at(x, value(z)) for z in y]), "deflection on the section")
            return
        seen = []
        old = mod.map_colors
        mod.map_colors = lambda p, func, *a, **k: seen.append(func)
        try:
            mod.do_plot(c.fig, st, field="velocity", ax=ax, in3d=True)
        finally:
            mod.map_colors = old
    (xs, ys, zs), _ = ax.named("plot_trisurf")[0]
    pick = range(0, len(xs), 37)
    w.prove_eq(w.arr([zs[i] for i in pick]),
               w.arr([u_at(value(xs[i]), value(ys[i])) for i in pick]), "surface")
    (xs, ys, zs), _ = ax.named("plot3D")[0]
    w.prove_eq(zs, w.arr([u_at(value(x), value(y)) for x, y in zip(xs, ys)]), "outline")
    p, q = w.consts([F(1, 4)]), w.consts([F(1, 8)])
    w.prove_eq(seen[0](p, q, q), w.arr([v_at(F(1, 4), F(1, 8))]), "colours follow the field")


def columns(w, counts):
    """one picture per state, each in a place of its own"""
    mod = w.load("conmech.plotting.membrane")
    n = counts[w.choice("states", len(counts))]
    s = square_membrane(w)
    states = [deflected(w, s, str(k)) for k in range(n)]
    places, axes = [], []

    class Figure(Axes):
        def add_subplot(self, *a, **k):
            places.append(a if len(a) == 3 else (a[0] // 100, a[0] // 10 % 10, a[0] % 10))
            axes.append(Axes())
            return axes[-1]

    fig = Figure()
    with Canvas(mod) as c:
        c.plt.figure = lambda *a, **k: fig
        mod.plot_in_columns([st for st, _, _ in states], field="velocity", vmin=0, vmax=1, zmin=0,
                            zmax=1, x=w.const(F(1, 4)), title="t", finish=False)
    w.prove_int(len(axes), n, "one picture per state")
    w.prove_int(len({p for p in places}), n, "every picture has its own place")
    w.prove(all(1 <= i <= r * k for r, k, i in places) and len({p[:2] for p in places}) == 1,
            "places exist in the grid")
    for ax, (_, at, _) in zip(axes, states):
        (y, got), _ = ax.named("plot")[0]
        w.prove_eq(got, w.arr([at(F(1, 4), value(z)) for z in y]), "deflection on the section")


@harness("C28", stubs=STUB, bounds="1, 2 and 3 states of a square of 4 triangles, symbolic deflections")
def membranes(w):
    """pictures of several states in columns"""
    columns(w, (1, 2, 3))


@harness("C28", tier="thorough", stubs=STUB, bounds="4, 5 and 7 states of a square of 4 triangles")
def many_membranes(w):
    """pictures of more states in columns"""
    columns(w, (4, 5, 7))


@harness("C28", stubs=STUB, bounds="one state of a square of 4 triangles, symbolic deflection")
def single_membrane(w):
    """picture of one state"""
    mod = w.load("conmech.plotting.membrane")
    st, at, _ = deflected(w, square_membrane(w))
    axes = []

    class Figure(Axes):
        def add_subplot(self, *a, **k):
            axes.append(Axes())
            return axes[-1]

    with Canvas(mod) as c:
        fig = Figure()
        c.plt.figure = lambda *a, **k: fig
        mod.plot(st, field="velocity", x=w.const(F(1, 2)), zmin=0, zmax=1)
    w.prove_int(len(axes), 1, "one picture")
    drawn_lines = axes[0].named("plot")
    surfaces = axes[0].named("plot_trisurf")
    w.prove(bool(drawn_lines or surfaces), "the deflection is drawn")
    for (y, got), _ in drawn_lines:
        w.prove_eq(got, w.arr([at(F(1, 2), value(z)) for z in y]), "deflection on the section")


_ = const_field, flat, make_mesh
