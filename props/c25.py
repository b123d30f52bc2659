"""C25: recorded products follow the run."""

import numpy as np

from props.c16 import KITE, LOWER, marked
from props.c21 import new_body
from props.c22 import FAMILIES, Data, by_time, solver_of
from props.common import Calls, F, const_field, make_mesh, make_static, zero_law
from vsym.world import harness

STUB = "optimiser replaced by arbitrary (symbolic) answers"


def probe(w):
    """a user-defined product with parameters of its own"""
    from conmech.state.products.product import Product

    class Probe(Product):
        def __init__(self, factor):
            super().__init__("probe")
            self.factor = factor

        def update(self, state):
            self.data[state.time] = self.factor * state.displacement + state.velocity

    return Probe


def lookup(w, data, t):
    for k in data:
        if bool(w.eq(k, t)):
            return data[k]
    return None


def recorded(w, product, want, what):
    """the product holds exactly the (time, value) pairs"""
    w.prove_int(len(product.data), len(want), f"{what}: one entry per step")
    for t, v in want:
        got = lookup(w, product.data, t)
        w.prove(got is not None, f"{what}: entry of the step")
        w.prove_eq(got, v, f"{what}: recorded value")


@harness("C25", stubs=STUB, bounds="two triangles, 3 steps, symbolic fields; quasistatic, dynamic, "
                                   "long memory and wave problems, a product of the user's own")
def run_record(w):
    """products injected into a run; snapshots carry their own copies"""
    fam = FAMILIES[w.choice("family", 4)]
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    s = solver_of(w, fam, X, KITE[1], dt=dt)
    Calls(w, by_time(w, s, dt, 4, n))
    c = w.real("factor", 2)
    p = probe(w)(c)
    res = s.solve(n_steps=3, output_step=(1, 2, 3), products=[p], **Data(w, fam, n).kwargs())
    want = [(st.time, c * st.displacement + st.velocity) for st in res]
    for k, st in enumerate(res):
        w.prove_int(list(st.products), ["probe"], "products of a snapshot")
        q = st.products["probe"]
        w.prove(type(q) is type(p), "kind of a copied product")
        w.prove_eq(q.factor, c, "parameters of a copied product")
        recorded(w, q, want[:k + 1], f"snapshot {k + 1}")
    recorded(w, p, want, "running product")
    res[0].products["probe"].data.clear()
    recorded(w, p, want, "after changes of a copy")
    recorded(w, res[1].products["probe"], want[:2], "after changes of another copy")


def partner_probe(w, field):
    """a user-defined product of the displacement and the coupled field"""
    from conmech.state.products.product import Product

    class Probe(Product):
        def __init__(self, factor):
            super().__init__("probe")
            self.factor = factor

        def update(self, state):
            self.data[state.time] = (
                self.factor * state.displacement[:, 0] + getattr(state, field))

    return Probe


@harness("C25", stubs=STUB, bounds="two triangles, 2 steps, symbolic fields; thermal and both "
                                   "piezoelectric problems, a product of the user's own")
def run_coupled(w):
    """products injected into coupled runs see both fields of the step"""
    fam = FAMILIES[4 + w.choice("family", 3)]
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    s = solver_of(w, fam, X, KITE[1], dt=dt)
    Calls(w, by_time(w, s, dt, 3, n))
    c = w.real("factor", 2)
    field = "temperature" if fam == "temperature" else "electric_potential"
    p = partner_probe(w, field)(c)
    res = list(s.solve(n_steps=2, output_step=(1, 2), products=[p], **Data(w, fam, n).kwargs()))
    want = [(st.time, c * st.displacement[:, 0] + getattr(st, field)) for st in res]
    for k, st in enumerate(res):
        w.prove_int(list(st.products), ["probe"], "products of a snapshot")
        recorded(w, st.products["probe"], want[:k + 1], f"snapshot {k}")


@harness("C25", stubs=STUB, bounds="two triangles, wave, 2 + 2 steps, resumed from a snapshot")
def resumed(w):
    """products continue in a resumed run"""
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    s = solver_of(w, "wave", X, KITE[1], dt=dt)
    Calls(w, by_time(w, s, dt, 5, n))
    p = probe(w)(w.const(F(3)))
    res = s.solve(n_steps=2, output_step=(1, 2), products=[p], **Data(w, "wave", n).kwargs())
    more = s.solve(n_steps=2, output_step=(1, 2), initial_displacement=None, initial_velocity=None,
                   state=res[-1].copy())
    want = [(st.time, 3 * st.displacement + st.velocity) for st in res + more]
    for k, st in enumerate(res + more):
        recorded(w, st.products["probe"], want[:k + 1], f"snapshot {k + 1}")
    recorded(w, p, want[:2], "product of the first run")


@harness("C25", stubs=STUB, bounds="two triangles, static, two products")
def static(w):
    """products of a static problem; several products at once"""
    from conmech.state.products.penetration import Penetration

    X = w.consts(KITE[0])
    n = len(X)
    s = make_static(w, X, KITE[1], "global", law=zero_law(), **marked(w, X, KITE[1], LOWER))
    Calls(w, lambda k, x0: w.reals("s", (2 * n,)))
    p = probe(w)(w.const(F(3)))
    st = s.solve(initial_displacement=const_field(w.reals("u0", (n, 2))), products=[p, Penetration()])
    w.prove_int(sorted(st.products), ["penetration", "probe"], "products")
    recorded(w, st.products["probe"], [(st.time, 3 * st.displacement)], "static")
    w.prove_int(len(st.products["penetration"].data), 1, "one entry")
    lowest(w, st, st.products["penetration"].data[st.time])


def lowest(w, st, value):
    ys = [st.body.mesh.nodes[i][1] + st.displacement[i][1]
          for i in range(st.body.mesh.nodes_count) if i in set(map(int, contact_nodes(st)))]
    w.prove(w.both(*[w.le(value, y) for y in ys]), "penetration: not above any contact node")
    w.prove(w.either(*[w.eq(value, y) for y in ys]), "penetration: height of a contact node")


def contact_nodes(st):
    return np.unique(np.asarray(st.body.mesh.boundaries.contact_boundary))


@harness("C25", bounds="two triangles with every set of boundary kinds, symbolic fields, 2 updates")
def penetration(w):
    """penetration is the lowest height of a contact node, zero without contact"""
    from conmech.state.products.penetration import Penetration
    from conmech.state.state import State

    X = w.consts(KITE[0])
    n = len(X)
    contact = w.choice("contact", 2)
    kw = marked(w, X, KITE[1], LOWER) if contact else {}
    mesh = make_mesh(X, w.int_array(KITE[1]), **kw)
    st = State(new_body(w, mesh))
    p = Penetration()
    st.inject_product(p)
    times = []
    for k in range(2):
        t = w.const(F(k + 1, 4))
        st.set_velocity(w.reals(f"v{k}", (2 * n,)), time=t, update_displacement=True)
        times.append(t)
        w.prove_int(len(p.data), k + 1, "one entry per update")
        if contact:
            lowest(w, st, p.data[t])
        else:
            w.prove_eq(p.data[t], 0, "no contact, no penetration")


@harness("C25", bounds="records at 4 times, symbolic ends of the range")
def time_range(w):
    """range keeps the entries with start < time <= stop and leaves the original alone"""
    Probe = probe(w)
    p = Probe(w.real("factor", 2))
    vals = w.reals("v", (4,))
    ts = [w.const(F(k, 4)) for k in range(4)]
    for t, v in zip(ts, vals):
        p.data[t] = v
    a, b = w.real("start", F(1, 8)), w.real("stop", F(1, 2))
    q = p.range(a, b)
    w.prove(type(q) is Probe and q.name == p.name, "kind and name of the restriction")
    w.prove_eq(q.factor, p.factor, "parameters of the restriction")
    for t, v in zip(ts, vals):
        inside = w.both(w.lt(a, t), w.le(t, b))
        got = lookup(w, q.data, t)
        if got is None:
            w.prove(w.negate(inside), "entry is missing only outside of the range")
        else:
            w.prove(inside, "entry is kept only inside of the range")
            w.prove_eq(got, v, "kept value")
    w.prove_int(len(p.data), 4, "original record")
    q.data.clear()
    recorded(w, p, list(zip(ts, vals)), "original record")


# ------------------------------------------------------------------------- intersections

RECT = (  # width 4, height 1/2: the scan of n nodes has step 1/(2 n)
    [[F(0), F(0)], [F(4), F(0)], [F(4), F(1, 2)], [F(0), F(1, 2)]],
    [[0, 1, 2], [0, 2, 3]],
)


def plate(w, stretch=1):
    from conmech.state.state import State

    X = w.consts([[x, y * stretch] for x, y in RECT[0]])
    mesh = make_mesh(X, w.int_array(RECT[1]))
    return State(new_body(w, mesh)), len(X)


def line(w, st, level, y):
    from vsym.libmodels import LinearTriInterpolator, Triangulation

    nodes = np.asarray(st.body.mesh.nodes)
    return LinearTriInterpolator(Triangulation(nodes[:, 0], nodes[:, 1], st.body.mesh.elements),
                                 np.asarray(st.displacement)[:, 0])(level, y)


@harness("C25", stubs="matplotlib's linear interpolation replaced by its exact definition",
         bounds="two triangles, symbolic deflections, 2 updates")
def intersection(w):
    """the vertical intersection samples the current deflection along its line"""
    from conmech.state.products import verticalintersection as module

    st, n = plate(w)
    p = named(w, module.VerticalIntersection)
    st.inject_product(p)
    for k in range(2):
        t = w.const(F(k + 1, 4))
        st.set_velocity(w.reals(f"v{k}", (2 * n,)), time=t, update_displacement=True)
        ys, us = p.data[t]
        w.prove(len(ys) == len(us) and len(ys) >= 2, "samples")
        for y, u in zip(ys, us):
            w.prove_eq(u, line(w, st, w.const(F(1)), y), "deflection at a sample")
        w.prove_eq([ys[0], ys[-1]], w.arr([0, w.const(F(1, 2))]), "the line crosses the whole body")
    w.prove_int(len(p.data), 2, "one entry per update")


def named(w, cls, *args):
    """construct with a plain number (names format it), then give the exact level"""
    p = cls(1.0, *args)
    p.level = w.const(F(1))
    return p


@harness("C25", stubs="matplotlib's linear interpolation by its definition; brentq by an arbitrary "
                      "root within its bracket",
         bounds="two triangles, symbolic deflections and obstacle, all sign patterns of 5 samples, "
                "height a multiple of the sampling step or not")
def limit_points(w):
    """limit points of contact: one zero per sample on the obstacle and per change of sign"""
    from conmech.state.products import intersection_contact_limit_points as module

    roots = []

    def brentq(f, a, b):
        r = w.real(f"root{len(roots)}")
        fa, fb = f(a), f(b)
        w.prove(w.le(fa * fb, 0), "bracket with a change of sign")
        w.assume(w.both(w.le(a, r), w.le(r, b)))
        roots.append((a, b, r))
        return r

    w.stub_root_finder(brentq)
    stretch = (1, F(7, 8))[w.choice("height", 2)]
    st, n = plate(w, stretch)
    obstacle = w.real("obstacle", F(1, 4))
    cls = module.VerticalIntersectionContactLimitPoints
    p = named(w, cls, obstacle)
    st.inject_product(p)
    st.set_velocity(w.reals("v", (2 * n,)), time=w.const(F(1)), update_displacement=True)
    zeros = p.data[w.const(F(1))]
    # the last sample is at the end of the line
    ys = [w.const(F(k, 8)) for k in range(4)] + [w.const(stretch / F(2))]
    fs = [line(w, st, w.const(F(1)), y) - obstacle for y in ys]
    exact = [y for y, f in zip(ys, fs) if bool(f == 0)]
    crossings = [(ys[k], ys[k + 1]) for k in range(4)
                 if bool(fs[k] * fs[k + 1] < 0)]
    w.prove_int(len(zeros), len(exact) + len(crossings), "number of limit points")
    for y in exact:
        w.prove(w.either(*[w.eq(z, y) for z in zeros]), "a sample on the obstacle is reported")
    for a, b in crossings:
        w.prove(w.either(*[w.both(w.le(a, z), w.le(z, b)) for z in zeros]),
                "a change of sign is reported")

