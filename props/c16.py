"""C16: the minimised functional is energy plus the contact cost of its law."""

import numpy as np

from props.common import (Calls, F, Marker, TWO_TET, boundary_of, const_field, make_poisson,
                          make_static, make_timed, make_wave, signed_det, zero_law)
from vsym.world import harness

STUB = "optimiser replaced by an arbitrary (symbolic) answer"

# two triangles; the two lower faces have rational lengths and different directions
KITE = (
    [[F(0), F(0)], [F(3), F(-4)], [F(8), F(8)], [F(1), F(9)]],
    [[0, 1, 2], [3, 0, 2]],
)


def law_class(w, tag="", tangential=True, bounds=True, base=None):
    """contact law with symbolic coefficients"""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    p = [w.real(f"p{tag}{k}", 2 - k) for k in range(6)]
    b = [w.real(f"b{tag}{k}", k + 1) for k in range(4)]
    q = [w.real(f"q{tag}{k}", 3 - k) for k in range(4)]
    c = [w.real(f"c{tag}{k}", k - 2) for k in range(4)]
    p0, p1, p2, p3, p4, p5 = p
    b0, b1, b2, b3 = b
    q0, q1, q2, q3 = q
    c0, c1, c2, c3 = c

    def normal(v, s, dt):
        return p0 + p1 * v + p2 * v * v + p3 * s * v + p4 * s + p5 * dt * v

    def bound(v, s, dt):
        return b0 + b1 * v + b2 * s + b3 * dt

    def slip(v, s, dt):
        return q0 + q1 * (v * v).sum() + q2 * (v * s).sum() + q3 * dt

    def slip_bound(v, s, dt):
        return c0 + c1 * v + c2 * s + c3 * dt

    ns = {"potential_normal_direction": staticmethod(normal)}
    if bounds:
        ns["normal_bound"] = staticmethod(bound)
        ns["tangential_bound"] = staticmethod(slip_bound)
    if tangential:
        ns["potential_tangential_direction"] = staticmethod(slip)

    def cost(vn, vt, sn, st, dt):
        r = normal(vn, sn, dt) * (bound(vn, sn, dt) if bounds else 1)
        if tangential:
            t = (q0 + q1 * sum(a * a for a in vt) + q2 * sum(a * e for a, e in zip(vt, st))
                 + q3 * dt)
            r = r + t * (slip_bound(vn, sn, dt) if bounds else 1)
        return r

    return type("Law", (base or PotentialOfContactLaw,), ns), cost


def faces(w, X, mesh, chosen):
    """[(i, j, opposite)] in the numbering of the mesh for the chosen faces (given numbering)"""
    find = w.locate([(i, X[i]) for i in range(len(X))])
    number = [find(p) for p in np.asarray(mesh.nodes)]
    at = {k: i for i, k in enumerate(number)}
    el = [[number[int(i)] for i in e] for e in mesh.elements]
    bnd = boundary_of(el)
    out = []
    for f in chosen:
        i, j = sorted(f)
        out.append((at[i], at[j], at[bnd[f][1]]))
    return out, at


def normal_of(w, P, i, j, k):
    t = P[j] - P[i]
    L = w.sqrt(t[0] * t[0] + t[1] * t[1])
    n = [t[1] / L, -t[0] / L]
    side = n[0] * (P[k][0] - P[i][0]) + n[1] * (P[k][1] - P[i][1])
    if bool(side > 0):
        n = [-n[0], -n[1]]
    return L, n


def contact_cost(w, P, fcs, cost, value, old, dt):
    """value(node) / old(node) -> list of components"""
    total = 0
    for i, j, k in fcs:
        L, n = normal_of(w, P, i, j, k)
        s = [(a + b) / 2 for a, b in zip(old(i), old(j))]
        pts = [[(a + b) / 2 for a, b in zip(value(i), value(j))], value(i), value(j)]
        for v in pts:
            if len(v) == 1:
                total = total + L / 3 * cost(v[0], [], s[0], [], dt)
            else:
                vn = v[0] * n[0] + v[1] * n[1]
                sn = s[0] * n[0] + s[1] * n[1]
                vt = [v[c] - vn * n[c] for c in range(2)]
                st = [s[c] - sn * n[c] for c in range(2)]
                total = total + L / 3 * cost(vn, vt, sn, st, dt)
    return total


def marked(w, X, el, chosen, dirichlet=()):
    mk = Marker(w, X, el)
    table = {("f", f): True for f in chosen}
    table.update({("n", i): True for f in chosen for i in f})
    out = {"contact": mk.predicate(table)}
    return out


def at_node(vec, n, d):
    return lambda i: [vec[c * n + i] for c in range(d)]


LOWER = [frozenset((0, 1)), frozenset((0, 3))]


def run_pair(w, build, solve, count, size):
    """the same simulation with the law and without it: list of functionals"""
    out = []
    for law in (True, False):
        s = build(law)
        calls = Calls(w, lambda k, x0: w.reals(f"s{k}", (len(x0),)))
        res = solve(s)
        list(res) if not hasattr(res, "body") else None
        out.append((s, calls))
    (s, a), (_, b) = out
    w.prove_int([len(a.calls)] * 2, [count, len(b.calls)], "one minimisation per step")
    return s, lambda k, x: a.value(k, x)[0] - b.value(k, x)[0]


@harness("C16", stubs=STUB, bounds="two triangles with two contact faces of different direction, "
                                   "symbolic initial displacement and unknown, law with 18 "
                                   "symbolic coefficients; global, static")
def static(w):
    """displacement problem, two components"""
    X = w.consts(KITE[0])
    n = len(X)
    Law, cost = law_class(w)
    u0 = w.reals("u0", (n, 2))
    s, diff = run_pair(
        w, lambda on: make_static(w, X, KITE[1], "global", law=Law if on else zero_law(),
                                  **marked(w, X, KITE[1], LOWER)),
        lambda s: s.solve(initial_displacement=const_field(u0)), 1, 2 * n)
    fcs, _ = faces(w, X, s.body.mesh, LOWER)
    x = w.reals("x", (2 * n,))
    old = u0.T.reshape(-1)
    w.prove_eq(diff(0, x), contact_cost(w, np.asarray(s.body.mesh.nodes), fcs, cost,
                                        at_node(x, n, 2), at_node(old, n, 2), 0), "contact cost")


def timed(w, fam, tangential):
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    Law, cost = law_class(w, tangential=tangential)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    kw = {"initial_absement" if fam == "relaxation" else "initial_velocity": const_field(v0)}
    s, diff = run_pair(
        w, lambda on: make_timed(w, X, KITE[1], fam, "global", law=Law if on else zero_law(),
                                 dt=dt, **marked(w, X, KITE[1], LOWER)),
        lambda s: s.solve(n_steps=2, initial_displacement=const_field(u0), **kw), 2, 2 * n)
    fcs, _ = faces(w, X, s.body.mesh, LOWER)
    x = w.reals("x", (2 * n,))
    u = u0.T.reshape(-1)
    P = np.asarray(s.body.mesh.nodes)
    for k in range(2):
        w.prove_eq(diff(k, x), contact_cost(w, P, fcs, cost, at_node(x, n, 2), at_node(u, n, 2),
                                            dt), f"contact cost of step {k + 1}")
        sk = w.reals(f"s{k}", (2 * n,))
        u = sk if fam == "relaxation" else u + dt * sk


@harness("C16", stubs=STUB, bounds="two triangles, 2 contact faces, 2 steps, symbolic law, global")
def dynamic(w):
    """velocity problem: the displacement of the previous step enters by its face mean"""
    timed(w, "dynamic", True)


@harness("C16", stubs=STUB, bounds="two triangles, 2 contact faces, 2 steps, symbolic law, global")
def quasistatic(w):
    """quasistatic velocity problem"""
    timed(w, "quasistatic", False)


@harness("C16", stubs=STUB, bounds="two triangles, 2 contact faces, 2 steps, symbolic law, global")
def relaxation(w):
    """long-memory displacement problem"""
    timed(w, "relaxation", True)


@harness("C16", stubs=STUB, bounds="4 triangles, contact faces that share a node with the fixed "
                                   "part of the boundary, symbolic prescribed values; condensed "
                                   "(schur) static, dynamic and wave")
def condensed(w):
    """nodes of contact faces that are not unknowns enter with their prescribed values"""
    from props.c09 import prescribed
    from props.common import strip

    N, el = strip(1, 2)
    X = w.consts(N)
    n = len(X)
    fam = ["static", "dynamic", "wave"][w.choice("family", 3)]
    # left side in contact (nodes 0, 2, 4), top fixed (nodes 4, 5)
    chosen = [f for f in boundary_of(el) if f <= {0, 2, 4}]
    mk = Marker(w, X, el)
    table = {("f", f): True for f in chosen}
    table.update({("n", i): True for i in (0, 2)})
    contact = mk.predicate(table)
    bc, g, find = prescribed(w, X, el, [4, 5], "g")
    d = 1 if fam == "wave" else 2
    dt = w.const(F(1, 8))
    Law, cost = law_class(w, tangential=fam != "wave")
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    kw = {"dirichlet": bc, "contact": contact}

    def build(on):
        law = Law if on else zero_law()
        if fam == "static":
            return make_static(w, X, el, "schur", law=law, **kw)
        if fam == "wave":
            return make_wave(w, X, el, "schur", law=law, dt=dt, **kw)
        return make_timed(w, X, el, fam, "schur", law=law, dt=dt, **kw)

    def solve(s):
        if fam == "static":
            return s.solve(initial_displacement=const_field(u0))
        return s.solve(n_steps=1, initial_displacement=const_field(u0),
                       initial_velocity=const_field(v0))

    s, diff = run_pair(w, build, solve, 1, 2 * n)
    mesh = s.body.mesh
    fcs, at = faces(w, X, mesh, chosen)
    number = {i: k for k, i in at.items()}
    m = 2
    w.prove_int(sorted(number[i] for i in range(m)), [0, 2], "unknown contact nodes come first")
    x = w.reals("x", (d * m,))

    def val(i):
        if i < m:
            return [x[c * m + i] for c in range(d)]
        return [g[number[i]] for c in range(d)]

    w.prove_eq(diff(0, x), contact_cost(
        w, np.asarray(mesh.nodes), fcs, cost, val, lambda i: [u0[i, c] for c in range(d)],
        0 if fam == "static" else dt), "contact cost")


@harness("C16", stubs=STUB, bounds="two triangles, 2 contact faces; wave, 2 steps, global and "
                                   "condensed; symbolic law")
def wave(w):
    """one component: the law sees the deflection itself"""
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    method = ["global", "schur"][w.choice("method", 2)]
    Law, cost = law_class(w, tangential=False)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    s, diff = run_pair(
        w, lambda on: make_wave(w, X, KITE[1], method, law=Law if on else zero_law(), dt=dt,
                                **marked(w, X, KITE[1], LOWER)),
        lambda s: s.solve(n_steps=1, initial_displacement=const_field(u0),
                          initial_velocity=const_field(v0)), 1, n)
    fcs, _ = faces(w, X, s.body.mesh, LOWER)
    m = 3 if method == "schur" else n
    x = w.reals("x", (m,))
    full = x if method == "schur" else w.arr(np.concatenate((x, w.arr([0] * n))))
    w.prove_eq(diff(0, full), contact_cost(
        w, np.asarray(s.body.mesh.nodes), fcs, cost, lambda i: [x[i]], lambda i: [u0[i, 0]], dt),
        "contact cost")


@harness("C16", stubs=STUB, bounds="4 nodes, every node in the interior contact zone; wave with an "
                                   "interior law, 2 steps, global and condensed; symbolic law")
def interior(w):
    """interior laws: half of the mass-weighted nodal potentials"""
    from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw
    from props.common import mesh_ref

    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    Law, cost = law_class(w, tangential=False, bounds=False, base=InteriorContactLaw)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    s, diff = run_pair(
        w, lambda on: make_wave(w, X, KITE[1], "global", law=Law() if on else zero_law(), dt=dt,
                                interior=on),
        lambda s: s.solve(n_steps=2, initial_displacement=const_field(u0),
                          initial_velocity=const_field(v0)), 2, n)
    ref = mesh_ref(w, s.body.mesh)
    x = w.reals("x", (n,))
    full = w.arr(np.concatenate((x, w.arr([0] * n))))
    u = [u0[i, 0] for i in range(n)]
    for k in range(2):
        r = [cost(x[i], [], u[i], [], dt) for i in range(n)]
        want = sum(ref.U[i, j] * r[j] for i in range(n) for j in range(n)) / 2
        w.prove_eq(diff(k, full), want, f"interior cost of step {k + 1}")
        sk = w.reals(f"s{k}", (2 * n,))
        u = [u[i] + dt * sk[i] for i in range(n)]


@harness("C16", stubs=STUB, bounds="two triangles, 2 contact faces; Poisson, global and condensed; "
                                   "symbolic law")
def poisson(w):
    """temperature problem"""
    X = w.consts(KITE[0])
    n = len(X)
    method = ["global", "schur"][w.choice("method", 2)]
    Law, cost = law_class(w, tangential=False)

    def build(on):
        return make_poisson(w, X, KITE[1], method, law=Law if on else None,
                            **marked(w, X, KITE[1], LOWER))

    s, diff = run_pair(w, build, lambda s: s.solve(), 1, n)
    fcs, _ = faces(w, X, s.body.mesh, LOWER)
    m = 3 if method == "schur" else n
    x = w.reals("x", (m,))
    w.prove_eq(diff(0, x), contact_cost(
        w, np.asarray(s.body.mesh.nodes), fcs, cost, lambda i: [x[i]], lambda i: [0], 0),
        "contact cost")


@harness("C16", stubs=STUB, bounds="one triangle with 6 symbolic coordinates, any face in contact; "
                                   "normal law with 3 symbolic coefficients; global static")
def geometry(w):
    """length and normal are those of the face, for every geometry"""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    el = [[0, 1, 2]]
    X = w.reals("X", (3, 2), [[0, 0], [3, F(1, 2)], [1, 2]])
    w.assume(w.gt(signed_det(X), 0))
    f = [frozenset((0, 1)), frozenset((1, 2)), frozenset((0, 2))][w.choice("face", 3)]
    p0, p1, p2 = w.real("p0", 2), w.real("p1", 1), w.real("p2", -1)

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return p0 + p1 * var_nu + p2 * var_nu * var_nu

    s, diff = run_pair(
        w, lambda on: make_static(w, X, el, "global", law=Law if on else zero_law(),
                                  **marked(w, X, el, [f])),
        lambda s: s.solve(initial_displacement=const_field(w.arr(np.zeros((3, 2))))), 1, 6)
    fcs, _ = faces(w, X, s.body.mesh, [f])
    x = w.reals("x", (6,))
    w.prove_eq(diff(0, x), contact_cost(
        w, np.asarray(s.body.mesh.nodes), fcs, lambda vn, vt, sn, st, dt: p0 + p1 * vn
        + p2 * vn * vn, at_node(x, 3, 2), lambda i: [0, 0], 0), "contact cost")


@harness("C16", stubs=STUB, known=True,
         bounds="two tetrahedra, one contact face, global static; law = constant potential")
def solid(w):
    """three dimensions: a constant potential costs potential times contact area (known finding)"""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    X = w.consts(TWO_TET[0])
    el = TWO_TET[1]
    f = frozenset((0, 1, 3))
    p0 = w.pos("p0", 2)

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return p0

    mk = Marker(w, X, el)
    bnd = {"contact": mk.predicate({("f", f): True, **{("n", i): True for i in f}})}
    s, diff = run_pair(
        w, lambda on: make_static(w, X, el, "global", law=Law if on else zero_law(), **bnd),
        lambda s: s.solve(initial_displacement=const_field(w.arr(np.zeros((5, 3))))), 1, 15)
    from props.common import cross3

    a, b, c = (X[i] for i in sorted(f))
    v = cross3(b - a, c - a)
    area = w.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / 2
    w.prove_eq(diff(0, w.arr(np.zeros(15))), p0 * area, "3D contact cost: potential times area")


@harness("C16", stubs=STUB, bounds="two tetrahedra, one contact face, global static; law with 3 "
                                   "symbolic coefficients plus a tangential part; per unit weight")
def solid_shape(w):
    """three dimensions, up to the weight of the face: mean over centroid and corners"""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw
    from props.common import cross3

    X = w.consts(TWO_TET[0])
    n = 5
    f = frozenset((0, 1, 3))
    p = [w.real(f"p{k}", 2 - k) for k in range(3)]
    q1 = w.real("q1", 3)
    p0, p1, p2 = p

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return p0 + p1 * var_nu + p2 * var_nu * static_displacement_nu

        @staticmethod
        def potential_tangential_direction(var_tau, static_displacement_tau, dt):
            return q1 * (var_tau * static_displacement_tau).sum()

    class Unit(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return 1.0 + 0.0 * var_nu

    mk = Marker(w, X, TWO_TET[1])
    bnd = {"contact": mk.predicate({("f", f): True, **{("n", i): True for i in f}})}
    u0 = w.reals("u0", (n, 3))
    x = w.reals("x", (3 * n,))
    got = []
    for law in (Law, Unit, zero_law()):
        s = make_static(w, X, TWO_TET[1], "global", law=law, **bnd)
        calls = Calls(w, lambda k, x0: w.reals("s", (15,)))
        s.solve(initial_displacement=const_field(u0))
        got.append(calls.value(0, x)[0])
    weight = got[1] - got[2]
    w.prove(w.gt(weight, 0), "3D: positive weight")
    mesh = s.body.mesh
    find = w.locate([(i, X[i]) for i in range(n)])
    at = {find(z): i for i, z in enumerate(np.asarray(mesh.nodes))}
    a, b, c = (X[i] for i in sorted(f))
    nv = cross3(b - a, c - a)
    L = w.sqrt(nv[0] * nv[0] + nv[1] * nv[1] + nv[2] * nv[2])
    opp = X[[i for i in TWO_TET[1][0] if i not in f][0]]
    sgn = -1 if bool(sum(nv[k] * (opp[k] - a[k]) for k in range(3)) > 0) else 1
    nv = [sgn * z / L for z in nv]
    val = {i: [x[k * n + at[i]] for k in range(3)] for i in f}
    dot = lambda g, h: sum(y * z for y, z in zip(g, h))  # noqa: E731
    mean = lambda vs: [sum(z) / 3 for z in zip(*vs)]  # noqa: E731
    sd = mean([[u0[at[i], k] for k in range(3)] for i in f])
    sn = dot(sd, nv)
    st = [sd[k] - sn * nv[k] for k in range(3)]
    total = 0
    for v in [mean(list(val.values()))] + list(val.values()):
        vn = dot(v, nv)
        vt = [v[k] - vn * nv[k] for k in range(3)]
        total = total + (p0 + p1 * vn + p2 * vn * sn + q1 * dot(vt, st)) / 4
    w.prove_eq(got[0] - got[2], weight * total, "3D contact cost: mean of the law")
