"""C19: condensation to contact nodes is equivalent to the full system."""

import numpy as np

from props.c09 import prescribed
from props.c17 import smooth_law
from props.common import (Calls, F, Marker, SQUARE5, boundary_of, const_field, flat, make_poisson,
                          make_static, make_timed, make_wave, poly_field, strip, TWO_TET)
from vsym.world import harness

STUB = "optimiser replaced by arbitrary (symbolic) answers"


def square(w, zero=False):
    """4 triangles with an interior node; bottom in contact, one node fixed"""
    X = w.consts(SQUARE5[0])
    el = SQUARE5[1]
    mk = Marker(w, X, el)
    table = {("f", frozenset((0, 1))): True, ("n", 0): True, ("n", 1): True}
    bc, vals, find = prescribed(w, X, el, [2], "g")
    if zero:
        bc = mk.predicate({("n", 2): True})
    return X, el, {"dirichlet": bc, "contact": mk.predicate(table)}


def row(w):
    """6 nodes; bottom in contact, top right fixed"""
    N, el = strip(2, 1)
    X = w.consts(N)
    mk = Marker(w, X, el)
    bottom = {0, 1, 2}
    table = {("n", i): True for i in bottom}
    table.update({("f", f): True for f in boundary_of(el) if f <= bottom})
    bc, vals, find = prescribed(w, X, el, [5], "g")
    return X, el, {"dirichlet": bc, "contact": mk.predicate(table)}


def corner(w):
    """6 nodes; left side in contact up to the fixed top (contact faces reach fixed nodes)"""
    N, el = strip(1, 2)
    X = w.consts(N)
    mk = Marker(w, X, el)
    table = {("f", f): True for f in boundary_of(el) if f <= {0, 2, 4}}
    table.update({("n", 0): True, ("n", 2): True})
    bc, _, _ = prescribed(w, X, el, [4, 5], "g")
    return X, el, {"dirichlet": bc, "contact": mk.predicate(table)}


def tetrahedra(w):
    """two tetrahedra; one outer face in contact, the opposite node fixed, one free node"""
    X = w.consts(TWO_TET[0])
    el = TWO_TET[1]
    mk = Marker(w, X, el)
    table = {("f", frozenset((0, 1, 2))): True}
    table.update({("n", i): True for i in (0, 1, 2)})
    bc, _, _ = prescribed(w, X, el, [4], "g")
    return X, el, {"dirichlet": bc, "contact": mk.predicate(table)}


def free_dofs(s, comps, scalar_len=None):
    n = s.body.mesh.nodes_count
    m = len(np.unique(np.asarray(s.body.mesh.boundaries.contact_boundary)))
    fixed = {int(i) for i in range(n - s.body.mesh.boundaries.dirichlet_nodes_count, n)}
    con = {int(i) for f in s.body.mesh.boundaries.contact_boundary for i in f}
    _ = m
    free = [i for i in range(n) if i not in con - fixed and i not in fixed]
    return [c * n + i for c in range(comps) for i in free]


def derivative(fun, x, i):
    hi, lo = x.copy(), x.copy()
    hi[i] = hi[i] + 1
    lo[i] = lo[i] - 1
    return (fun(hi) - fun(lo)) / 2


def equivalent(w, build, solve, steps, comps, pad=0, rest=0):
    """build(method), solve(solver) -> list of full solutions per step (component-major)"""
    runs = []
    for tag in ("a", "b"):
        s = build("schur")
        # both runs share all answers but the last one
        c = Calls(w, lambda k, x0: w.consts([0] * len(x0)) if k < rest else
                  w.reals(f"a{k}" if k < steps - 1 else f"{tag}{k}", (len(x0),)))
        sols = solve(s)
        runs.append((s, c, sols))
    (s, ca, sa), (_, cb, sb) = runs
    w.prove_int([len(ca.calls), len(cb.calls)], [steps] * 2, "one minimisation per step")
    g = build("global")
    cg = Calls(w, lambda k, x0: w.arr(np.concatenate((sa[k], w.arr([0] * pad)))))
    solve(g)
    w.prove_int(len(cg.calls), steps, "one minimisation per step")
    full = lambda x: w.arr(np.concatenate((x, w.arr([0] * pad))))  # noqa: E731
    for k in range(steps):
        Fg = lambda x: cg.value(k, full(x))[0]  # noqa: E731
        for i in free_dofs(s, comps):
            w.prove_eq(derivative(Fg, sa[k], i), 0, f"equation of a free unknown, step {k + 1}")
    k = steps - 1
    Fs = lambda x: ca.value(k, x)[0]  # noqa: E731
    Fg = lambda x: cg.value(k, full(x))[0]  # noqa: E731
    w.prove_eq(Fs(ca.given[k]) - Fs(cb.given[k]), Fg(sa[k]) - Fg(sb[k]),
               f"condensed and full functional differ by a constant, step {k + 1}")


def displacement(w, place, fam, steps, mats=None, rest=0, ramp=False):
    X, el, kw = place(w)
    n = len(X)
    Law = smooth_law(w)
    f, g = poly_field(w, "f", 2, 2, time=not ramp), poly_field(w, "q", 2, 2, time=not ramp)
    if ramp:
        late = lambda h: lambda x, t=0: w.arr(h(x) * t)  # noqa: E731
        f, g = late(f), late(g)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    if rest:
        u0, v0 = w.consts([[0, 0]] * n), w.consts([[0, 0]] * n)
    # equal prescribed values everywhere: states at fixed nodes are consistent from the start
    build = lambda m: (  # noqa: E731
        make_static(w, X, el, m, law=Law, inner=f, outer=g, **kw) if fam == "static" else
        make_timed(w, X, el, fam, m, law=Law, inner=f, outer=g, mats=mats, **kw))

    def solve(s):
        if fam == "static":
            return [flat(s.solve(initial_displacement=const_field(u0)).displacement)]
        other = "initial_absement" if fam == "relaxation" else "initial_velocity"
        res = s.solve(n_steps=steps, output_step=range(1, steps + 1),
                      initial_displacement=const_field(u0), **{other: const_field(v0)})
        return [flat(r.displacement if fam == "relaxation" else r.velocity) for r in res]

    equivalent(w, build, solve, steps, 2, rest=rest)


@harness("C19", stubs=STUB, bounds="4 triangles and 6 nodes, symbolic loads, values, law and "
                                   "answers; static displacement")
def static(w):
    """static displacement"""
    displacement(w, (square, row)[w.choice("mesh", 2)], "static", 1)


@harness("C19", stubs=STUB, bounds="6 nodes, contact faces that reach fixed nodes, symbolic "
                                   "prescribed values; static")
def shared_corner(w):
    """contact faces that end at fixed nodes"""
    displacement(w, corner, "static", 1)


@harness("C19", stubs=STUB, bounds="4 triangles, 2 steps, symbolic states, affine loads")
def quasistatic(w):
    """quasistatic velocity"""
    displacement(w, square, "quasistatic", 2)


@harness("C19", stubs=STUB, bounds="4 triangles, 2 steps, symbolic states, affine loads")
def dynamic(w):
    """dynamic velocity"""
    displacement(w, square, "dynamic", 2)


@harness("C19", stubs=STUB, bounds="4 triangles, 2 steps, time-dependent tensor (symmetric operator), "
         "symbolic states")
def relaxation(w):
    """long memory: the condensed matrix follows the time-dependent operator"""
    # tensors of symmetric operators: c[1][1][0] = c[0][0][1], c[1][0][1] = c[0][1][0]
    a = w.consts([[[1, F(1, 4)], [F(1, 8), F(1, 2)]], [[2, F(1, 8)], [F(1, 4), 3]]])
    c = w.consts([[[1, -2], [F(3, 4), F(1, 2)]], [[-1, F(3, 4)], [-2, 3]]])
    displacement(w, square, "relaxation", 2, {"relaxation": lambda t: w.arr(a + t * c)})


@harness("C19", stubs=STUB, bounds="6 nodes, 2 steps, symbolic states and loads; wave")
def wave(w):
    """wave velocity"""
    X, el, kw = (row, corner)[w.choice("mesh", 2)](w)
    n = len(X)
    Law = smooth_law(w)
    f, g = poly_field(w, "f", 2, 1), poly_field(w, "q", 2, 1)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))

    def solve(s):
        res = s.solve(n_steps=2, output_step=(1, 2), initial_displacement=const_field(u0),
                      initial_velocity=const_field(v0))
        return [w.arr(np.asarray(r.velocity)[:, 0]) for r in res]

    equivalent(w, lambda m: make_wave(w, X, el, m, law=Law, inner=f, outer=g, **kw), solve, 2, 1,
               pad=n)


@harness("C19", stubs=STUB, bounds="4 triangles and 6 nodes, symbolic sources; Poisson")
def poisson(w):
    """temperature"""
    X, el, kw = (square, row, corner)[w.choice("mesh", 3)](w)
    Law = smooth_law(w)
    f, g = poly_field(w, "f", 2, 1), poly_field(w, "q", 2, 1)
    equivalent(w, lambda m: make_poisson(w, X, el, m, law=Law, internal=f, outer=g, **kw),
               lambda s: [w.arr(s.solve().temperature)], 1, 1)


@harness("C19", stubs=STUB, bounds="6 nodes, contact faces that reach fixed nodes, 1 step, initial "
                                   "velocities that disagree with the prescribed values")
def dynamic_corner(w):
    """prescribed values hold from the first step on"""
    displacement(w, corner, "dynamic", 1)


@harness("C19", stubs=STUB, bounds="4 triangles, 2 steps, affine loads, a body at rest; quasistatic, "
                                   "dynamic")
def at_rest(w):
    """a body that starts at rest"""
    displacement(w, square, ("quasistatic", "dynamic")[w.choice("family", 2)], 2, rest=1)


@harness("C19", stubs=STUB, bounds="4 triangles, 2 steps, loads that grow from zero, a body that stays "
                                   "at rest in the first step; quasistatic, dynamic")
def ramp(w):
    """loads that begin to act on a body at rest"""
    displacement(w, lambda v: square(v, True), ("quasistatic", "dynamic")[w.choice("family", 2)],
                 2, rest=1, ramp=True)


@harness("C19", stubs=STUB, bounds="two tetrahedra, one contact face, one fixed and one free node, symbolic "
                                   "loads, values, law and answers; static and quasistatic (1 step)")
def solid(w):
    """three dimensions"""
    X, el, kw = tetrahedra(w)
    Law = smooth_law(w)
    f = poly_field(w, "f", 3, 3)
    u0, v0 = w.reals("u0", (5, 3)), w.reals("v0", (5, 3))
    fam = ("static", "quasistatic")[w.choice("family", 2)]
    build = lambda m: (  # noqa: E731
        make_static(w, X, el, m, law=Law, inner=f, **kw) if fam == "static" else
        make_timed(w, X, el, fam, m, law=Law, inner=f, **kw))

    def solve(s):
        if fam == "static":
            return [flat(s.solve(initial_displacement=const_field(u0)).displacement)]
        return [flat(r.velocity) for r in s.solve(
            n_steps=1, initial_displacement=const_field(u0), initial_velocity=const_field(v0))]

    equivalent(w, build, solve, 1, 3)
