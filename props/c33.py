"""C33: the constrained method keeps exactly the contact nodes above the foundation."""

import numpy as np

from props.c19 import corner, row, square, tetrahedra
from props.c32 import law_of
from props.common import Calls, const_field, flat, make_static, make_timed, poly_field
from vsym.world import harness

STUB = "optimiser replaced by arbitrary (symbolic) answers"


def touching(s):
    """nodes of contact faces that are not fixed, in the numbering of the mesh"""
    b = s.body.mesh.boundaries
    n = s.body.mesh.nodes_count
    fixed = set(range(n - b.dirichlet_nodes_count, n))
    return sorted({int(i) for f in b.contact_boundary for i in f} - fixed)


def admissible(w, kw):
    """the constraints handed to the optimiser as one formula of the unknown"""
    con = kw.get("constraints")
    con = [con] if isinstance(con, dict) else list(con)
    w.prove(len(con) > 0, "constraints are passed")

    def formula(x):
        out = []
        for c in con:
            val = np.asarray(c["fun"](x.copy())).reshape(-1)
            out += [w.ge(v, 0) if c["type"] == "ineq" else w.eq(v, 0) for v in val]
        return w.both(*out)

    return formula


def constrained(w, place, fam, method):
    X, el, bnd = place(w)
    n, d = X.shape
    f, q = (poly_field(w, k, d, d, time=fam != "static") for k in ("f", "q"))
    u0, v0 = w.reals("u0", (n, d)), w.reals("v0", (n, d))
    runs = []
    for extra in ({"method": "constrained"}, {}):
        kw = dict(law=law_of(w), inner=f, outer=q, **bnd)
        if fam == "static":
            s = make_static(w, X, el, method, **kw)
        else:
            s = make_timed(w, X, el, fam, method, **kw)
        calls = Calls(w, lambda k, x0: w.reals(f"a{k}", (len(x0),)))
        if fam == "static":
            res = [s.solve(initial_displacement=const_field(u0), **extra)]
        else:
            res = list(s.solve(n_steps=2, initial_displacement=const_field(u0),
                               initial_velocity=const_field(v0), **extra))
        runs.append((s, calls, res))
    (s, calls, res), (_, plain, other) = runs
    w.prove_int(len(calls.calls), len(plain.calls), "number of minimisations")
    nodes = touching(s)
    for k in range(len(calls.calls)):
        size = len(np.asarray(calls.calls[k][2]).reshape(-1))
        x = w.reals("x", (size,))
        w.prove_eq(calls.value(k, x), plain.value(k, x), "the functional is the same")
        free = admissible(w, calls.calls[k][4])(x)
        m = size // d
        above = w.both(*[w.ge(x[m + i], 0) for i in nodes])
        w.prove(w.implies(free, above), "contact nodes stay above the foundation")
        w.prove(w.implies(above, free), "nothing else is constrained")
    for a, b in zip(res, other):
        w.prove_eq(flat(a.displacement), flat(b.displacement), "the answer is taken over")


def make(fam, method):
    def fn(w):
        constrained(w, (square, row, corner)[w.choice("place", 3)], fam, method)

    fn.__name__ = f"{fam}_{method}"
    fn.__doc__ = f"{fam}, {method}"
    harness("C33", stubs=STUB, bounds="5 or 6 nodes, bottom or left side in contact (also up to "
                                      "fixed nodes), symbolic unknown, loads, law and states; "
                                      "1-2 steps")(fn)


for _f in ("static", "quasistatic", "dynamic"):
    for _m in ("global", "schur"):
        make(_f, _m)


@harness("C33", stubs=STUB, bounds="two tetrahedra, one contact face, one fixed and one free node, symbolic "
                                   "unknown, loads, law and states; static and quasistatic (2 steps), "
                                   "both methods")
def solid(w):
    """three dimensions: the second of three components"""
    constrained(w, tetrahedra, ("static", "quasistatic")[w.choice("family", 2)],
                ("global", "schur")[w.choice("method", 2)])
