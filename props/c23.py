"""C23: solving again, or resuming, equals an uninterrupted fresh run."""

import numpy as np

from props.c16 import KITE, LOWER, marked
from props.c17 import smooth_law
from props.c22 import FAMILIES, Data, by_time, solver_of
from props.common import (Calls, F, const_field, flat, make_poisson, make_static, poly_field)
from vsym.world import harness

STUB = "optimiser replaced by arbitrary (symbolic) answers"


class Interrupted(Exception):
    pass


FIELDS = ("displacement", "velocity", "absement", "displaced_nodes", "temperature",
          "electric_potential", "time")


def same_state(w, a, b, what):
    w.prove(type(a) is type(b), f"{what}: same kind of state")
    for f in FIELDS:
        x, y = getattr(a, f, None), getattr(b, f, None)
        if x is None and y is None:
            continue
        w.prove_eq(x, y, f"{what}: {f}")


def same_calls(w, ca, ia, cb, ib, count, what):
    for k in range(count):
        a, b = ca.calls[ia + k], cb.calls[ib + k]
        w.prove(a[0] == b[0], f"{what}: same kind of problem")
        xa, xb = np.asarray(a[2]).reshape(-1), np.asarray(b[2]).reshape(-1)
        w.prove_eq(xa, xb, f"{what}: same initial guess")
        x = w.reals(f"x{len(xa)}", (len(xa),))
        w.prove_eq(ca.value(ia + k, x), cb.value(ib + k, x), f"{what}: same system")


def again(w, fam, method, n_steps, interrupted):
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    Law = smooth_law(w)
    f, g = (poly_field(w, name, 2, 1 if fam == "wave" else 2) for name in ("f", "q"))
    bnd = marked(w, X, KITE[1], LOWER)
    build = lambda: solver_of(w, fam, X, KITE[1], method, Law, dt, f, g, **bnd)  # noqa: E731
    first, data = Data(w, fam, n, "a"), Data(w, fam, n, "b")
    s = build()
    stop = 0
    if interrupted:
        stop = 1 + w.choice("fails at call", 2 if fam in FAMILIES[:4] else 4)
    inner = by_time(w, s, dt, n_steps, n, "first")

    def failing(k, x0):
        if stop and k + 1 == stop:
            raise Interrupted()
        return inner(k, x0)

    Calls(w, failing)
    try:
        list(s.solve(n_steps=n_steps, **first.kwargs()))
        w.prove(not stop, "a failing optimiser is not silenced")
    except Interrupted:
        pass
    ca = Calls(w, by_time(w, s, dt, n_steps, n))
    ra = list(s.solve(n_steps=n_steps, output_step=range(1, n_steps + 1), **data.kwargs()))
    fresh = build()
    cb = Calls(w, by_time(w, fresh, dt, n_steps, n))
    rb = list(fresh.solve(n_steps=n_steps, output_step=range(1, n_steps + 1), **data.kwargs()))
    w.prove_int([len(ca.calls), len(ra)], [len(cb.calls), len(rb)], "same number of systems")
    same_calls(w, ca, 0, cb, 0, len(cb.calls), "second run")
    for a, b in zip(ra, rb):
        same_state(w, a, b, "second run")


@harness("C23", stubs=STUB, bounds="two triangles, 2 steps per run, global method; quasistatic, "
                                   "dynamic, long memory, wave")
def uncoupled(w):
    """second run of a solver (uncoupled problems)"""
    again(w, FAMILIES[w.choice("family", 4)], "global", 2, False)


@harness("C23", stubs=STUB, bounds="two triangles, 2 steps per run, condensed method; quasistatic, "
                                   "dynamic, long memory, wave")
def uncoupled_condensed(w):
    """second run of a solver, condensed method"""
    again(w, FAMILIES[w.choice("family", 4)], "schur", 2, False)


@harness("C23", stubs=STUB, bounds="two triangles, 2 steps per run, global method; temperature, "
                                   "piezoelectric")
def coupled(w):
    """second run of a solver (coupled problems)"""
    again(w, FAMILIES[4 + w.choice("family", 3)], "global", 2, False)


@harness("C23", stubs=STUB, bounds="two triangles, first run fails at one of 2-4 calls of the "
                                   "optimiser, 2 steps; all time-dependent classes")
def after_failure(w):
    """a run after a run that failed"""
    again(w, FAMILIES[w.choice("family", 7)], "global", 2, True)


@harness("C23", stubs=STUB, bounds="two triangles; static displacement and Poisson, both "
                                   "optimisation methods")
def stationary(w):
    """second run of stationary problems"""
    X = w.consts(KITE[0])
    n = len(X)
    Law = smooth_law(w)
    method = ("global", "schur")[w.choice("method", 2)]
    bnd = marked(w, X, KITE[1], LOWER)
    poisson = w.choice("family", 2)
    f, g = (poly_field(w, name, 2, 2 - poisson) for name in ("f", "q"))
    u = w.reals("u", (2, n, 2))

    def build():
        if poisson:
            return make_poisson(w, X, KITE[1], method, law=Law, internal=f, outer=g, **bnd)
        return make_static(w, X, KITE[1], method, law=Law, inner=f, outer=g, **bnd)

    def solve(s, k):
        if poisson:
            return s.solve()
        return s.solve(initial_displacement=const_field(u[k]))

    s = build()
    Calls(w, lambda k, x0: w.reals("first", (len(x0),)))
    solve(s, 0)
    ca = Calls(w, lambda k, x0: w.reals("s", (len(x0),)))
    a = solve(s, 1)
    fresh = build()
    cb = Calls(w, lambda k, x0: w.reals("s", (len(x0),)))
    b = solve(fresh, 1)
    w.prove_int(len(ca.calls), len(cb.calls), "same number of systems")
    same_calls(w, ca, 0, cb, 0, len(cb.calls), "second run")
    same_state(w, a, b, "second run")


@harness("C23", stubs=STUB, bounds="two triangles, wave: 4 steps against every split into two runs, "
                                   "same or fresh solver, both optimisation methods")
def resume(w):
    """a resumed simulation"""
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    total = 4
    Law = smooth_law(w)
    f, g = poly_field(w, "f", 2, 1), poly_field(w, "q", 2, 1)
    bnd = marked(w, X, KITE[1], LOWER)
    method = ("global", "schur")[w.choice("method", 2)]
    build = lambda: solver_of(w, "wave", X, KITE[1], method, Law, dt, f, g, **bnd)  # noqa: E731
    data = Data(w, "wave", n)
    s = build()
    cb = Calls(w, by_time(w, s, dt, total, n))
    rb = s.solve(n_steps=total, output_step=range(1, total + 1), **data.kwargs())
    split = 1 + w.choice("split", total - 1)
    s = build()
    Calls(w, by_time(w, s, dt, total, n))
    state = s.solve(n_steps=split, **data.kwargs())[-1]
    same_state(w, state, rb[split - 1], "before the interruption")
    if w.choice("fresh solver", 2):
        s = build()
    ca = Calls(w, by_time(w, s, dt, total, n))
    rest = total - split
    ra = s.solve(n_steps=rest, output_step=range(1, rest + 1), initial_displacement=None,
                 initial_velocity=None, state=state)
    w.prove_int(len(ca.calls), rest, "one system per remaining step")
    same_calls(w, ca, 0, cb, split, rest, "resumed run")
    for k in range(rest):
        same_state(w, ra[k], rb[split + k], "resumed run")


_ = flat
