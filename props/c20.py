"""C20: solving methods are interchangeable and served by name."""

import numpy as np

from props.c16 import KITE, LOWER, marked
from props.c17 import smooth_law
from props.c19 import derivative
from props.common import (Calls, F, SQUARE5, const_field, flat, make_poisson, make_static,
                          make_timed, make_wave, poly_field, zero_law)
from vsym.world import harness

STUB = "optimiser / root finder replaced by arbitrary (symbolic) answers"

GLOBAL = ("global", "global optimization")
SCHUR = ("schur", "schur complement", "schur complement method")
DIRECT = ("direct",)


def spelled(name):
    return (name, name.upper(), name.title())


def build(w, fam, X, el, method, law, f, g, kw):
    if fam == "static":
        return make_static(w, X, el, method, law=law, inner=f, outer=g, **kw)
    if fam == "poisson":
        return make_poisson(w, X, el, method, law=law, internal=f, outer=g, **kw)
    if fam == "wave":
        return make_wave(w, X, el, method, law=law, inner=f, outer=g, **kw)
    return make_timed(w, X, el, fam, method, law=law, law2=law, inner=f, outer=g, **kw)


def run(w, s, fam, u0, v0, n):
    if fam == "poisson":
        return s.solve()
    if fam == "static":
        return s.solve(initial_displacement=const_field(u0))
    kw = {"initial_displacement": const_field(u0)}
    kw["initial_absement" if fam == "relaxation" else "initial_velocity"] = const_field(v0)
    if fam == "temperature":
        kw["initial_temperature"] = const_field(w.arr(v0[:, 0]))
    if fam.startswith("piezo"):
        kw["initial_electric_potential"] = const_field(w.arr(v0[:, 0]))
    return list(s.solve(n_steps=1, **kw))


FAMILIES = ("static", "poisson", "wave", "quasistatic", "dynamic", "relaxation", "temperature",
            "piezo", "piezo_dynamic")


def named(w, names, fams):
    X = w.consts(KITE[0])
    n = len(X)
    fam = fams[w.choice("family", len(fams))]
    k = 1 if fam in ("wave", "poisson") else 2
    f, g = poly_field(w, "f", 2, k), poly_field(w, "q", 2, k)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    law = None if names is DIRECT else smooth_law(w)
    want = None
    for name in names:
        for m in spelled(name):
            s = build(w, fam, X, KITE[1], m, law, f, g, marked(w, X, KITE[1], LOWER))
            c = Calls(w, lambda k, x0: w.reals(f"s{k % 2}", (len(x0),)))
            if names is DIRECT:
                r = run(w, s, fam, u0, v0, n)
                got = [w.arr(r.temperature if fam == "poisson" else flat(
                    r.displacement if fam == "static" else r[-1].velocity))]
            else:
                run(w, s, fam, u0, v0, n)
                got = []
                for i in range(2 if fam in FAMILIES[6:] else 1):
                    size = len(np.asarray(c.calls[i][2]).reshape(-1))
                    got.append(c.value(i, w.reals(f"x{i}", (size,))))
            if want is None:
                want = got
            for a, b in zip(got, want):
                w.prove_eq(a, b, f"method '{m}' poses the same problem as '{names[0]}'")


@harness("C20", stubs=STUB, bounds="two triangles, every problem class, 1 step, every name of the "
                                   "global method in 3 spellings")
def names_global(w):
    """names of the global method"""
    named(w, GLOBAL, FAMILIES)


@harness("C20", stubs=STUB, bounds="two triangles, uncoupled problem classes, 1 step, every name "
                                   "of the condensed method in 3 spellings")
def names_schur(w):
    """names of the condensed method"""
    named(w, SCHUR, FAMILIES[:6])


def fixed_square(w):
    from props.c09 import prescribed

    X = w.consts(SQUARE5[0])
    bc, vals, find = prescribed(w, X, SQUARE5[1], [2, 3], "g")
    return X, SQUARE5[1], bc


@harness("C20", bounds="4 triangles, 2 fixed nodes with symbolic values, affine loads; static, "
                       "Poisson, wave (first step), dynamic (first step)")
def direct_linear(w):
    """the direct answer of a problem without contact is stationary for the global functional"""
    X, el, bc = fixed_square(w)
    n = len(X)
    fam = ("static", "poisson", "wave", "dynamic")[w.choice("family", 4)]
    k = 1 if fam in ("wave", "poisson") else 2
    f, g = poly_field(w, "f", 2, k), poly_field(w, "q", 2, k)
    # dynamic problems: a step from rest (non-zero states: direct_steps)
    u0 = w.reals("u0", (n, 2)) if k == 2 and fam == "static" else w.consts([[0, 0]] * n)
    v0 = w.consts([[0, 0]] * n)
    kw = {"dirichlet": bc}
    if fam == "dynamic":
        # time-dependent displacement problems always carry a law
        from conmech.scenarios.problems import DynamicDisplacementProblem
        from conmech.simulations.problem_solver import TimeDependentSolver
        from props.common import _sources, descr, raw_mesh_description

        ns = {"time_step": w.const(F(1, 8)), "th_coef": w.const(F(2)), "ze_coef": w.const(F(7))}
        _sources(ns, f, g, False, w, 2)
        P = type("Setup", (DynamicDisplacementProblem,), ns)
        s = TimeDependentSolver(
            P(raw_mesh_description(X, w.int_array(el)), descr(**kw), mu_coef=w.const(F(3)),
              la_coef=w.const(F(5)), contact_law=None), "direct")
    else:
        s = build(w, fam, X, el, "direct", "none" if fam == "static" else None, f, g, kw)
    r = run(w, s, fam, u0, v0, n)
    x = {"static": lambda: flat(r.displacement), "poisson": lambda: w.arr(r.temperature),
         "wave": lambda: w.arr(np.asarray(r[-1].velocity)[:, 0]),
         "dynamic": lambda: flat(r[-1].velocity)}[fam]()
    pad = n if fam == "wave" else 0
    full = lambda z: w.arr(np.concatenate((z, w.arr([0] * pad))))  # noqa: E731
    s = build(w, fam, X, el, "global", zero_law(), f, g, kw)
    c = Calls(w, lambda k, x0: full(x))
    run(w, s, fam, u0, v0, n)
    fun = lambda z: c.value(0, full(z))[0]  # noqa: E731
    for i in range(len(x)):
        w.prove_eq(derivative(fun, w.arr(x), i), 0, "direct answer is stationary")


@harness("C20", stubs=STUB, known=True, bounds="4 triangles, 2 steps, wave with the direct method")
def direct_steps(w):
    """the direct method follows the state from step to step (known finding)"""
    X, el, bc = fixed_square(w)
    n = len(X)
    f, g = poly_field(w, "f", 2, 1), poly_field(w, "q", 2, 1)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    kw = {"initial_displacement": const_field(u0), "initial_velocity": const_field(v0)}
    r = make_wave(w, X, el, "direct", inner=f, outer=g, dirichlet=bc).solve(
        n_steps=2, output_step=(1, 2), **kw)
    x = [w.arr(np.asarray(z.velocity)[:, 0]) for z in r]
    full = lambda z: w.arr(np.concatenate((z, w.arr([0] * n))))  # noqa: E731
    s = make_wave(w, X, el, "global", law=zero_law(), inner=f, outer=g, dirichlet=bc)
    c = Calls(w, lambda k, x0: full(x[k]))
    s.solve(n_steps=2, output_step=(1, 2), **kw)
    for k in range(2):
        fun = lambda z: c.value(k, full(z))[0]  # noqa: E731
        for i in range(n):
            w.prove_eq(derivative(fun, x[k], i), 0, f"direct method, step {k + 1}")


@harness("C20", bounds="every problem class and every name the documentation gives")
def availability(w):
    """optimisation methods serve every class; unknown names are refused"""
    X = w.consts(KITE[0])
    law = zero_law()
    fam = FAMILIES[w.choice("family", len(FAMILIES))]
    served = lambda s: s.second_step_solver if fam == "poisson" else s.step_solver  # noqa: E731
    types = []
    for group in (GLOBAL, SCHUR):
        kinds = set()
        for m in [x for name in group for x in spelled(name)]:
            s = build(w, fam, X, KITE[1], m, law, None, None, marked(w, X, KITE[1], LOWER))
            kinds.add(type(served(s)))
        w.prove(len(kinds) == 1, "all names of a method select the same one")
        types.append(kinds.pop())
        name = str(served(s))
        s.solving_method = name
        w.prove(type(served(s)) is types[-1], "the reported name selects the same method")
    w.prove(types[0] is not types[1], "different methods are different")
    ok = w.expect_raises(
        lambda: build(w, fam, X, KITE[1], "no such method", law, None, None, {}), Exception)
    w.prove(ok, "unknown methods are refused")


@harness("C20", bounds="problems of no supported kind")
def unsupported(w):
    """a problem that is neither static, quasistatic nor dynamic is refused"""
    from conmech.scenarios.problems import Problem
    from conmech.solvers._solvers import SolversRegistry

    class Odd(Problem):
        pass

    w.prove(w.expect_raises(lambda: SolversRegistry.get_by_name("global", Odd(None, None)),
                            ValueError), "unsupported problems are refused")
