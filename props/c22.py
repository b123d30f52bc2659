"""C22: snapshots are taken exactly at the requested steps."""

import numpy as np

from props.c16 import KITE, LOWER, marked
from props.common import (Calls, F, const_field, flat, make_timed, make_wave, poly_field, zero_law)
from vsym.world import harness

STUB = "optimiser replaced by an arbitrary (symbolic) answer per step"
FAMILIES = ("quasistatic", "dynamic", "relaxation", "wave", "temperature", "piezo",
            "piezo_dynamic")


def solver_of(w, fam, X, el, method="global", law=None, dt=None, inner=None, outer=None, **kw):
    if fam == "wave":
        return make_wave(w, X, el, method, law=law or zero_law(), dt=dt, inner=inner, outer=outer,
                         **kw)
    return make_timed(w, X, el, fam, method, law=law, law2=law, dt=dt, inner=inner, outer=outer,
                      **kw)


class Data:
    """Initial fields of a run."""

    def __init__(self, w, fam, n, tag=""):
        self.fam, self.w = fam, w
        self.u = w.reals(f"u{tag}", (n, 2))
        self.v = w.reals(f"v{tag}", (n, 2))
        self.z = w.reals(f"z{tag}", (n,))

    def kwargs(self):
        kw = {"initial_displacement": const_field(self.u)}
        kw["initial_absement" if self.fam == "relaxation" else "initial_velocity"] = const_field(
            self.v)
        if self.fam == "temperature":
            kw["initial_temperature"] = const_field(self.z)
        if self.fam.startswith("piezo"):
            kw["initial_electric_potential"] = const_field(self.z)
        return kw


def by_time(w, s, dt, most, n, name="s"):
    """The answer of the k-th step depends on the step only (so inner iterations agree)."""

    def supply(_, x0):
        t = s.step_solver.current_time
        k = next(k for k in range(most + 2) if bool(w.eq(t, k * dt)))
        return w.reals(f"{name}{k}_{len(x0)}", (len(x0),))

    return supply


def expected(w, fam, data, dt, k, n):
    """fields after step k of a run with the answers of by_time"""
    u, v, b, z = flat(data.u), flat(data.v), None, data.z
    zero = w.arr(np.zeros(2 * n, dtype=int))
    if fam == "relaxation":
        v, b = zero, flat(data.v)
    for i in range(1, k + 1):
        x = w.reals(f"s{i}_{2 * n}", (2 * n,))
        if fam == "relaxation":
            b = b + dt * x
            u = x
        else:
            v = x
            u = u + dt * v
        if fam in FAMILIES[4:]:
            z = w.reals(f"s{i}_{n}", (n,))
    return u, v, b if b is not None else zero, z


def compare(w, fam, s, dt, st, want, k):
    u, v, b, z = want
    w.prove_eq(st.time, k * dt, f"time of the snapshot after step {k}")
    w.prove_eq(flat(st.displacement), u, f"displacement after step {k}")
    w.prove_eq(flat(st.velocity), v, f"velocity after step {k}")
    w.prove_eq(flat(st.absement), b, f"absement after step {k}")
    w.prove_eq(flat(st.displaced_nodes), flat(s.body.mesh.nodes) + u,
               f"displaced nodes after step {k}")
    if fam == "temperature":
        w.prove_eq(st.temperature, z, f"temperature after step {k}")
    if fam.startswith("piezo"):
        w.prove_eq(st.electric_potential, z, f"potential after step {k}")


def snapshots(w, fam, most):
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    data = Data(w, fam, n)
    s = solver_of(w, fam, X, KITE[1], dt=dt)
    Calls(w, by_time(w, s, dt, most, n))
    steps = [k for k in range(most + 1) if w.choice(f"out{k}", 2)]
    last = w.choice("n_steps", most) + 1 if not steps else steps[-1]
    res = list(s.solve(n_steps=max(1, last), output_step=tuple(steps) or None, **data.kwargs()))
    if not steps:
        steps = [last]
    w.prove_int(len(res), len(steps), "one snapshot per requested step")
    for st, k in zip(res, steps):
        compare(w, fam, s, dt, st, expected(w, fam, data, dt, k, n), k)


def make(fam, most, tier):
    def fn(w):
        snapshots(w, fam, most)

    fn.__name__ = fam if tier == "quick" else fam + "_long"
    fn.__doc__ = f"{fam} problems"
    harness("C22", stubs=STUB, tier=tier,
            bounds=f"two triangles, every set of output steps within {most} steps, symbolic "
                   "initial data and answers")(fn)


for _f in FAMILIES:
    make(_f, 3 if _f in FAMILIES[:4] else 2, "quick")
    make(_f, 5 if _f in FAMILIES[:4] else 3, "thorough")


@harness("C22", stubs=STUB, bounds="two triangles, 3 steps, symbolic time step; quasistatic, "
                                   "dynamic, relaxation and wave problems")
def time_step(w):
    """snapshot times are multiples of the time step of the problem, whatever it is"""
    fam = FAMILIES[w.choice("family", 4)]
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.pos("dt", F(1, 8))
    data = Data(w, fam, n)
    s = solver_of(w, fam, X, KITE[1], dt=dt)
    Calls(w, lambda k, x0: w.reals(f"s{k + 1}_{len(x0)}", (len(x0),)))
    res = s.solve(n_steps=3, output_step=(1, 3), **data.kwargs())
    for st, k in zip(res, (1, 3)):
        compare(w, fam, s, dt, st, expected(w, fam, data, dt, k, n), k)


_ = LOWER, marked, poly_field
