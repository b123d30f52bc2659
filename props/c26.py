"""C26: saving a state is faithful and leaves it usable."""

import builtins
import os
import shutil
import tempfile
from unittest import mock

import numpy as np

from props.c16 import KITE, LOWER, marked
from props.c22 import FAMILIES, Data, by_time, solver_of
from props.c23 import same_calls, same_state
from props.common import (Calls, F, const_field, make_poisson, make_static, poly_field, zero_law)
from vsym.world import harness

STUB = "optimiser replaced by arbitrary (symbolic) answers; files in a scratch folder"


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vsym_state_")
        return os.path.join(self.dir, "state.pkl")

    def __exit__(self, *_):
        shutil.rmtree(self.dir, ignore_errors=True)


def a_state(w, fam):
    """(solver, state after one step, sources of the body)"""
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    scalar = fam in ("wave", "poisson")
    f, g = (poly_field(w, name, 2, 1 if scalar else 2) for name in ("f", "q"))
    bnd = marked(w, X, KITE[1], LOWER)
    if fam == "static":
        s = make_static(w, X, KITE[1], "global", law=zero_law(), inner=f, outer=g, **bnd)
        Calls(w, lambda k, x0: w.reals("s", (len(x0),)))
        st = s.solve(initial_displacement=const_field(w.reals("u", (n, 2))))
    elif fam == "poisson":
        s = make_poisson(w, X, KITE[1], "global", internal=f, outer=g, **bnd)
        Calls(w, lambda k, x0: w.reals("s", (len(x0),)))
        st = s.solve()
    else:
        if fam == "relaxation":
            return None
        s = solver_of(w, fam, X, KITE[1], dt=dt, inner=f, outer=g, **bnd)
        Calls(w, by_time(w, s, dt, 2, n))
        st = list(s.solve(n_steps=1, **Data(w, fam, n).kwargs()))[-1]
    from conmech.state.products.penetration import Penetration

    p = Penetration()
    p.data[w.const(F(1, 8))] = w.real("depth", -1)
    st.inject_product(p)
    st.setup = lambda: "not picklable"
    st.constitutive_law = lambda displacement, **_: 2 * displacement
    return s, st


KINDS = ("static", "poisson", "quasistatic", "dynamic", "wave", "temperature", "piezo",
         "piezo_dynamic")


class Before:
    """Everything of the state in memory that saving must not touch."""

    def __init__(self, w, st):
        self.w, self.st = w, st
        self.copy = st.copy()
        self.setup, self.law = st.setup, st.constitutive_law
        d = st.body.dynamics
        self.loads = [(x, x.source) for b in (d.force, d.temperature) for x in (b.inner, b.outer)]
        self.stress = np.array(st.stress)
        self.forces = np.array(d.force.integrate(w.const(F(1, 4)))) if d.force.inner.source else None

    def check(self):
        w, st = self.w, self.st
        same_state(w, st, self.copy, "state after saving")
        w.prove(st.setup is self.setup and st.constitutive_law is self.law,
                "setup and law after saving")
        for x, source in self.loads:
            w.prove(x.source is source, "sources after saving")
        w.prove_eq(st.stress, self.stress, "stress after saving")
        w.prove_int(list(st.products), ["penetration"], "products after saving")
        w.prove_eq(list(st.products["penetration"].data.values()), [w.real("depth", -1)],
                   "products after saving")
        t = w.const(F(3, 8))
        st.set_displacement(w.reals("later", (st.displacement.size,)), time=t)
        w.prove_eq(st.stress, 2 * st.displacement, "stress after saving and moving on")


def same_mesh(w, a, b):
    w.prove_eq(a.nodes, b.nodes, "nodes read back")
    w.prove_int(a.elements, b.elements, "elements read back")
    for k in ("contact_boundary", "neumann_boundary", "dirichlet_boundary"):
        w.prove_int(getattr(a.boundaries, k), getattr(b.boundaries, k), f"{k} read back")
    w.prove_eq(a.boundaries.surface_normals, b.boundaries.surface_normals, "normals read back")


@harness("C26", stubs=STUB, bounds="two triangles, symbolic fields, every kind of state")
def round_trip(w):
    """a saved state reads back; the one in memory stays as it was"""
    from conmech.state.state import State

    _, st = a_state(w, KINDS[w.choice("kind", len(KINDS))])
    before = Before(w, st)
    with Scratch() as path:
        st.save(path)
        r = (State if w.choice("load by base class", 2) else type(st)).load(path)
    same_state(w, r, before.copy, "state read back")
    same_mesh(w, r.body.mesh, st.body.mesh)
    w.prove_int(list(r.products), ["penetration"], "products read back")
    w.prove_eq(list(r.products["penetration"].data.values()), [w.real("depth", -1)],
               "products read back")
    w.prove_eq(list(r.products["penetration"].data), [w.const(F(1, 8))], "products read back")
    before.check()


class Failure(OSError):
    pass


def broken_open(at):
    """file whose operation number `at` fails: 0 open, 1 first write, 2 flush/close"""

    class File:
        def __init__(self, f):
            self.f = f

        def write(self, data):
            if at == 1:
                self.f.write(bytes(data)[: len(data) // 2])
                raise Failure("no space")
            return self.f.write(data)

        def flush(self):
            if at == 2:
                raise Failure("no space")
            self.f.flush()

        def close(self):
            self.f.close()
            if at == 2:
                raise Failure("no space")

        def __enter__(self):
            return self

        def __exit__(self, *_):
            self.close()

        def __getattr__(self, name):
            return getattr(self.f, name)

    real = builtins.open

    def fake(path, *a, **k):
        if str(path).endswith("state.pkl"):
            if at == 0:
                raise Failure("no such folder")
            return File(real(path, *a, **k))
        return real(path, *a, **k)

    return fake


@harness("C26", stubs=STUB, bounds="two triangles, symbolic fields, every kind of state, write fails "
                                   "when opening, writing or closing, or for an unpicklable product")
def failing_write(w):
    """a failed save leaves the state as it was"""
    _, st = a_state(w, KINDS[w.choice("kind", len(KINDS))])
    before = Before(w, st)
    at = w.choice("fails at", 4)
    bad = lambda: 0  # noqa: E731
    failed = False
    with Scratch() as path:
        if at == 3:
            st.unpicklable = bad
            try:
                st.save(path)
            except Exception:  # noqa
                failed = True
            del st.unpicklable
        else:
            with mock.patch("builtins.open", broken_open(at)):
                try:
                    st.save(path)
                except Failure:
                    failed = True
    w.prove(failed, "the failure is reported")
    before.check()
    with Scratch() as path:
        st.save(path)
        same_state(w, type(st).load(path), st, "saved after the failure")


@harness("C26", stubs=STUB, bounds="two triangles, wave, 1 + 2 steps, from memory or from the file")
def go_on(w):
    """a simulation goes on from a saved state, in memory or read back"""
    X = w.consts(KITE[0])
    n = len(X)
    dt = w.const(F(1, 8))
    f, g = poly_field(w, "f", 2, 1), poly_field(w, "q", 2, 1)
    bnd = marked(w, X, KITE[1], LOWER)
    build = lambda: solver_of(w, "wave", X, KITE[1], dt=dt, inner=f, outer=g, **bnd)  # noqa: E731
    data = Data(w, "wave", n)
    s = build()
    cb = Calls(w, by_time(w, s, dt, 3, n))
    rb = s.solve(n_steps=3, output_step=(1, 2, 3), **data.kwargs())
    s = build()
    Calls(w, by_time(w, s, dt, 3, n))
    st = s.solve(n_steps=1, **data.kwargs())[-1]
    with Scratch() as path:
        st.save(path)
        if w.choice("read back", 2):
            st = type(st).load(path)
            if w.choice("fresh solver", 2):
                s = build()
    ca = Calls(w, by_time(w, s, dt, 3, n))
    ra = s.solve(n_steps=2, output_step=(1, 2), initial_displacement=None, initial_velocity=None,
                 state=st)
    same_calls(w, ca, 0, cb, 1, 2, "resumed run")
    for k in range(2):
        same_state(w, ra[k], rb[1 + k], "resumed run")


_ = FAMILIES
