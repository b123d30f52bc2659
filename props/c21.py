"""C21: states keep their kinematic relations."""

import numpy as np

from props.c16 import KITE
from props.common import TWO_TET, const_field, flat, make_mesh
from vsym.world import harness


def new_body(w, mesh):
    from conmech.properties.body_properties import ElasticProperties
    from conmech.simulations.problem_solver import Body

    return Body(ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0), mesh)


def classes():
    from conmech.state.state import PiezoelectricState, State, TemperatureState

    return State, TemperatureState, PiezoelectricState


class Shadow:
    """What the state should hold, by the kinematic relations."""

    def __init__(self, w, n, d):
        z = w.consts(np.zeros((n, d), dtype=int))
        self.u, self.v, self.b, self.t = z, z, z, w.const(0)
        self.scalar = w.consts(np.zeros(n, dtype=int))

    def copy(self):
        s = object.__new__(Shadow)
        s.__dict__.update(self.__dict__)
        return s


def check(w, s, ref, where):
    w.prove_eq(s.displacement, ref.u, f"displacement {where}")
    w.prove_eq(s.velocity, ref.v, f"velocity {where}")
    w.prove_eq(s.absement, ref.b, f"absement {where}")
    w.prove_eq(s.time, ref.t, f"time {where}")
    w.prove_eq(s.displaced_nodes, np.asarray(s.body.mesh.nodes) + ref.u,
               f"displaced nodes {where}")
    w.prove_eq(s["displacement"], ref.u, f"displacement by name {where}")
    w.prove_eq(s[0], ref.u, f"displacement by number {where}")
    w.prove_eq(s["velocity"], ref.v, f"velocity by name {where}")
    w.prove_eq(s[1], ref.v, f"velocity by number {where}")
    for name in ("temperature", "electric_potential"):
        if getattr(s, name, None) is not None:
            w.prove_eq(getattr(s, name), ref.scalar, f"{name} {where}")
    if hasattr(s, "set_temperature"):
        w.prove_eq(s["temperature"], ref.scalar, f"temperature by name {where}")


def law(displacement, velocity, absement, time, **_):
    """a made-up constitutive law that depends on everything"""
    s = 2 * displacement - 3 * velocity + 5 * absement + 7 * time
    return np.stack((np.stack((s[:, 0], s[:, 1]), axis=1), np.stack((s[:, 1], s[:, 0]), axis=1)),
                    axis=2)


def step(w, s, ref, k, op, n, d):
    """apply operation `op` to the state and to the reference"""
    vec, t = w.reals(f"x{k}", (d * n,)), w.real(f"t{k}", k + 1)
    given = []
    a = w.arr(np.asarray(vec.copy()).reshape(d, n).T)
    if op in (0, 1):
        given.append((vec, vec.copy()))
        s.set_velocity(vec, time=t, update_displacement=op == 0)
        ref.v = a
        if op == 0:
            ref.u = ref.u + (t - ref.t) * a
        ref.t = t
    elif op in (2, 3):
        given.append((vec, vec.copy()))
        s.set_displacement(vec, time=t, update_absement=op == 2)
        ref.u = a
        if op == 2:
            ref.b = ref.b + (t - ref.t) * a
        ref.t = t
    else:
        z = w.reals(f"z{k}", (n,))
        given.append((z, z.copy()))
        if hasattr(s, "set_temperature"):
            s.set_temperature(z)
            ref.scalar = z.copy()
        elif hasattr(s, "set_electric_potential"):
            s.set_electric_potential(z)
            ref.scalar = z.copy()
    return given


def run_history(w, nodes, elements, cls, length):
    X = w.consts(nodes)
    mesh = make_mesh(X, w.int_array(elements))
    n, d = len(X), X.shape[1]
    s = cls(new_body(w, mesh))
    ref = Shadow(w, n, d)
    check(w, s, ref, "of a new state")
    kept, mine = [], []
    for k in range(length):
        op = w.choice(f"op{k}", 5 if cls is not classes()[0] else 4)
        kept.append((s.copy(), ref.copy()))
        given = step(w, s, ref, k, op, n, d)
        check(w, s, ref, "after an update")
        mine += given
    for a, b in mine:
        w.prove_eq(a, b, "accepted vectors are not modified")
    for a, _ in mine:
        a[:] = 0
    check(w, s, ref, "after changes of the accepted vectors by their owner")
    for c, r in kept:
        w.prove(type(c) is cls, "copy has the class of the original")
        check(w, c, r, "of a copy after later updates of the original")
    c = s.copy()
    check(w, c, ref, "of the last copy")
    one = w.arr(np.ones((d * n,), dtype=int))
    c.set_velocity(one.copy(), time=c.time + 1, update_displacement=True)
    c.set_displacement(one.copy(), time=c.time + 1, update_absement=True)
    for a in ("displacement", "velocity", "absement", "displaced_nodes"):
        getattr(c, a)[:] = 0
    for a in ("temperature", "electric_potential"):
        if getattr(c, a, None) is not None:
            getattr(c, a)[:] = 0
    check(w, s, ref, "after changes of a copy")


@harness("C21", bounds="two triangles, all histories of 3 updates, symbolic fields and times")
def plain(w):
    """State"""
    run_history(w, *KITE, classes()[0], 3)


@harness("C21", bounds="two triangles, all histories of 3 updates, symbolic fields and times")
def temperature(w):
    """TemperatureState"""
    run_history(w, *KITE, classes()[1], 3)


@harness("C21", bounds="two triangles, all histories of 3 updates, symbolic fields and times")
def piezo(w):
    """PiezoelectricState"""
    run_history(w, *KITE, classes()[2], 3)


@harness("C21", bounds="two tetrahedra, all histories of 2 updates, symbolic fields and times")
def solid(w):
    """three-dimensional states"""
    run_history(w, *TWO_TET, classes()[0], 2)


@harness("C21", tier="thorough", bounds="two triangles, all histories of 5 updates", max_paths=8000)
def long_histories(w):
    """longer histories"""
    run_history(w, *KITE, classes()[0], 5)


@harness("C21", bounds="two triangles, all histories of 2 updates with stress read in between")
def stress(w):
    """the stress is that of the current fields"""
    stress_history(w, 2)


@harness("C21", tier="thorough", bounds="two triangles, all histories of 3 updates with stress read "
                                        "in between")
def stress_long(w):
    """the stress is that of the current fields"""
    stress_history(w, 3)


@harness("C21", bounds="two triangles, stress of one element symbolic, of the other zero")
def stress_size(w):
    """the stress norm is the square root of the sum of squares of all components"""
    X = w.consts(KITE[0])
    s = classes()[0](new_body(w, make_mesh(X, w.int_array(KITE[1]))))
    t = w.reals("t", (2, 2))
    s.constitutive_law = lambda **_: w.arr([t, 0 * t])
    size = np.asarray(s.stress_norm)
    w.prove_int(size.shape, (2,), "one number for every element")
    w.prove_eq(size[0] * size[0], (t * t).sum(), "square of the norm")
    w.prove_eq(size[1], 0, "norm of no stress")
    w.prove(w.ge(size[0], 0), "the norm is not negative")


def stress_history(w, length):
    X = w.consts(KITE[0])
    n = len(X)
    cls = classes()[w.choice("class", 3)]
    s = cls(new_body(w, make_mesh(X, w.int_array(KITE[1]))))
    ref = Shadow(w, n, 2)
    w.prove(s.stress is None, "no law, no stress")
    s.constitutive_law = law
    for k in range(length):
        op = w.choice(f"op{k}", 4)
        step(w, s, ref, k, op, n, 2)
        want = law(ref.u, ref.v, ref.b, ref.t)
        if w.choice(f"read{k}", 2):
            w.prove_eq(s.stress, want, "stress")
            w.prove_eq(s.stress, want, "stress read again")
            w.prove_eq(s.stress_x, want[:, 0, 0], "stress component xx")
            w.prove_eq(s.stress_y, want[:, 1, 1], "stress component yy")
    w.prove_eq(s.stress, law(ref.u, ref.v, ref.b, ref.t), "stress")


_ = const_field, flat
