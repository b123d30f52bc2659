"""C24: coupled problems exchange the current partner field with adjoint operators."""

import numpy as np

from props.c08 import quad
from props.c16 import KITE, LOWER, marked
from props.c17 import smooth_law
from props.c19 import derivative
from props.common import (Calls, F, SQUARE5, TWO_TET, const_field, flat, fresh_load, make_timed,
                          mesh_ref, poly_field)
from vsym.world import harness

STUB = "optimiser replaced by arbitrary (symbolic) answers"
MATS = {
    "thermal_expansion": [[F(1, 2), F(1, 8)], [F(-1, 4), F(3, 4)]],
    "thermal_conductivity": [[F(1), F(1, 8)], [F(1, 8), F(3, 2)]],
    "piezoelectricity": [[[F(1, 2), F(1, 8)], [F(-1, 4), F(3, 4)]],
                         [[F(1), F(-1, 8)], [F(1, 4), F(2)]]],
    "permittivity": [[F(1), F(1, 8)], [F(1, 8), F(3, 2)]],
}
SOLID = {
    "thermal_expansion": [[F(1, 2), F(1, 8), F(0)], [F(-1, 4), F(3, 4), F(1)],
                          [F(1, 3), F(0), F(2)]],
    "thermal_conductivity": [[F(1), F(1, 8), F(0)], [F(1, 8), F(3, 2), F(1, 4)],
                             [F(0), F(1, 4), F(2)]],
}


class Ops:
    """Reference operators (Lame moduli 3, 5; viscosity 2, 7; densities of the problem classes)."""

    def __init__(self, w, s, fam, dt):
        ref = mesh_ref(w, s.body.mesh)
        self.dt, self.fam = dt, fam
        self.E = ref.elasticity(w.const(F(3)), w.const(F(5)))
        self.V = ref.elasticity(w.const(F(2)), w.const(F(7)))
        rho = w.const(F(1) if fam == "temperature" else F(1, 10))
        self.M = ref.mass(rho)
        if fam == "temperature":
            mats = MATS if ref.d == 2 else SOLID
            self.C = ref.expansion(w.consts(mats["thermal_expansion"]))
            self.K = ref.contract(w.consts(mats["thermal_conductivity"]))
            self.U = rho * ref.U
        else:
            self.C = ref.piezo(w.consts(MATS["piezoelectricity"]))
            self.K = ref.contract(w.consts(MATS["permittivity"]))

    def mechanical(self, load, u, v, z):
        """system for the velocity: z is the partner field"""
        A, b = self.V + self.dt * self.E, load - self.E @ u
        if self.fam != "piezo":
            A, b = A + self.M / self.dt, b + self.M @ v / self.dt
        return A, b + (self.C.T @ z if self.fam == "temperature" else -(self.C.T @ z))

    def partner(self, u, v, z):
        """system for the partner: u, v are the new displacement and velocity, z the old partner"""
        if self.fam == "temperature":
            return self.U / self.dt + self.K, self.U @ z / self.dt - self.C @ v
        return self.K, self.C @ u


FAMILIES = ("temperature", "piezo", "piezo_dynamic")


def setup(w, fam, method="global", law=None, mesh=KITE, law2=None, traction=True, **kw):
    X = w.consts(mesh[0])
    dt = w.const(F(1, 8))
    d = X.shape[1]
    f, g = poly_field(w, "f", d, d), poly_field(w, "q", d, d)
    if not traction:
        g = lambda x, t=None: w.arr([0] * d)  # noqa: E731
    s = make_timed(w, X, mesh[1], fam, method, law=law, law2=law2, inner=f, outer=g, dt=dt,
                   mats={k: w.consts(v) for k, v in (MATS if d == 2 else SOLID).items()}, **kw)
    return s, len(X), dt, f, g


def initial(w, fam, n, d=2):
    u0, v0, z0 = w.reals("u0", (n, d)), w.reals("v0", (n, d)), w.reals("z0", (n,))
    name = "initial_temperature" if fam == "temperature" else "initial_electric_potential"
    return u0, v0, z0, {"initial_displacement": const_field(u0),
                        "initial_velocity": const_field(v0), name: const_field(z0)}


def exchange(w, fam, steps, varied, mesh=KITE):
    """`varied` inner iterations of each step have answers of their own, later ones repeat"""
    s, n, dt, f, g = setup(w, fam, mesh=mesh)
    d = s.body.mesh.dimension
    op = Ops(w, s, fam, dt)
    u0, v0, z0, kw = initial(w, fam, n, d)
    count = {}

    def supply(_, x0):
        t = s.step_solver.current_time
        k = next(k for k in range(steps + 2) if bool(w.eq(t, k * dt)))
        i = count.get((k, len(x0)), 0)
        count[k, len(x0)] = i + 1
        return w.reals(f"s{k}_{min(i, varied)}_{len(x0)}", (len(x0),))

    calls = Calls(w, supply)
    times = []
    res = list(s.solve(n_steps=steps, output_step=range(1, steps + 1), **kw))
    x, y = w.reals("x", (d * n,)), w.reals("y", (n,))
    u, v, z = flat(u0), flat(v0), z0
    k, last_v, last_z, fresh = 1, None, z, True
    pos = 0
    for k in range(1, steps + 1):
        last_v, last_z = v, z
        mech = part = 0
        while pos < len(calls.calls):
            size = len(np.asarray(calls.calls[pos][2]).reshape(-1))
            if size == d * n and mech == count.get((k, d * n)):
                break
            if size == d * n:
                w.prove(mech == part, "fields are exchanged after every solution")
                load = fresh_load(s, f, g, k * dt)
                A, b = op.mechanical(load, u, v, last_z)
                w.prove_eq(calls.value(pos, x), [quad(A, b, x)],
                           f"mechanical system, step {k}, iteration {mech + 1}")
                last_v = calls.given[pos]
                mech += 1
            else:
                A, b = op.partner(u + dt * last_v, last_v, z)
                w.prove_eq(calls.value(pos, y), [quad(A, b, y)],
                           f"partner system, step {k}, iteration {part + 1}")
                last_z = calls.given[pos]
                part += 1
            pos += 1
        w.prove(mech > varied and part > varied, "iterations continue until the fields agree")
        u, v, z = u + dt * last_v, last_v, last_z
        st = res[k - 1]
        w.prove_eq(flat(st.velocity), v, f"accepted velocity, step {k}")
        w.prove_eq(flat(st.displacement), u, f"accepted displacement, step {k}")
        w.prove_eq(st.temperature if fam == "temperature" else st.electric_potential, z,
                   f"accepted partner field, step {k}")
    w.prove_int(pos, len(calls.calls), "no further systems")
    _ = times, fresh


def make(fam):
    def fn(w):
        exchange(w, fam, 2, 2)

    fn.__name__ = fam
    fn.__doc__ = f"{fam}: exchange of fields"
    harness("C24", stubs=STUB,
            bounds="two triangles, 2 steps, 3 different answers per field and step (later inner "
                   "iterations repeat the last), symbolic initial data, affine loads")(fn)

    def more(w):
        exchange(w, fam, 3, 3)

    more.__name__ = fam + "_long"
    more.__doc__ = f"{fam}: exchange of fields, longer"
    harness("C24", stubs=STUB, tier="thorough",
            bounds="two triangles, 3 steps, 4 different answers per field and step")(more)


for _f in FAMILIES:
    make(_f)


@harness("C24", stubs=STUB, bounds="two tetrahedra, temperature, 1 step, 2 different answers per "
                                   "field, symbolic initial data, affine loads")
def solid(w):
    """exchange of fields in three dimensions"""
    exchange(w, "temperature", 1, 1, TWO_TET)


@harness("C24", stubs=STUB, bounds="two triangles, 1 step, both fields change up to inner iteration "
                                   "1 to 7, in the next one a single component of one field jumps "
                                   "by an arbitrary amount of at least 1/8")
def late_change(w):
    """the exchange goes on while either field still changes"""
    fam = FAMILIES[w.choice("family", 3)]
    s, n, dt, f, g = setup(w, fam)
    zero = {"initial_displacement": const_field(w.consts([[0, 0]] * n)),
            "initial_velocity": const_field(w.consts([[0, 0]] * n)),
            ("initial_temperature" if fam == "temperature" else "initial_electric_potential"):
                const_field(w.consts([0] * n))}
    field = w.choice("field", 2)
    late = 2 + w.choice("iteration", 7)
    jump = w.real("jump", 1)
    w.assume(w.ge(jump, F(1, 8)))
    count = {}

    def supply(_, x0):
        m = len(x0)
        count[m] = count.get(m, 0) + 1
        r = w.consts([F(1, 2)] * m)
        r[0] = w.const(F(min(count[m], late - 1)))
        if m == (2 - field) * n and count[m] >= late:
            r[m - 1] = r[m - 1] + jump
        return r

    Calls(w, supply)
    st = list(s.solve(n_steps=1, **zero))[-1]
    w.prove_int(count[2 * n], count[n], "fields are exchanged after every solution")
    w.prove(count[n] > late, "the exchange does not end with an iteration that changed a field")
    last = w.consts([F(1, 2)] * (3 * n))
    last[0] = last[2 * n] = w.const(F(late - 1))
    k = (2 * n if field == 0 else 3 * n) - 1
    last[k] = last[k] + jump
    w.prove_eq(flat(st.velocity), last[:2 * n], "accepted velocity")
    w.prove_eq(st.temperature if fam == "temperature" else st.electric_potential, last[2 * n:],
               "accepted partner field")


class Enough(Exception):
    pass


@harness("C24", stubs=STUB, bounds="4 triangles, condensed method, first 4 systems of a step, "
                                   "symbolic initial data, volume loads, law and answers")
def condensed(w):
    """the condensed method sees the same coupled systems"""
    from props.c19 import square

    reduced(w, FAMILIES[w.choice("family", 3)], SQUARE5, *square(w))


@harness("C24", stubs=STUB, bounds="two tetrahedra, temperature, condensed method, first 4 systems "
                                   "of a step, symbolic initial data, volume loads, law and answers")
def condensed_solid(w):
    """the condensed method in three dimensions"""
    from props.c19 import tetrahedra

    reduced(w, "temperature", TWO_TET, *tetrahedra(w))


def reduced(w, fam, mesh, X, el, kw):
    from props.c19 import free_dofs

    d = X.shape[1]
    Law = smooth_law(w)
    s, n, dt, f, g = setup(w, fam, "schur", Law, mesh, Law, False, **kw)
    op = Ops(w, s, fam, dt)
    u0, v0, z0, ini = initial(w, fam, n, d)
    full = []
    real = {}

    def wrap(solver):
        inner = solver.solve

        def solve(*a, **k):
            r = inner(*a, **k)
            full.append(np.array(r).reshape(-1).copy())
            if len(full) == 4:
                raise Enough()
            return r

        real[id(solver)] = inner
        solver.solve = solve

    wrap(s.step_solver)
    wrap(s.second_step_solver)
    Calls(w, lambda k, x0: w.reals(f"a{k}", (len(x0),)))
    try:
        list(s.solve(n_steps=1, **ini))
    except Enough:
        pass
    w.prove_int([len(x) for x in full], [d * n, n, d * n, n], "fields are exchanged")
    free = free_dofs(s, 1)
    load = fresh_load(s, f, g, dt)
    u, v = flat(u0), flat(v0)
    z = z0
    for k in (0, 2):
        A, b = op.mechanical(load, u, v, z)
        r = A @ full[k] - b
        for i in free:
            w.prove_eq(r[[c * n + i for c in range(d)]], w.arr([0] * d), "mechanical equations of a free node")
        z = full[k + 1]
        B, rhs = op.partner(u + dt * full[k], full[k], z0)
        r = B @ z - rhs
        # partner values are prescribed nowhere
        for i in free:
            w.prove_eq(r[i], 0, "partner equation of a free node")


_ = derivative, LOWER, marked
