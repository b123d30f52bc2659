"""C08: every time step solves the balance equation of its own problem class."""

import numpy as np

from props.common import (Calls, F, SQUARE5, TWO_TET, TWO_TRI, const_field, flat, fresh_load,
                          make_poisson, make_static, make_timed, make_wave, mesh_ref, poly_field,
                          quad)
from vsym.world import harness

STUB = "optimiser replaced by an arbitrary (symbolic) answer"


def start(w, n, d=2):
    return (w.reals("u0", (n, d)), w.reals("v0", (n, d)))


def family(w, name, steps, N=TWO_TRI, rest=0):
    """`rest`: number of first steps of a body that starts and stays at rest"""
    X = w.consts(N[0])
    n, d = X.shape
    dt = w.const(F(1, 8))
    f, g = poly_field(w, "f", d, d), poly_field(w, "g", d, d)
    s = make_timed(w, X, N[1], name, "global", inner=f, outer=g, dt=dt)
    ref = mesh_ref(w, s.body.mesh)
    E = ref.elasticity(w.const(F(3)), w.const(F(5)))
    V = ref.elasticity(w.const(F(2)), w.const(F(7)))
    M = ref.mass(1)
    u0, v0 = start(w, n, d)
    sol = [w.reals(f"s{k}", (d * n,)) for k in range(steps)]
    if rest:
        u0, v0 = w.consts([[0] * d] * n), w.consts([[0] * d] * n)
        sol[:rest] = [w.consts([0] * (d * n))] * rest
    calls = Calls(w, lambda k, x0: sol[k])
    res = s.solve(n_steps=steps, initial_displacement=const_field(u0),
                  initial_velocity=const_field(v0))
    w.prove_int(len(calls.calls), steps, "one minimisation per step")
    x = w.reals("x", (d * n,))
    u, v = flat(u0), flat(v0)
    for k in range(steps):
        load = fresh_load(s, f, g, k * dt)
        if name == "quasistatic":
            A, b = V + dt * E, load - E @ u
        else:
            A, b = V + dt * E + M / dt, load - E @ u + M @ v / dt
        w.prove_eq(calls.value(k, x), [quad(A, b, x)], f"energy of step {k + 1}")
        v = sol[k]
        u = u + dt * v
    w.prove_eq(flat(res[-1].displacement), u, "displacement after the last step")
    w.prove_eq(flat(res[-1].velocity), v, "velocity after the last step")
    w.prove_eq(res[-1].time, steps * dt, "time after the last step")


@harness("C08", stubs=STUB, bounds="two triangles, 2 steps, symbolic states, affine loads")
def quasistatic(w):
    """Kelvin-Voigt quasistatic step: V v + E (u + dt v) = f"""
    family(w, "quasistatic", 2)


@harness("C08", stubs=STUB, bounds="two triangles, 2 steps, symbolic states, affine loads")
def dynamic(w):
    """dynamic step: M (v - v_old)/dt + V v + E (u + dt v) = f"""
    family(w, "dynamic", 2)


@harness("C08", stubs=STUB, bounds="two triangles, 3 steps, affine loads, a body at rest during the "
                                   "first two steps; quasistatic, dynamic")
def at_rest(w):
    """a body at rest takes the same step"""
    family(w, ("quasistatic", "dynamic")[w.choice("family", 2)], 3, rest=2)


@harness("C08", stubs=STUB, bounds="two tetrahedra, 2 steps, symbolic states, affine loads; "
                                   "quasistatic, dynamic")
def solid(w):
    """the steps in three dimensions"""
    family(w, ("quasistatic", "dynamic")[w.choice("family", 2)], 2, TWO_TET)


@harness("C08", stubs=STUB, bounds="two triangles, 3 steps, symbolic states, tensor affine in time "
                                   "(2 of 8 rates symbolic)")
def relaxation(w):
    """relaxation step: E u + R(t) (b + dt u) = f with the absement b"""
    steps = 3
    X = w.consts(TWO_TRI[0])
    n = len(X)
    dt = w.const(F(1, 8))
    f, g = poly_field(w, "f", 2, 2), poly_field(w, "g", 2, 2)
    a = w.consts([[[1, F(1, 4)], [F(1, 8), F(1, 2)]], [[2, F(1, 2)], [F(3, 4), 3]]])
    c = w.consts([[[1, -2], [F(1, 8), F(1, 2)]], [[-1, F(1, 2)], [F(3, 4), 3]]])
    c[0, 0, 0], c[1, 0, 1] = w.real("c0", 2), w.real("c1", -3)

    def law(t):
        return w.arr(a + t * c)

    s = make_timed(w, X, TWO_TRI[1], "relaxation", "global", inner=f, outer=g, dt=dt,
                   mats={"relaxation": law})
    ref = mesh_ref(w, s.body.mesh)
    E = ref.elasticity(w.const(F(3)), w.const(F(5)))
    u0, b0 = start(w, n)
    sol = [w.reals(f"s{k}", (2 * n,)) for k in range(steps)]
    calls = Calls(w, lambda k, x0: sol[k])
    res = s.solve(n_steps=steps, initial_displacement=const_field(u0),
                  initial_absement=const_field(b0))
    w.prove_int(len(calls.calls), steps, "one minimisation per step")
    x = w.reals("x", (2 * n,))
    ab = flat(b0)
    for k in range(steps):
        R = ref.relaxation(law(k * dt))
        w.prove_eq(calls.value(k, x), [quad(E + dt * R, fresh_load(s, f, g, k * dt) - R @ ab, x)],
                   f"energy of step {k + 1}")
        ab = ab + dt * sol[k]
    w.prove_eq(flat(res[-1].displacement), sol[-1], "displacement after the last step")
    w.prove_eq(flat(res[-1].absement), ab, "absement after the last step")


@harness("C08", stubs=STUB, bounds="4 triangles, 3 steps, symbolic states, propagation 2, "
                                   "affine load")
def wave(w):
    """wave step: (v - v_old)/dt + c^2 L (u + dt v) = f"""
    steps = 3
    X = w.consts(SQUARE5[0])
    n = len(X)
    dt = w.const(F(1, 8))
    from props.common import zero_law

    f, g = poly_field(w, "f", 2, 1), poly_field(w, "g", 2, 1)
    c = w.const(F(2))
    s = make_wave(w, X, SQUARE5[1], "global", law=zero_law(), inner=f, outer=g, dt=dt,
                  propagation=c)
    ref = mesh_ref(w, s.body.mesh)
    L = c * c * ref.laplace()
    u0, v0 = w.reals("u0", (n,)), w.reals("v0", (n,))
    zero = w.arr([0] * n)
    sol = [w.reals(f"s{k}", (n,)) for k in range(steps)]
    calls = Calls(w, lambda k, x0: w.arr(np.concatenate((sol[k], zero))))
    col = lambda a: w.arr(np.stack((a, zero), axis=1))  # noqa: E731
    res = s.solve(n_steps=steps, initial_displacement=const_field(col(u0)),
                  initial_velocity=const_field(col(v0)))
    x = w.reals("x", (n,))
    u, v = u0, v0
    for k in range(steps):
        A = ref.U / dt + dt * L
        b = fresh_load(s, f, g, k * dt) - L @ u + ref.U @ v / dt
        w.prove_eq(calls.value(k, w.arr(np.concatenate((x, zero)))), [quad(A, b, x)],
                   f"energy of step {k + 1}")
        v = sol[k]
        u = u + dt * v
    w.prove_eq(np.asarray(res[-1].displacement)[:, 0], u, "deflection after the last step")
    w.prove_eq(np.asarray(res[-1].velocity)[:, 0], v, "velocity after the last step")


@harness("C08", stubs=STUB, bounds="4 triangles; symbolic Lame moduli; static elasticity and "
                                   "Poisson, every solving method that is available")
def static(w):
    """static problems: E u = f and L T = q"""
    X = w.consts(SQUARE5[0])
    n = len(X)
    f, g = poly_field(w, "f", 2, 2), poly_field(w, "g", 2, 2)
    mu, la = w.real("mu", 3), w.real("la", 5)
    s = make_static(w, X, SQUARE5[1], "global", inner=f, outer=g, mu=mu, la=la)
    ref = mesh_ref(w, s.body.mesh)
    sol = w.reals("s", (2 * n,))
    calls = Calls(w, lambda k, x0: sol)
    u0 = w.reals("u0", (n, 2))
    st = s.solve(initial_displacement=const_field(u0))
    x = w.reals("x", (2 * n,))
    w.prove_eq(calls.value(0, x), [quad(ref.elasticity(mu, la), fresh_load(s, f, g, 0), x)],
               "static energy")
    w.prove_eq(flat(st.displacement), sol, "displacement")


@harness("C08", bounds="4 triangles, Poisson with 3 fixed nodes, direct method, symbolic sources")
def poisson(w):
    """the direct solution of a Poisson problem satisfies the heat balance at every free node"""
    X = w.consts(SQUARE5[0])
    from props.common import Marker

    mk = Marker(w, X, SQUARE5[1])
    q, h = w.real("q", 2), w.real("h", 3)
    fixed = {0: w.real("T0", 1), 1: w.real("T1", 2), 2: w.real("T2", -1)}
    find = w.locate([(i, X[i]) for i in range(5)])
    s = make_poisson(w, X, SQUARE5[1], internal=lambda x, t=None: w.arr([q]),
                     outer=lambda x, t=None: w.arr([h]),
                     dirichlet=(mk.predicate({("n", i): True for i in fixed}),
                                lambda p: w.arr([fixed[find(z)] for z in p])))
    st = s.solve()
    m = s.body.mesh
    ref = mesh_ref(w, m)
    T = np.asarray(st.temperature)
    from props.c07 import measure

    load = np.asarray(ref.phi) * q
    for face in m.neumann_boundary:
        S = measure(w, np.asarray(m.nodes)[face])
        for i in face:
            load[i] = load[i] + S / 2 * h
    res = ref.laplace() @ T - load
    for i, p in enumerate(np.asarray(m.nodes)):
        k = find(p)
        if k in fixed:
            w.prove_eq(T[i], fixed[k], "prescribed temperature")
        else:
            w.prove_eq(res[i], 0, "heat balance at a free node")


@harness("C08", bounds="two triangles; every statement class; all fields, the time step and one "
                       "load coefficient symbolic and independent of each other")
def statements(w):
    """the system of every statement uses the right field at the right place"""
    from conmech.dynamics.statement import Variables
    from props.c24 import MATS, Ops

    name = ("quasistatic", "dynamic", "relaxation", "temperature", "piezo", "piezo_dynamic",
            "wave")[w.choice("family", 7)]
    X = w.consts(TWO_TRI[0])
    n = len(X)
    dt = w.pos("dt", F(1, 4))
    q = w.real("q", 2)
    k = 1 if name == "wave" else 2
    f = lambda x, t=None: w.arr([q * t + x[0], x[1] - t][:k])  # noqa: E731
    g = lambda x, t=None: w.arr([t - x[1], q * x[0]][:k])  # noqa: E731
    if name == "wave":
        from props.common import zero_law

        s = make_wave(w, X, TWO_TRI[1], "global", law=zero_law(), inner=f, outer=g,
                      dt=w.const(F(1, 8)), propagation=w.const(F(2)))
    else:
        s = make_timed(w, X, TWO_TRI[1], name, "global", inner=f, outer=g, dt=w.const(F(1, 8)),
                       mats={} if name in ("quasistatic", "dynamic", "relaxation") else
                       {k: w.consts(v) for k, v in MATS.items()})
    ref = mesh_ref(w, s.body.mesh)
    m = 2 * n
    b, u, v = w.reals("b", (m,)), w.reals("u", (m,)), w.reals("v", (m,))
    T, p = w.reals("T", (n,)), w.reals("p", (n,))
    time = w.const(F(3, 8))

    def update(statement):
        statement.update(Variables(absement=b.copy(), displacement=u.copy(), velocity=v.copy(),
                                   temperature=T.copy(), electric_potential=p.copy(),
                                   time_step=dt, time=time))
        return (np.asarray(getattr(statement.left_hand_side, "data", statement.left_hand_side)),
                np.asarray(statement.right_hand_side).reshape(-1))

    A, r = update(s.step_solver.statement)
    load = fresh_load(s, f, g, time)
    E = ref.elasticity(w.const(F(3)), w.const(F(5)))
    V = ref.elasticity(w.const(F(2)), w.const(F(7)))
    if name == "wave":
        L = 4 * ref.laplace()
        wantA, want = ref.U / dt + dt * L, load - L @ u[:n] + ref.U @ v[:n] / dt
    elif name == "relaxation":
        R = ref.relaxation(s.problem.relaxation(time))
        wantA, want = E + dt * R, load - R @ b
    elif name in ("quasistatic", "dynamic"):
        wantA, want = V + dt * E, load - E @ u
        if name == "dynamic":
            wantA, want = wantA + ref.mass(1) / dt, want + ref.mass(1) @ v / dt
    else:
        op = Ops(w, s, name, dt)
        wantA, want = op.mechanical(load, u, v, T if name == "temperature" else p)
        B, c = update(s.second_step_solver.statement)
        wantB, wantc = op.partner(u, v, T)
        w.prove_eq(B, wantB, f"partner matrix of {name}")
        w.prove_eq(c, wantc, f"partner right hand side of {name}")
    w.prove_eq(A, wantA, f"matrix of {name}")
    w.prove_eq(r, want, f"right hand side of {name}")


@harness("C08", bounds="default initial fields of every problem class, symbolic points in 2D and 3D")
def default_fields(w):
    """by default a simulation starts from zero fields"""
    import inspect

    from conmech.scenarios import problems

    d = 2 + w.choice("dimension", 2)
    x = w.reals("x", (3, d))
    fields = {"initial_displacement": (3, d), "initial_velocity": (3, d),
              "initial_absement": (3, d), "initial_temperature": (3,),
              "initial_electric_potential": (3,)}
    count = 0
    for name, cls in sorted(vars(problems).items()):
        if not (inspect.isclass(cls) and issubclass(cls, problems.Problem)):
            continue
        for field, shape in fields.items():
            default = getattr(object.__new__(_concrete(cls)), field, None)
            if default is None:
                continue
            count += 1
            got = default(x)
            w.prove_int(list(np.shape(got)), list(shape), f"shape of {field} of {name}")
            w.prove_eq(got, w.consts(np.zeros(shape, dtype=int)), f"{field} of {name}")
    w.prove(count >= 10, "there are default fields")


def _concrete(cls):
    return type(cls.__name__, (cls,), {k: None for k in getattr(cls, "__abstractmethods__", ())})
