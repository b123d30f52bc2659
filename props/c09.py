"""C09: prescribed values are eliminated exactly from every system that is solved."""

import numpy as np

from props.common import (Calls, F, Marker, SQUARE5, TWO_TET, const_field, eliminate, flat,
                          fresh_load, make_poisson, make_static, make_timed, make_wave, mesh_ref,
                          poly_field, quad, strip, zero_law)
from vsym.world import harness

STUB = "optimiser replaced by an arbitrary (symbolic) answer"


def pick(w, nodes, name="set"):
    """one non-empty subset of the given nodes (symbolic choice)"""
    k = w.choice(name, 2 ** len(nodes) - 1) + 1
    return [n for j, n in enumerate(nodes) if k >> j & 1]


def prescribed(w, X, el, fixed, name="c"):
    """(indicator, condition) with symbolic nodal values; returns also values by given node"""
    mk = Marker(w, X, el)
    vals = {i: w.real(f"{name}{i}", 1 + i) for i in fixed}
    find = w.locate([(i, X[i]) for i in range(len(X))])
    return (mk.predicate({("n", i): True for i in fixed}),
            lambda p: w.arr([vals[find(z)] for z in p])), vals, find


def dofs_of(mesh, find, vals, comps):
    n = len(mesh.nodes)
    out = {}
    for i, p in enumerate(np.asarray(mesh.nodes)):
        k = find(p)
        if k in vals:
            for c in range(comps):
                out[c * n + i] = vals[k]
    return out


@harness("C09", stubs=STUB, bounds="4 triangles, every non-empty set of fixed boundary nodes, "
                                   "symbolic prescribed values and load; global energy")
def static_global(w):
    """minimised energy of a static problem with prescribed displacement"""
    X = w.consts(SQUARE5[0])
    n = len(X)
    bc, vals, find = prescribed(w, X, SQUARE5[1], pick(w, [0, 1, 2, 3]))
    f = poly_field(w, "f", 2, 2)
    s = make_static(w, X, SQUARE5[1], "global", inner=f, dirichlet=bc)
    calls = Calls(w, lambda k, x0: w.reals("s", (2 * n,)))
    st = s.solve(initial_displacement=const_field(w.consts([[0, 0]] * n)))
    ref = mesh_ref(w, s.body.mesh)
    fixed = dofs_of(s.body.mesh, find, vals, 2)
    b = fresh_load(s, f, lambda x, t: w.arr([0, 0]), 0)
    A, b = eliminate(ref.elasticity(w.const(F(3)), w.const(F(5))), b, fixed)
    x = w.reals("x", (2 * n,))
    w.prove_eq(calls.value(0, x), [quad(A, b, x)], "eliminated energy")
    for d, v in fixed.items():
        w.prove_eq(flat(st.displacement)[d], v, "prescribed value")


@harness("C09", bounds="9 nodes / 8 triangles, 3 symbolic choices of fixed nodes, symbolic values")
def static_direct(w):
    """the direct solution meets the balance at every free node and the values at fixed ones"""
    N, el = strip(2, 2)
    X = w.consts(N)
    n = len(X)
    sets = [[0, 1, 2], [0, 3, 6, 8, 2], [5, 7]]
    bc, vals, find = prescribed(w, X, el, sets[w.choice("set", 3)])
    s = make_static(w, X, el, "direct", inner=poly_field(w, "f", 2, 2), dirichlet=bc)
    st = s.solve(initial_displacement=const_field(w.consts([[0, 0]] * n)))
    ref = mesh_ref(w, s.body.mesh)
    fixed = dofs_of(s.body.mesh, find, vals, 2)
    u = flat(st.displacement)
    b = fresh_load(s, s.problem.inner_forces, s.problem.outer_forces, 0)
    r = ref.elasticity(w.const(F(3)), w.const(F(5))) @ u - b
    for i in range(2 * n):
        if i in fixed:
            w.prove_eq(u[i], fixed[i], "prescribed value")
        else:
            w.prove_eq(r[i], 0, "balance at a free node")


@harness("C09", stubs=STUB, bounds="two tetrahedra, 3 components, every non-empty set out of 3 "
                                   "nodes fixed")
def static_3d(w):
    """three components per node"""
    X = w.consts(TWO_TET[0])
    n = len(X)
    bc, vals, find = prescribed(w, X, TWO_TET[1], pick(w, [0, 2, 4]))
    s = make_static(w, X, TWO_TET[1], "global", dirichlet=bc)
    calls = Calls(w, lambda k, x0: w.reals("s", (3 * n,)))
    st = s.solve(initial_displacement=const_field(w.consts([[0, 0, 0]] * n)))
    ref = mesh_ref(w, s.body.mesh)
    fixed = dofs_of(s.body.mesh, find, vals, 3)
    A, b = eliminate(ref.elasticity(w.const(F(3)), w.const(F(5))), np.zeros(3 * n), fixed)
    x = w.reals("x", (3 * n,))
    w.prove_eq(calls.value(0, x), [quad(A, b, x)], "eliminated energy")
    for d, v in fixed.items():
        w.prove_eq(flat(st.displacement)[d], v, "prescribed value")


@harness("C09", stubs=STUB, bounds="4 triangles, 2 steps, 3 choices of fixed nodes; dynamic and "
                                   "quasistatic")
def timed(w):
    """prescribed velocities, each step"""
    X = w.consts(SQUARE5[0])
    n = len(X)
    dt = w.const(F(1, 8))
    for fam in ("dynamic", "quasistatic"):
        bc, vals, find = prescribed(w, X, SQUARE5[1], [[1], [3, 0], [0, 1, 2, 3]][
            w.choice("set" + fam, 3)], fam)
        s = make_timed(w, X, SQUARE5[1], fam, "global", dt=dt, dirichlet=bc)
        ref = mesh_ref(w, s.body.mesh)
        E = ref.elasticity(w.const(F(3)), w.const(F(5)))
        V = ref.elasticity(w.const(F(2)), w.const(F(7)))
        u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
        sol = [w.reals(f"s{k}", (2 * n,)) for k in range(2)]
        calls = Calls(w, lambda k, x0: sol[k])
        res = s.solve(n_steps=2, initial_displacement=const_field(u0),
                      initial_velocity=const_field(v0), output_step=(1, 2))
        fixed = dofs_of(s.body.mesh, find, vals, 2)
        x = w.reals("x", (2 * n,))
        u, v = flat(u0), flat(v0)
        for k in range(2):
            A, b = V + dt * E, -(E @ u)
            if fam == "dynamic":
                A, b = A + ref.mass(1) / dt, b + ref.mass(1) @ v / dt
            A, b = eliminate(A, b, fixed)
            w.prove_eq(calls.value(k, x), [quad(A, b, x)], f"{fam}: eliminated energy, step {k}")
            v = sol[k].copy()
            for d, c in fixed.items():
                v[d] = c
            u = u + dt * v
            w.prove_eq(flat(res[k].velocity), v, f"{fam}: velocity with prescribed values")


@harness("C09", stubs=STUB, bounds="4 triangles, 2 choices of fixed nodes: wave and Poisson "
                                   "(one component), direct and optimised")
def scalar(w):
    """scalar problems"""
    X = w.consts(SQUARE5[0])
    n = len(X)
    dt = w.const(F(1, 8))
    bc, vals, find = prescribed(w, X, SQUARE5[1], [[1, 3], [0, 2, 3]][w.choice("set", 2)])
    s = make_wave(w, X, SQUARE5[1], "global", law=zero_law(), dt=dt, dirichlet=bc)
    ref = mesh_ref(w, s.body.mesh)
    L = 4 * ref.laplace()
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    sol = w.reals("s", (2 * n,))
    calls = Calls(w, lambda k, x0: sol)
    res = s.solve(n_steps=1, initial_displacement=const_field(u0),
                  initial_velocity=const_field(v0))
    fixed = dofs_of(s.body.mesh, find, vals, 1)
    A, b = eliminate(ref.U / dt + dt * L, ref.U @ v0[:, 0] / dt - L @ u0[:, 0], fixed)
    x = w.reals("x", (n,))
    w.prove_eq(calls.value(0, w.arr(np.concatenate((x, w.arr([0] * n))))), [quad(A, b, x)],
               "wave energy")
    for d, v in fixed.items():
        w.prove_eq(res[-1].velocity[d, 0], v, "prescribed wave velocity")
    s = make_poisson(w, X, SQUARE5[1], "direct", internal=lambda x, t=None: w.arr([2]),
                     dirichlet=bc)
    st = s.solve()
    r = mesh_ref(w, s.body.mesh)
    fixed = dofs_of(s.body.mesh, find, vals, 1)
    T = np.asarray(st.temperature)
    q = r.laplace() @ T - 2 * r.phi
    for i in range(n):
        w.prove_eq(T[i] if i in fixed else q[i], fixed.get(i, 0), "Poisson with fixed values")


def electric_parts(w, choices):
    """one piezoelectric step with several named electric boundaries"""
    N, el = strip(2, 2)
    X = w.consts(N)
    n = len(X)
    mk = Marker(w, X, el)
    parts = choices[w.choice("faces", len(choices))]
    find = w.locate([(i, X[i]) for i in range(n)])
    val = {}
    bnd = {}
    for k, faces in enumerate(parts):
        nm = f"piezo_dirichlet_{k}"
        c = {i: w.real(f"{nm}_{i}", i) for f in faces for i in sorted(f)}
        val.update(c)
        bnd[nm] = (mk.predicate({("f", frozenset(f)): True for f in faces}),
                   (lambda cc: lambda p: w.arr([cc[find(z)] for z in p]))(c))
    dt = w.const(F(1, 8))
    s = make_timed(w, X, el, "piezo", "global", dt=dt,
                   dirichlet=mk.predicate({("n", i): True for i in (2, 5, 8)}), **bnd)
    m = s.body.mesh
    ref = mesh_ref(w, m)
    mats = s.problem
    vel, pot = w.reals("v", (2 * n,)), w.reals("p", (n,))
    calls = Calls(w, lambda k, x0: vel if k % 2 == 0 else pot)
    res = s.solve(n_steps=1, initial_displacement=const_field(w.consts([[0, 0]] * n)),
                  initial_velocity=const_field(w.consts([[0, 0]] * n)),
                  initial_electric_potential=const_field(w.consts([0] * n)))
    vel = vel.copy()
    for i, p in enumerate(np.asarray(m.nodes)):
        if find(p) in (2, 5, 8):
            vel[i] = vel[n + i] = w.const(0)
    fixed = dofs_of(m, find, val, 1)
    A, b = eliminate(ref.contract(mats.permittivity), ref.piezo(mats.piezoelectricity) @ (dt * vel),
                     fixed)
    x = w.reals("x", (n,))
    w.prove_eq(calls.value(1, x), [quad(A, b, x)], "eliminated electric energy")
    for d, v in fixed.items():
        w.prove_eq(res[-1].electric_potential[d], v, "prescribed potential")


@harness("C09", stubs=STUB, bounds="9 nodes / 8 triangles, two electric boundaries, 4 choices of "
                                   "their faces (index runs broken up), symbolic potentials")
def electric(w):
    """several prescribed electric potentials on unordered sets of nodes"""
    electric_parts(w, [
        ([(0, 1)], [(6, 7), (7, 8)]),
        ([(0, 3), (2, 5)], [(7, 8)]),
        ([(5, 8), (0, 1), (3, 6)], []),
        ([(1, 2)], [(3, 6)]),
    ])


@harness("C09", stubs=STUB, bounds="9 nodes / 8 triangles, three and four named electric "
                                   "boundaries, symbolic potentials")
def electric_many(w):
    """each named electric boundary keeps its own values"""
    electric_parts(w, [
        ([(0, 1)], [(2, 5)], [(6, 7)]),
        ([(7, 8)], [(0, 3)], [(1, 2)]),
        ([(7, 8)], [(0, 3)], [(1, 2)], []),
    ])
