"""C10: every returned solution carries the prescribed boundary values exactly."""

import numpy as np

from props.c09 import prescribed
from props.common import (Calls, F, Marker, TWO_TET, boundary_of, const_field, make_poisson,
                          make_static, make_timed, make_wave, strip, zero_law)
from vsym.world import harness

STUB = "optimiser / root finder replaced by an arbitrary (symbolic) answer"


def world(w, wide=2, least=1):
    """strip with contact along the bottom, chosen fixed nodes elsewhere"""
    N, el = strip(wide, 1)
    X = w.consts(N)
    mk = Marker(w, X, el)
    top = list(range(wide + 1, 2 * wide + 2))
    sets = [[top[0]], [top[0], top[-1]], top]
    sets = [t for t in sets if len(t) >= least]
    fixed = sets[w.choice("set", len(sets))]
    bc, vals, find = prescribed(w, X, el, fixed)
    bottom = set(range(wide + 1))
    table = {("n", i): True for i in bottom}
    table.update({("f", f): True for f in boundary_of(el) if f <= bottom})
    return X, el, bc, vals, find, mk.predicate(table)


def check(w, mesh, find, vals, got, expect, what):
    for i, p in enumerate(np.asarray(mesh.nodes)):
        k = find(p)
        if k in vals:
            w.prove_eq(got[i], expect(vals[k], i), what)


def numbered(w, tag):
    return lambda k, x0: w.reals(f"{tag}{k}", (len(x0),))


def timed(w, fam, methods):
    X, el, bc, vals, find, contact = world(w)
    dt = w.const(F(1, 8))
    n = len(X)
    u0, v0 = w.reals("u0", (n, 2)), w.reals("v0", (n, 2))
    for method in methods:
        s = make_timed(w, X, el, fam, method, dt=dt, dirichlet=bc, contact=contact)
        Calls(w, numbered(w, method))
        if fam == "relaxation":
            res = s.solve(n_steps=3, output_step=(1, 3), initial_displacement=const_field(u0),
                          initial_absement=const_field(v0))
        else:
            res = s.solve(n_steps=3, output_step=(1, 3), initial_displacement=const_field(u0),
                          initial_velocity=const_field(v0))
        for st, k in zip(res, (1, 3)):
            if fam == "relaxation":
                check(w, s.body.mesh, find, vals, st.displacement,
                      lambda c, i: [c, c], f"{method}: displacement")
                check(w, s.body.mesh, find, vals, st.absement,
                      lambda c, i: v0[i] + k * dt * c, f"{method}: absement")
            else:
                check(w, s.body.mesh, find, vals, st.velocity,
                      lambda c, i: [c, c], f"{method}: velocity")
                check(w, s.body.mesh, find, vals, st.displacement,
                      lambda c, i: u0[i] + k * dt * c, f"{method}: displacement")
        # nothing but the prescribed entries is touched
        if method == "global":
            g = w.reals("global0", (2 * n,)).reshape(2, n).T
            q = res[0].displacement if fam == "relaxation" else res[0].velocity
            for i, p in enumerate(np.asarray(s.body.mesh.nodes)):
                if find(p) not in vals:
                    w.prove_eq(q[i], g[i], "free values are the optimiser's")


@harness("C10", stubs=STUB, bounds="6 nodes, contact bottom, 3 choices of fixed nodes, 3 steps, "
                                   "schur and global")
def quasistatic(w):
    """quasistatic velocities"""
    timed(w, "quasistatic", ("schur", "global"))


@harness("C10", stubs=STUB, bounds="6 nodes, contact bottom, 3 choices of fixed nodes, 3 steps, "
                                   "schur and global")
def dynamic(w):
    """dynamic velocities"""
    timed(w, "dynamic", ("schur", "global"))


@harness("C10", stubs=STUB, bounds="6 nodes, contact bottom, 3 choices of fixed nodes, 3 steps, "
                                   "schur and global")
def relaxation(w):
    """relaxation displacements"""
    timed(w, "relaxation", ("schur", "global"))


@harness("C10", stubs=STUB, bounds="6 nodes, 2 choices of fixed nodes; schur, global, direct with "
                                   "a linear system and direct with a contact law; Poisson")
def static(w):
    """static displacement and temperature"""
    from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

    X, el, bc, vals, find, contact = world(w, least=2)
    n = len(X)
    u0 = w.reals("u0", (n, 2))
    law = make_slope_contact_law(slope=w.const(F(2)))
    for method, lw in (("schur", zero_law()), ("global", zero_law()), ("direct", None),
                       ("direct", law)):
        s = make_static(w, X, el, method, law=lw, dirichlet=bc, contact=contact)
        Calls(w, numbered(w, method))
        st = s.solve(initial_displacement=const_field(u0))
        check(w, s.body.mesh, find, vals, st.displacement, lambda c, i: [c, c],
              f"{method}: displacement")
    s = make_poisson(w, X, el, "direct", dirichlet=bc)
    check(w, s.body.mesh, find, vals, s.solve().temperature, lambda c, i: c, "temperature")


@harness("C10", stubs=STUB, bounds="two tetrahedra, 3 fixed nodes, global")
def static_3d(w):
    """three components"""
    X = w.consts(TWO_TET[0])
    n = len(X)
    bc, vals, find = prescribed(w, X, TWO_TET[1], [0, 2, 4])
    s = make_static(w, X, TWO_TET[1], "global", law=zero_law(), dirichlet=bc)
    Calls(w, numbered(w, "g"))
    st = s.solve(initial_displacement=const_field(w.reals("u0", (n, 3))))
    check(w, s.body.mesh, find, vals, st.displacement, lambda c, i: [c, c, c], "displacement")


@harness("C10", stubs=STUB, bounds="6 nodes, 3 choices of fixed nodes, 2 steps, wave: schur, "
                                   "global, direct")
def wave(w):
    """wave velocity"""
    X, el, bc, vals, find, contact = world(w)
    n = len(X)
    dt = w.const(F(1, 8))
    zero = w.arr([0] * n)
    u0, v0 = w.reals("u0", (n,)), w.reals("v0", (n,))
    col = lambda a: w.arr(np.stack((a, zero), axis=1))  # noqa: E731
    for method in ("schur", "global", "direct"):
        s = make_wave(w, X, el, method, law=None if method == "direct" else zero_law(), dt=dt,
                      dirichlet=bc, contact=contact)
        Calls(w, numbered(w, method))
        res = s.solve(n_steps=2, initial_displacement=const_field(col(u0)),
                      initial_velocity=const_field(col(v0)))
        check(w, s.body.mesh, find, vals, res[-1].velocity[:, 0], lambda c, i: c,
              f"{method}: velocity")
        check(w, s.body.mesh, find, vals, res[-1].displacement[:, 0],
              lambda c, i: u0[i] + 2 * dt * c, f"{method}: deflection")


def coupled(w, families, method, least, electrodes=((0, 1),)):
    X, el, bc, vals, find, contact = world(w, least=least)
    n = len(X)
    zero = const_field(w.consts([0] * n))
    zero2 = const_field(w.consts([[0, 0]] * n))
    mk = Marker(w, X, el)
    pot = {i: w.real(f"p{i}", i) for f in electrodes for i in f}
    elec = {f"piezo_dirichlet_{k}": (mk.predicate({("f", frozenset(f)): True} if f else {}),
                                     lambda p: w.arr([pot[find(z)] for z in p]))
            for k, f in enumerate(electrodes)}
    for fam in families:
        kw = {} if fam == "temperature" else elec
        s = make_timed(w, X, el, fam, method, dirichlet=bc, contact=contact, **kw)
        Calls(w, lambda k, x0: w.reals(f"{fam}{method}{k % 2}", (len(x0),)))
        field = "temperature" if fam == "temperature" else "electric_potential"
        res = list(s.solve(n_steps=1, initial_displacement=zero2, initial_velocity=zero2,
                           **{"initial_" + field: zero}))
        st = res[-1]
        check(w, s.body.mesh, find, vals, st.velocity, lambda c, i: [c, c],
              f"{fam} {method}: velocity")
        check(w, s.body.mesh, find, vals if fam == "temperature" else pot,
              getattr(st, field), lambda c, i: c, f"{fam} {method}: {field}")


@harness("C10", stubs=STUB, bounds="6 nodes, 3 choices of fixed nodes, 1 step, global; the coupling "
                                   "loop runs until its iterates agree")
def coupled_global(w):
    """coupled problems: mechanical, thermal and electric values"""
    coupled(w, ("temperature", "piezo", "piezo_dynamic"), "global", 1)


@harness("C10", stubs=STUB, bounds="6 nodes, 2 choices of fixed nodes, 1 step, schur; every length of the "
                                   "coupling loop")
def coupled_schur(w):
    """thermal problem, condensed"""
    coupled(w, ("temperature",), "schur", 2)


@harness("C10", stubs=STUB, bounds="6 nodes, 2 choices of fixed nodes, 1 step, global; three "
                                   "electrodes on scattered nodes, a value per node")
def electrodes(w):
    """several electrodes at once"""
    coupled(w, ("piezo_dynamic",), "global", 2, electrodes=((4, 5), (0, 3), (1, 2)))


@harness("C10", stubs=STUB, bounds="6 nodes, 2 choices of fixed nodes, 1 step, global; the first and the "
                                   "third of four electrodes contain no face of the mesh")
def electrodes_apart(w):
    """electrodes no face of the mesh belongs to do not affect the others"""
    coupled(w, ("piezo_dynamic",), "global", 2, electrodes=((), (4, 5), (), (1, 2)))


@harness("C10", stubs=STUB, bounds="6 nodes, 2 choices of fixed nodes, 1 step, schur; every length of the "
                                   "coupling loop")
def electric_schur(w):
    """electric problem, condensed"""
    coupled(w, ("piezo",), "schur", 2)
