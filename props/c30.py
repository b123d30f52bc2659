"""C30: patch test - linear fields and uniform stress are reproduced exactly."""

import numpy as np

from props.common import (Calls, F, Marker, SQUARE5, boundary_of, const_field, flat, make_poisson,
                          make_static, make_timed, make_wave, signed_det, strip)
from vsym.world import harness

STUB = "optimiser replaced by an arbitrary (symbolic) answer"
TET5 = (  # tetrahedron with an interior node
    [[F(0), F(0), F(0)], [F(2), F(1, 8), F(0)], [F(1, 4), F(2), F(1, 8)], [F(0), F(1, 4), F(2)],
     [F(1, 2), F(3, 8), F(5, 8)]],
    [[0, 1, 2, 4], [3, 1, 0, 4], [0, 2, 3, 4], [4, 1, 2, 3]],
)
SLAB = (  # tetrahedron with a node (4) inside its bottom face, which lies in z = 0
    [[F(0), F(0), F(0)], [F(2), F(1, 8), F(0)], [F(1, 4), F(2), F(0)], [F(1, 8), F(1, 4), F(2)],
     [F(3, 4), F(1, 2), F(0)]],
    [[0, 1, 4, 3], [1, 2, 4, 3], [3, 2, 0, 4]],
)
FLAT = (  # quadrilateral with a node (4) on its bottom side y = 0 and one (5) inside
    [[F(0), F(0)], [F(3), F(0)], [F(5, 2), F(2)], [F(-1, 4), F(3, 2)], [F(1), F(0)],
     [F(5, 4), F(3, 4)]],
    [[0, 4, 5], [4, 1, 5], [5, 1, 2], [2, 3, 5], [0, 5, 3]],
)


class Linear:
    """a(x) = a0 + g.x with symbolic coefficients"""

    def __init__(self, w, name, d):
        self.w = w
        self.a = w.real(name + "0", 1)
        self.g = w.reals(name + "g", (d,))

    def __call__(self, p):
        p = np.asarray(p)
        s = self.a
        for k in range(p.shape[-1]):
            s = s + p[..., k] * self.g[k]
        return s

    def condition(self):
        return lambda p: self.w.arr([self(z) for z in np.asarray(p)])


def fixed_nodes(w, X, el, nodes, value):
    mk = Marker(w, X, el)
    return mk.predicate({("n", i): True for i in nodes}), value.condition()


def outer_nodes(el):
    return sorted({i for f in boundary_of(el) for i in f})


def stress(mu, la, g):
    """stress of the displacement whose components all equal a linear field of gradient g"""
    d = len(g)
    tr = sum(g[k] for k in range(d))
    return [[mu * (g[i] + g[j]) + (la * tr if i == j else 0) for j in range(d)]
            for i in range(d)]


def stationary(w, calls, k, x, free, label):
    """the minimised (quadratic) functional is stationary at x in the free unknowns"""
    out = []
    for i in free:
        hi, lo = x.copy(), x.copy()
        hi[i] = hi[i] + 1
        lo[i] = lo[i] - 1
        out.append(calls.value(k, hi)[0] - calls.value(k, lo)[0])
    w.prove_eq(w.arr(out), w.arr([0] * len(out)), label)


def free_of(s, w, X, fixed, comps):
    find = w.locate([(i, X[i]) for i in range(len(X))])
    n = len(X)
    ids = [i for i, p in enumerate(np.asarray(s.body.mesh.nodes)) if find(p) not in fixed]
    return [c * n + i for c in range(comps) for i in ids]


def displacement(w, mesh, fixed, pull=None, symbolic=True, X=None):
    """static displacement, direct and global; `pull(mu, la, g)`: traction on the other faces"""
    X = w.consts(mesh[0]) if X is None else X
    n, d = X.shape
    lin = Linear(w, "a", d)
    mu, la = (w.pos("mu", 3), w.pos("la", 5)) if symbolic else (w.const(F(3)), w.const(F(5)))
    t = None if pull is None else w.arr(pull(mu, la, lin.g))
    kw = dict(mu=mu, la=la, dirichlet=fixed_nodes(w, X, mesh[1], fixed, lin),
              outer=None if t is None else lambda x, time=None: t)
    s = make_static(w, X, mesh[1], "direct", **kw)
    st = s.solve(initial_displacement=const_field(w.arr(np.zeros((n, d)))))
    want = lin(np.asarray(s.body.mesh.nodes))
    for c in range(d):
        w.prove_eq(np.asarray(st.displacement)[:, c], want, "linear displacement is reproduced")
    s = make_static(w, X, mesh[1], "global", **kw)
    calls = Calls(w, lambda k, x0: w.reals("s", (d * n,)))
    s.solve(initial_displacement=const_field(w.arr(np.zeros((n, d)))))
    x = flat(np.stack([lin(np.asarray(s.body.mesh.nodes))] * d, axis=1))
    stationary(w, calls, 0, x, free_of(s, w, X, fixed, d),
               "minimised functional at the linear displacement")


@harness("C30", stubs=STUB, bounds="4 triangles with an interior node, boundary prescribed by a "
                                   "linear field with symbolic coefficients, symbolic moduli; "
                                   "direct and global")
def plane(w):
    """linear displacement in the plane"""
    displacement(w, SQUARE5, outer_nodes(SQUARE5[1]))


@harness("C30", stubs=STUB, bounds="5 triangles, an interior node and a free node on a loaded side, "
                                   "symbolic field and moduli; direct and global")
def plane_pulled(w):
    """uniform stress in the plane with traction on a side"""
    displacement(w, FLAT, [0, 1, 2, 3], lambda mu, la, g: [-row[1] for row in stress(mu, la, g)])


@harness("C30", stubs=STUB, bounds="4 tetrahedra with an interior node, symbolic linear field and "
                                   "moduli; direct and global")
def solid(w):
    """linear displacement in space"""
    displacement(w, TET5, [0, 1, 2, 3])


@harness("C30", stubs=STUB, bounds="3 tetrahedra with a free node in a loaded face, symbolic field "
                                   "and moduli; direct and global")
def solid_pulled(w):
    """uniform stress in space with traction on a face"""
    displacement(w, SLAB, [0, 1, 2, 3], lambda mu, la, g: [-row[2] for row in stress(mu, la, g)])


@harness("C30", stubs=STUB, bounds="8 triangles of a sheared strip (9 nodes), symbolic linear "
                                   "field; direct and global")
def plane_many(w):
    """linear displacement, more elements"""
    N, el = strip(2, 2)
    displacement(w, (N, el), outer_nodes(el), symbolic=False)


@harness("C30", stubs=STUB, bounds="4 triangles, symbolic position of the interior node, symbolic "
                                   "linear field; direct and global")
def plane_anywhere(w):
    """linear displacement, interior node at any place"""
    X = w.consts(SQUARE5[0])
    X[4] = w.arr([w.real("px", 1), w.real("py", F(3, 4))])
    for e in SQUARE5[1]:
        w.assume(w.gt(signed_det(X[e]), 0))
    displacement(w, SQUARE5, outer_nodes(SQUARE5[1]), symbolic=False, X=X)


@harness("C30", tier="thorough", stubs=STUB, bounds="24 triangles of a sheared strip (20 nodes), "
                                                    "symbolic linear field; direct and global")
def plane_large(w):
    """linear displacement, many elements"""
    N, el = strip(4, 3)
    displacement(w, (N, el), outer_nodes(el), symbolic=False)


def heat(w, mesh, fixed, axis=None):
    X = w.consts(mesh[0])
    n, d = X.shape
    lin = Linear(w, "a", d)
    kw = dict(dirichlet=fixed_nodes(w, X, mesh[1], fixed, lin),
              outer=None if axis is None else lambda x, time=None: w.arr([-lin.g[axis]]))
    s = make_poisson(w, X, mesh[1], "direct", **kw)
    w.prove_eq(s.solve().temperature, lin(np.asarray(s.body.mesh.nodes)),
               "linear temperature is reproduced")
    s = make_poisson(w, X, mesh[1], "global", **kw)
    calls = Calls(w, lambda k, x0: w.reals("s", (n,)))
    s.solve()
    stationary(w, calls, 0, lin(np.asarray(s.body.mesh.nodes)), free_of(s, w, X, fixed, 1),
               "minimised functional at the linear temperature")


@harness("C30", stubs=STUB, bounds="Poisson problem with symbolic linear temperature: interior node, "
                                   "free node on a side or face with flux, 2D and 3D; direct and "
                                   "global")
def temperature(w):
    """linear temperature"""
    case = w.choice("case", 4)
    mesh, fixed, axis = ((SQUARE5, [0, 1, 2, 3], None), (FLAT, [0, 1, 2, 3], 1),
                         (TET5, [0, 1, 2, 3], None), (SLAB, [0, 1, 2, 3], 2))[case]
    heat(w, mesh, fixed, axis)


@harness("C30", stubs=STUB, bounds="interior node in 2D and 3D; every displacement component of the "
                                   "start linear with its own symbolic coefficients; quasistatic: "
                                   "boundary moving with a linear velocity, dynamic: boundary at "
                                   "rest; functional of the first step")
def moving(w):
    """uniform strain needs no inner motion"""
    mesh = (SQUARE5, TET5)[w.choice("dimension", 2)]
    fam = ("quasistatic", "dynamic")[w.choice("family", 2)]
    X = w.consts(mesh[0])
    n, d = X.shape
    fixed = outer_nodes(mesh[1])
    lin = Linear(w, "a", d)
    if fam == "dynamic":
        lin.a, lin.g = w.const(F(0)), w.consts([0] * d)
    start = [Linear(w, f"u{c}", d) for c in range(d)]
    s = make_timed(w, X, mesh[1], fam, "global",
                   dirichlet=fixed_nodes(w, X, mesh[1], fixed, lin))
    calls = Calls(w, lambda k, x0: w.reals("s", (d * n,)))
    s.solve(n_steps=1, initial_velocity=lambda p: w.arr(np.zeros((len(p), d))),
            initial_displacement=lambda p: np.stack([f(p) for f in start], axis=1))
    x = flat(np.stack([lin(np.asarray(s.body.mesh.nodes))] * d, axis=1))
    stationary(w, calls, 0, x, free_of(s, w, X, fixed, d), f"inner motion, {fam}")


@harness("C30", stubs=STUB, bounds="membrane with an interior node, rim at rest, start deflection "
                                   "linear with symbolic coefficients; functional of the first step")
def membrane(w):
    """a plane membrane stays plane"""
    X = w.consts(SQUARE5[0])
    n = len(X)
    fixed = outer_nodes(SQUARE5[1])
    lin = Linear(w, "a", 2)
    mk = Marker(w, X, SQUARE5[1])
    s = make_wave(w, X, SQUARE5[1], "global",
                  dirichlet=mk.predicate({("n", i): True for i in fixed}))
    calls = Calls(w, lambda k, x0: w.reals("s", (len(x0),)))
    s.solve(n_steps=1, initial_velocity=lambda p: w.arr(np.zeros((len(p), 2))),
            initial_displacement=lambda p: np.stack([lin(p)] * 2, axis=1))
    x = w.arr([0] * len(calls.calls[0][2].reshape(-1)))
    stationary(w, calls, 0, x, free_of(s, w, X, fixed, 1), "motion of a plane membrane")
