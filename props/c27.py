"""C27: operator objects behave as matrices."""

import numpy as np

from vsym.world import harness

# operation -> needs a square operand
OPS = ("A + B", "A + M", "M + A", "c * A", "A * c", "A += B", "A += M", "A *= c", "copy",
       "A @= B", "A @= M", "A + 0 (sum)")
SQUARE_ONLY = {"A @= B", "A @= M"}


def kinds():
    from conmech.struct import stiffness_matrix as sm

    return [(sm.SM1, (2, 2)), (sm.SM2, (4, 4)), (sm.SM3, (6, 6)), (sm.SM1to2, (2, 4)),
            (sm.SM1to3, (1, 3))]


def underlying(x):
    from conmech.struct.stiffness_matrix import StiffnessMatrix

    return np.asarray(x.data if isinstance(x, StiffnessMatrix) else x)


def apply(w, op, A, B, M, c):
    """returns (result, in_place)"""
    if op == "A + B":
        return A + B, False
    if op == "A + M":
        return A + M, False
    if op == "M + A":
        return M + A, False
    if op == "c * A":
        return c * A, False
    if op == "A * c":
        return A * c, False
    if op == "copy":
        return A.copy(), False
    if op == "A + 0 (sum)":
        return sum([A, B]), False
    if op == "A += B":
        A += B
    elif op == "A += M":
        A += M
    elif op == "A *= c":
        A *= c
    elif op == "A @= B":
        A @= B
    elif op == "A @= M":
        A @= M
    return A, True


def reference(op, a, b, m, c):
    if op in ("A + B", "A += B", "A + 0 (sum)"):
        return a + b
    if op in ("A + M", "M + A", "A += M"):
        return a + m
    if op in ("c * A", "A * c", "A *= c"):
        return c * a
    if op == "A @= B":
        return a @ b
    if op == "A @= M":
        return a @ m
    return a


def program(w, kind, length):
    cls, shape = kinds()[kind]
    ops = [o for o in OPS if shape[0] == shape[1] or o not in SQUARE_ONLY]
    a, b, m = (w.reals(x, shape) for x in "abm")
    c = w.real("c", 3)
    A, B = cls(a.copy()), cls(b.copy())
    M = m.copy()
    alias = A
    ref = a.copy()
    for k in range(length):
        op = ops[w.choice(f"op{k}", len(ops))]
        old = ref
        new = reference(op, ref, b, m, c)
        before = A
        R, in_place = apply(w, op, A, B, M, c)
        w.prove(type(R) is cls, f"{op}: kind of the result")
        w.prove_eq(underlying(R), new, f"{op}: value")
        if in_place:
            w.prove(R is before, f"{op}: changes the object itself")
            if alias is before:
                w.prove_eq(underlying(alias), new, f"{op}: other names of the object")
        else:
            w.prove(R is not before, f"{op}: new object")
            w.prove_eq(underlying(before), old, f"{op}: left operand unchanged")
            # the result does not share data with its operands
            keep = underlying(R).copy()
            R *= 1
            R += M
            w.prove_eq(underlying(before), old, f"{op}: result is independent of the operand")
            R = cls(w.arr(keep))
        w.prove_eq(underlying(B), b, f"{op}: right operand unchanged")
        w.prove_eq(M, m, f"{op}: array operand unchanged")
        A, ref = R, new


@harness("C27", bounds="2x2, 4x4 and 6x6 operators of all kinds, every program of 2 operations")
def square(w):
    """programs of operations on square operators"""
    program(w, w.choice("kind", 3), 2)


@harness("C27", bounds="2x4 and 1x3 coupling operators, every program of 2 operations")
def coupling(w):
    """programs of operations on coupling operators"""
    program(w, 3 + w.choice("kind", 2), 2)


@harness("C27", tier="thorough", bounds="2x2 operators, every program of 3 operations")
def longer(w):
    """longer programs"""
    program(w, 0, 3)


@harness("C27", bounds="all kinds, symbolic entries")
def products(w):
    """matrix products, transposes, blocks and entries"""
    cls, shape = kinds()[w.choice("kind", 5)]
    a = w.reals("a", shape)
    A = cls(a.copy())
    r, c = shape
    x, y = w.reals("x", (c,)), w.reals("y", (r,))
    P, Q = w.reals("P", (c, 2)), w.reals("Q", (2, r))
    w.prove_eq(underlying(A @ x), a @ x, "operator times vector")
    w.prove_eq(underlying(A @ P), a @ P, "operator times matrix")
    for z, what in ((y, "vector"), (Q, "matrix")):
        try:
            got = underlying(z @ A)
        except (TypeError, ValueError):
            got = None
        w.prove(got is not None, f"{what} times operator is available")
        w.prove_eq(got, z @ a, f"{what} times operator")
    w.prove_eq(underlying(A.T), a.T, "transpose")
    w.prove_eq(underlying(A.T @ y), a.T @ y, "transpose times vector")
    w.prove_eq(underlying(A.T @ A), a.T @ a, "operator times operator")
    if r == c:
        B = cls(w.reals("b", shape))
        w.prove_eq(underlying(A @ B), a @ w.reals("b", shape), "operator times operator")
    w.prove_eq(A[0, c - 1], a[0, c - 1], "entry")
    w.prove_eq(A[:, 0], a[:, 0], "column")
    w.prove_eq(A[0], a[0], "row")
    w.prove_eq(underlying(A), a, "operands are unchanged")
    if hasattr(A, "SM1"):
        k = cls.DIMENSION[0]
        w.prove_eq(underlying(A.SM1), a[: r // k, : c // k], "first block")


@harness("C27", bounds="all pairs of different kinds")
def mismatch(w):
    """operators of different kinds are not added"""
    ks = kinds()
    i, j = w.choice("left", 5), w.choice("right", 5)
    if ks[i][0] is ks[j][0]:
        return
    a = w.reals("a", ks[i][1])
    A, B = ks[i][0](a.copy()), ks[j][0](a.copy())
    w.prove(w.expect_raises(lambda: A + B, Exception), "sum of different kinds is refused")

    def inplace():
        nonlocal A
        A += B

    w.prove(w.expect_raises(inplace, Exception), "in-place sum of different kinds is refused")
    w.prove_eq(underlying(A), a, "refused operations change nothing")
