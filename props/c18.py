"""C18: shipped contact laws: potential and subderivative match; defaults are neutral."""

from props.common import F
from vsym.world import harness


def central(P, v, h):
    """exact derivative of a quadratic piece"""
    return (P(v + h) - P(v - h)) / (2 * h)


def laws():
    from conmech.dynamics.contact.constant_constact_law import make_const_contact_law
    from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl
    from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

    return make_slope_contact_law, make_const_contact_law, make_damped_norm_compl


def pair(law):
    import numba

    return (numba.njit(law.potential_normal_direction),
            numba.njit(law.subderivative_normal_direction))


def one_sided(w, which):
    slope, const, _ = laws()
    a = w.real("a", 3)
    law = (slope, const)[which](a)
    pot, sub = pair(law)
    (slope, const)[which](a + 1)  # laws made later have parameters of their own
    s, dt = w.real("s", 1), w.real("dt", 2)
    v, h = w.real("v", 1), w.pos("h", F(1, 4))
    P = lambda z: pot(z, s, dt)  # noqa: E731
    S = lambda z: sub(z, s, dt)  # noqa: E731
    if w.choice("side", 2):
        w.assume(w.gt(v - h, 0))
        w.prove_eq(S(v), a * v if which == 0 else a, "response under penetration")
    else:
        w.assume(w.le(v + h, 0))
        w.prove_eq([P(v), S(v)], [0, 0], "no cost and no response without penetration")
    w.prove_eq(S(v), central(P, v, h), "subderivative is the derivative of the potential")
    # continuity at the kink: extrapolation of the right piece to zero
    w.prove_eq(3 * P(h) - 3 * P(2 * h) + P(3 * h), P(w.const(0)), "continuous at zero")
    zero = S(w.const(0))
    right = (-3 * P(w.const(0)) + 4 * P(h) - P(2 * h)) / (2 * h)
    w.prove(w.either(w.both(w.le(0, zero), w.le(zero, right)),
                     w.both(w.le(right, zero), w.le(zero, 0))), "kink: between one-sided values")


@harness("C18", bounds="every slope, every argument on either side of the kink, any step inside "
                       "the piece")
def slope(w):
    """slope law"""
    one_sided(w, 0)


@harness("C18", bounds="every resistance, every argument on either side of the kink")
def constant(w):
    """constant resistance law"""
    one_sided(w, 1)


@harness("C18", bounds="every nonnegative slope / resistance, every pair of arguments")
def monotone(w):
    """responses of passive laws push back and grow with penetration"""
    which = w.choice("law", 2)
    a = w.nonneg("a", 3)
    law = laws()[which](a)
    _, sub = pair(law)
    x, y = w.real("x", -1), w.real("y", 2)
    s, dt = w.real("s", 1), w.real("dt", 2)
    w.assume(w.le(x, y))
    w.prove(w.both(w.ge(sub(x, s, dt), 0), w.le(sub(x, s, dt), sub(y, s, dt))), "monotone response")


@harness("C18", bounds="every obstacle level, stiffness, damping, displacement, velocity and step; "
                       "boundary and interior variant")
def damped(w):
    """damped normal compliance"""
    import numba
    from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw

    g, k, b = w.real("g", 1), w.real("k", 10), w.real("b", 2)
    interior = bool(w.choice("interior", 2))
    law = laws()[2](obstacle_level=g, kappa=k, beta=b, interior=interior)
    laws()[2](obstacle_level=g + 1, kappa=k + 1, beta=b + 1, interior=interior)
    obj = law()
    w.prove_eq([obj.obstacle_level, obj.kappa, obj.beta], [g, k, b], "parameters can be read back")
    w.prove(isinstance(obj, InteriorContactLaw) == interior, "interior variant")
    pot, sub = pair(law)
    bound = numba.njit(law.normal_bound)
    s, v, dt = w.real("s", 2), w.real("v", 1), w.pos("dt", F(1, 8))
    h = w.pos("h", F(1, 4))
    P = lambda z: pot(z, s, dt)  # noqa: E731
    S = lambda z: sub(z, s, dt)  # noqa: E731
    if w.choice("side", 2):
        w.assume(w.ge(s + (v - h) * dt, g))
        w.prove_eq(P(v), k * (s + v * dt - g) + b * v, "compliance and damping of the penetration")
    else:
        w.assume(w.lt(s + (v + h) * dt, g))
        w.prove_eq([P(v), S(v)], [0, 0], "no response before the obstacle is reached")
    w.prove_eq(S(v), central(P, v, h), "subderivative is the derivative of the potential")
    w.prove_eq(bound(v, s, dt), v / 2, "weight of the response")


@harness("C18", bounds="every argument")
def neutral(w):
    """undeclared parts of a law are neutral: unit bounds, no friction"""
    import numba
    from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw

    slope_, const, _ = laws()
    v, s, dt = w.real("v", 1), w.real("s", 2), w.real("dt", 3)
    for base in (slope_(w.real("a", 3)), const(w.real("a", 3)), PotentialOfContactLaw,
                 DirectContactLaw):
        for name, want in (("normal_bound", 1), ("tangential_bound", 1),
                           ("potential_tangential_direction", 0),
                           ("subderivative_tangential_direction", 0)):
            f = getattr(base, name, None)
            if f is not None:
                w.prove_eq(numba.njit(f)(v, s, dt), want, f"{name} by default")
