"""Sparse multivariate polynomials with exact rational coefficients (encoding layer only).

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of (var, exp).
Variables are small ints handed out by the engine.  Monomial order: lex, smaller var dominant.
"""

from fractions import Fraction
from math import gcd

ONE = ()


def norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = norm_coef(c)
    return {ONE: c} if c else {}


def var(v):
    return {((v, 1),): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_value(p):
    return p.get(ONE, 0)


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = norm_coef(s)
        else:
            r.pop(m, None)
    return r


def scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: norm_coef(c * k) for m, c in p.items()}


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) - c
        if s:
            r[m] = norm_coef(s)
        else:
            r.pop(m, None)
    return r


def mul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def div_mono(a, b):
    """a / b or None."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            del d[v]
    return tuple(sorted(d.items()))


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1 and ONE in p:
        return scale(q, p[ONE])
    r = {}
    get = r.get
    for ma, ca in p.items():
        for mb, cb in q.items():
            m = mul_mono(ma, mb)
            r[m] = get(m, 0) + ca * cb
    return {m: norm_coef(c) for m, c in r.items() if c}


def power(p, n):
    r = {ONE: 1}
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def mono_key(m):
    return tuple((-v, e) for v, e in m)


def leading(p):
    if len(p) == 1:
        return next(iter(p))
    return max(p, key=mono_key)


def trailing(p):
    return min(p, key=mono_key)


def monic(p):
    """(coefficient, monic polynomial) with coefficient * monic == p."""
    c = p[leading(p)]
    if c == 1:
        return 1, p
    inv = Fraction(1) / c
    return c, {m: norm_coef(k * inv) for m, k in p.items()}


def exact_div(p, f, limit=20000):
    """p / f if f divides p exactly, else None."""
    if not p:
        return {}
    if len(f) == 1:
        (mf, cf), = f.items()
        q = {}
        inv = Fraction(1) / cf
        for m, c in p.items():
            d = div_mono(m, mf)
            if d is None:
                return None
            q[d] = norm_coef(c * inv)
        return q
    mf = leading(f)
    cf = f[mf]
    if div_mono(leading(p), mf) is None or div_mono(trailing(p), trailing(f)) is None:
        return None
    inv = Fraction(1) / cf
    r = dict(p)
    q = {}
    work = 0
    while r:
        m = leading(r)
        d = div_mono(m, mf)
        if d is None:
            return None
        k = norm_coef(r[m] * inv)
        q[d] = k
        for mm, c in f.items():
            x = mul_mono(d, mm)
            s = r.get(x, 0) - k * c
            if s:
                r[x] = norm_coef(s)
            else:
                r.pop(x, None)
        work += len(f) + len(r)
        if work > limit:
            return None
    return q


def rat_sqrt(c):
    """Exact square root of a non-negative rational, or None."""
    c = Fraction(c)
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm_coef(Fraction(a, b))
    return None


def isqrt(n):
    from math import isqrt as s

    return s(n)


def poly_sqrt(p, limit=400):
    """q with q*q == p (leading coefficient positive) or None."""
    if not p:
        return {}
    if len(p) > limit:
        return None
    m = leading(p)
    if any(e % 2 for _, e in m):
        return None
    c = rat_sqrt(p[m])
    if c is None:
        return None
    lead = tuple((v, e // 2) for v, e in m)
    q = {lead: c}
    r = sub(p, mul(q, q))
    twice = {lead: 2 * c}
    last = None
    while r:
        mr = leading(r)
        d = div_mono(mr, lead)
        if d is None:
            return None
        k = mono_key(d)
        if last is not None and k >= last or k >= mono_key(lead):
            return None
        last = k
        t = {d: norm_coef(Fraction(r[mr]) / (2 * c))}
        # (q+t)^2 = q^2 + 2qt + t^2
        r = sub(r, add(scale(mul(q, t), 2), mul(t, t)))
        q = add(q, t)
        if len(q) > 60:
            return None
    _ = twice
    return q


def content_square(p):
    """Largest rational c with c*c dividing out nicely (numeric content only)."""
    den = 1
    for c in p.values():
        d = Fraction(c).denominator
        den = den * d // gcd(den, d)
    num = 0
    for c in p.values():
        num = gcd(num, abs(int(Fraction(c) * den)))
    return Fraction(num, den)


def key(p):
    return frozenset(p.items())


def variables(p):
    return {v for m in p for v, _ in m}


def evaluate(p, val):
    """Evaluate with val: var -> number."""
    total = 0
    for m, c in p.items():
        t = c
        for v, e in m:
            t = t * val(v) ** e
        total = total + t
    return total


def psd_quadratic(p):
    """True if p has degree <= 2 and is nonnegative for all arguments (exact LDL^T of its Gram
    matrix); False when that is not established."""
    vs = {}
    for m in p:
        if sum(e for _, e in m) > 2:
            return False
        for v, _ in m:
            vs.setdefault(v, len(vs) + 1)
    n = len(vs) + 1
    if n > 80:
        return False
    g = [dict() for _ in range(n)]

    def put(i, j, c):
        g[i][j] = g[i].get(j, 0) + c

    for m, c in p.items():
        if not m:
            put(0, 0, Fraction(c))
        elif len(m) == 1 and m[0][1] == 2:
            i = vs[m[0][0]]
            put(i, i, Fraction(c))
        else:
            i = vs[m[0][0]]
            j = vs[m[1][0]] if len(m) == 2 else 0
            put(i, j, Fraction(c) / 2)
            put(j, i, Fraction(c) / 2)
    for k in range(n - 1, -1, -1):
        d = g[k].get(k, 0)
        row = {j: c for j, c in g[k].items() if j < k and c}
        if d < 0 or (d == 0 and row):
            return False
        if d:
            for i, a in row.items():
                for j, b in row.items():
                    g[i][j] = g[i].get(j, 0) - a * b / d
    return True


def squares(p):
    """Homogeneous quadratic p as [(d, {variable: coefficient})], p = sum d * form^2 with all d > 0;
    (None, point) with p(point) < 0 when there is no such sum."""
    vs = sorted(variables(p))
    g = {v: {} for v in vs}
    for m, c in p.items():
        if len(m) == 1:
            v = m[0][0]
            g[v][v] = g[v].get(v, 0) + Fraction(c)
        else:
            a, b = m[0][0], m[1][0]
            g[a][b] = g[a].get(b, 0) + Fraction(c) / 2
            g[b][a] = g[b].get(a, 0) + Fraction(c) / 2
    full = {v: dict(r) for v, r in g.items()}
    parts = []
    for k in vs:
        d = g[k].get(k, 0)
        row = {j: c for j, c in g[k].items() if c}
        if d < 0 or (d == 0 and row):
            return None, _descent(full, vs)
        if d:
            parts.append((d, {j: c / d for j, c in row.items()}))
            for i, a in row.items():
                for j, b in row.items():
                    g[i][j] = g[i].get(j, 0) - a * b / d
    return parts, None


def _descent(g, vs):
    """a rational point where the (not nonnegative) quadratic form g is clearly negative"""
    import numpy as np

    a = np.array([[float(g[i].get(j, 0)) for j in vs] for i in vs])
    x = np.linalg.eigh(a)[1][:, 0]
    out = {v: Fraction(round(c * 4096), 64) for v, c in zip(vs, x / np.max(np.abs(x)))}
    return {v: c for v, c in out.items() if c}
