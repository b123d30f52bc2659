"""Symbolic execution engine: exact real terms, path conditions, z3 queries.

The engine executes the repository's own Python functions on `SReal` values.  Control flow that
depends on a symbolic value goes through `SBool.__bool__`, which asks the engine for a decision;
the engine explores every feasible combination of decisions by re-execution (depth first).
"""

import math
import random
import sys
import time
from fractions import Fraction
from numbers import Number

from . import poly as P

POS, NEG, ZERO = 1, -1, 0
S_GT = frozenset((1,))
S_GE = frozenset((0, 1))
S_LT = frozenset((-1,))
S_LE = frozenset((-1, 0))
S_EQ = frozenset((0,))
S_NE = frozenset((-1, 1))
S_ALL = frozenset((-1, 0, 1))
S_NONE = frozenset()

TRUE = ("t",)
FALSE = ("f",)


def load_z3():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    path = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    sys.path.append(path)
    try:
        import z3  # noqa
    finally:
        sys.path.remove(path)
    z3.set_param("memory_max_size", 6000)
    return z3


class Unsupported(Exception):
    """The code under test does something the encoding cannot express."""


class Inconclusive(Exception):
    """Bound or solver limit exceeded."""


class PathAbort(BaseException):
    """The current path condition is infeasible (assumption not met)."""


class Stop(BaseException):
    """Stop exploring (violation candidate found)."""


_SNAP = {}


def snap(x):
    """float -> the rational constant the source meant (1/3, 0.1, 1e-12 ...)."""
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return x
    x = float(x)
    r = _SNAP.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported(f"non-finite constant {x}")
    if x == int(x) and abs(x) < 1e15:
        r = int(x)
    else:
        f = Fraction(x).limit_denominator(5000)
        if f != 0 and abs(float(f) - x) <= 4e-16 * abs(x):
            r = f
        else:
            r = Fraction(repr(x))
            if abs(r.denominator) > 10**12 and abs(x) > 1e-9:
                # noise from intermediate float arithmetic on constants
                f = Fraction(x).limit_denominator(10**6)
                if abs(float(f) - x) <= 4e-16 * abs(x):
                    r = f
    _SNAP[x] = r
    return r


# ------------------------------------------------------------------------- formulas


def f_not(f):
    t = f[0]
    if t == "t":
        return FALSE
    if t == "f":
        return TRUE
    if t == "a":
        s = S_ALL - f[2]
        return ("a", f[1], s)
    if t == "and":
        return f_or([f_not(g) for g in f[1]])
    if t == "or":
        return f_and([f_not(g) for g in f[1]])
    raise AssertionError(t)


def f_and(fs):
    out = []
    for f in fs:
        if f[0] == "t":
            continue
        if f[0] == "f":
            return FALSE
        if f[0] == "and":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", out)


def f_or(fs):
    out = []
    for f in fs:
        if f[0] == "f":
            continue
        if f[0] == "t":
            return TRUE
        if f[0] == "or":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", out)


def f_vars(f, acc):
    if f[0] == "a":
        acc |= P.variables(f[1])
    elif f[0] in ("and", "or"):
        for g in f[1]:
            f_vars(g, acc)
    return acc


def atom(p, signs):
    if not signs:
        return FALSE
    if len(signs) == 3:
        return TRUE
    if P.is_const(p):
        c = P.const_value(p)
        s = (c > 0) - (c < 0)
        return TRUE if s in signs else FALSE
    c, m = P.monic(p)
    if c < 0:
        signs = frozenset(-s for s in signs)
    return ("a", m, signs)


# ------------------------------------------------------------------------- engine


class Engine:
    def __init__(self, seed=1, query_timeout=20000, branch_timeout=4000, max_paths=4000,
                 deadline=None):
        self.z3 = load_z3()
        self.seed = seed
        self.query_timeout = query_timeout
        self.branch_timeout = branch_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        # statistics
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.identity_queries = 0
        self.branch_queries = 0
        self.obligations = 0
        self.solver_time = 0.0
        self.unknown = []
        self.cross_confirmed = 0
        self.cross_unknown = 0
        self.candidates = []
        self.witness = None
        self.reset_path([])

    # ---- path life cycle
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []  # decisions taken: (value, forked)
        self.pc = []  # formulas
        self.known = {}  # monic-poly key -> allowed sign set
        self.var_names = []
        self.var_hint = []
        self.var_kind = []
        self.by_name = {}
        self.atom_def = {}  # var -> ("sqrt", poly) | ("uf", name, arg)
        self.atom_memo = {}
        self.factors = []  # denominators
        self.factor_ids = {}
        self.z3vars = {}
        self.zcache = {}
        self.samples = []
        self.rng = random.Random(self.seed)
        self.notes = []
        self.in_reduce = False
        self.n_samples = 12
        for _ in range(self.n_samples):
            self.samples.append({})
        self.nan_raise = True

    # ---- variables
    def new_var(self, name, hint=None, kind="real", sampler=None):
        if name in self.by_name:
            raise AssertionError(f"duplicate variable {name}")
        v = len(self.var_names)
        self.var_names.append(name)
        self.var_kind.append(kind)
        self.by_name[name] = v
        if hint is None:
            hint = Fraction(self.rng.randint(-24, 24) or 5, 8)
        hint = Fraction(snap(hint))
        self.var_hint.append(hint)
        for k, s in enumerate(self.samples):
            if s is None:
                continue
            if sampler is not None:
                s[v] = Fraction(sampler(self.rng)) if k else hint
            elif k == 0:
                s[v] = hint
            elif k % 2:
                s[v] = hint + Fraction(self.rng.randint(-6, 6), 64)
            else:
                s[v] = hint + Fraction(self.rng.randint(-32, 32), 32)
        return v

    def fresh_atom(self, kind, arg_poly, key):
        v = len(self.var_names)
        self.var_names.append(f"@{kind}{v}")
        self.var_kind.append(kind)
        self.var_hint.append(None)
        self.atom_def[v] = (kind, arg_poly)
        self.atom_memo[key] = v
        for s in self.samples:
            if s is not None:
                self.sample_atom(s, v)
        return v

    def sample_atom(self, s, v):
        kind, p = self.atom_def[v]
        try:
            x = float(P.evaluate(p, lambda u: s[u]))
            if kind == "sqrt":
                if x < 0:
                    s[v] = float("nan")
                else:
                    r = P.rat_sqrt(P.evaluate(p, lambda u: s[u])) if all(
                        isinstance(s[u], (int, Fraction)) for u in P.variables(p)) else None
                    s[v] = r if r is not None else math.sqrt(x)
            elif kind == "exp":
                s[v] = math.exp(x)
            elif kind == "log":
                s[v] = math.log(x) if x > 0 else float("nan")
            elif kind == "sin":
                s[v] = math.sin(x)
            elif kind == "cos":
                s[v] = math.cos(x)
            elif kind == "uninit":
                s[v] = 123.456
            else:
                s[v] = float("nan")
        except (OverflowError, ValueError):
            s[v] = float("nan")

    # ---- polynomial reduction by sqrt atoms
    def reduce(self, p):
        if not self.atom_def:
            return p
        ad = self.atom_def
        for _ in range(50):
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in ad and ad[v][0] == "sqrt":
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return p
            out = {}
            for m, c in p.items():
                rep = None
                rest = []
                for v, e in m:
                    if e >= 2 and v in ad and ad[v][0] == "sqrt":
                        q = P.power(ad[v][1], e // 2)
                        rep = q if rep is None else P.mul(rep, q)
                        if e % 2:
                            rest.append((v, 1))
                    else:
                        rest.append((v, e))
                if rep is None:
                    s = out.get(m, 0) + c
                    if s:
                        out[m] = P.norm_coef(s)
                    else:
                        out.pop(m, None)
                else:
                    rest = tuple(rest)
                    for mm, cc in rep.items():
                        x = P.mul_mono(rest, mm)
                        s = out.get(x, 0) + c * cc
                        if s:
                            out[x] = P.norm_coef(s)
                        else:
                            out.pop(x, None)
            p = out
        return p

    def pmul(self, p, q):
        r = P.mul(p, q)
        if self.atom_def:
            r = self.reduce(r)
        return r

    # ---- denominators
    def factor(self, mon):
        k = P.key(mon)
        i = self.factor_ids.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(mon)
            self.factor_ids[k] = i
        return i

    def factorise(self, p):
        """p (non constant) -> (coefficient, {factor id: exp})."""
        c, m = P.monic(p)
        out = {}
        # monomial content
        if len(m) == 1:
            (mono, _), = m.items()
            for v, e in mono:
                out[self.factor(P.var(v))] = e
            return c, out
        k = P.key(m)
        if k in self.factor_ids:
            return c, {self.factor_ids[k]: 1}
        for i, f in enumerate(list(self.factors)):
            if len(f) > len(m) * 4 or len(m) > 400:
                continue
            while True:
                q = P.exact_div(m, f, 4000)
                if q is None or P.is_const(q):
                    break
                out[i] = out.get(i, 0) + 1
                m = q
        if P.is_const(m):
            return c * P.const_value(m), out
        c2, m = P.monic(m)
        r = P.poly_sqrt(m) if len(m) <= 60 else None
        if r is not None:
            i = self.factor(P.monic(r)[1])
            out[i] = out.get(i, 0) + 2
        else:
            i = self.factor(m)
            out[i] = out.get(i, 0) + 1
        return c * c2, out

    # ---- formulas to z3
    def zvar(self, v):
        z = self.z3vars.get(v)
        if z is None:
            z = self.z3vars[v] = self.z3.Real(f"v{v}")
        return z

    def zpoly(self, p):
        k = P.key(p)
        z = self.zcache.get(k)
        if z is not None:
            return z
        z3 = self.z3
        terms = []
        for m, c in p.items():
            fs = []
            for v, e in m:
                zv = self.zvar(v)
                fs.extend([zv] * e)
            if not fs:
                terms.append(z3.RealVal(str(c)))
                continue
            t = fs[0]
            for x in fs[1:]:
                t = t * x
            if c != 1:
                t = z3.RealVal(str(c)) * t
            terms.append(t)
        z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        self.zcache[k] = z
        return z

    def zform(self, f):
        z3 = self.z3
        t = f[0]
        if t == "t":
            return z3.BoolVal(True)
        if t == "f":
            return z3.BoolVal(False)
        if t == "a":
            e = self.zpoly(f[1])
            s = f[2]
            if s == S_GT:
                return e > 0
            if s == S_GE:
                return e >= 0
            if s == S_LT:
                return e < 0
            if s == S_LE:
                return e <= 0
            if s == S_EQ:
                return e == 0
            return e != 0
        if t == "and":
            return z3.And([self.zform(g) for g in f[1]])
        return z3.Or([self.zform(g) for g in f[1]])

    def atom_constraints(self, vs):
        """Definitions of the sqrt atoms among vs (closed under dependency)."""
        out = []
        todo = [v for v in vs if v in self.atom_def]
        seen = set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            kind, p = self.atom_def[v]
            if kind == "sqrt":
                z = self.zvar(v)
                out.append(z * z == self.zpoly(p))
                out.append(z >= 0)
            elif kind == "exp":
                out.append(self.zvar(v) > 0)
            vs |= P.variables(p)
            todo.extend(u for u in P.variables(p) if u in self.atom_def)
        return out

    def relevant_pc(self, vs):
        """Facts transitively sharing variables with vs."""
        vs = set(vs)
        pcs = [(f, f_vars(f, set())) for f in self.pc]
        chosen = [False] * len(pcs)
        changed = True
        while changed:
            changed = False
            for v in list(vs):
                if v in self.atom_def:
                    new = P.variables(self.atom_def[v][1]) - vs
                    if new:
                        vs |= new
                        changed = True
            for i, (f, fv) in enumerate(pcs):
                if not chosen[i] and fv & vs:
                    chosen[i] = True
                    if not fv <= vs:
                        vs |= fv
                    changed = True
        return [f for i, (f, _) in enumerate(pcs) if chosen[i]], vs

    def check(self, formulas, timeout, extra=(), want_model=False, tactic=None):
        """sat/unsat/unknown of the conjunction (definitions of atoms added)."""
        z3 = self.z3
        t0 = time.time()
        vs = set()
        for f in formulas:
            f_vars(f, vs)
        zs = [self.zform(f) for f in formulas]
        zs += self.atom_constraints(vs)
        zs += list(extra)
        if tactic == "smt":
            s = z3.Solver()
        else:
            s = z3.SolverFor("QF_NRA")
        if self.deadline is not None:
            left = max(0.5, self.deadline - time.time())
            timeout = min(timeout, int(left * 1000))
        s.set("timeout", int(timeout))
        s.add(*zs)
        r = s.check()
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", (s.model() if want_model else None)
        return "unknown", None

    # ---- evaluating formulas on samples
    def sample_sign(self, p, s):
        try:
            x = 0.0
            big = 0.0
            exact = True
            for m, c in p.items():
                t = float(c)
                for v, e in m:
                    sv = s[v]
                    if exact and not isinstance(sv, (int, Fraction)):
                        exact = False
                    t *= float(sv) ** e
                x += t
                if abs(t) > big:
                    big = abs(t)
        except OverflowError:
            return None
        if x != x:
            return None
        if abs(x) > 1e-7 * (big + 1e-12):
            return 1 if x > 0 else -1
        if exact:
            y = P.evaluate(p, lambda u: Fraction(s[u]))
            return (y > 0) - (y < 0)
        return None

    def sample_eval(self, f, s):
        t = f[0]
        if t == "t":
            return True
        if t == "f":
            return False
        if t == "a":
            g = self.sample_sign(f[1], s)
            return None if g is None else g in f[2]
        vals = [self.sample_eval(g, s) for g in f[1]]
        if t == "and":
            if any(v is False for v in vals):
                return False
            return None if any(v is None for v in vals) else True
        if any(v is True for v in vals):
            return True
        return None if any(v is None for v in vals) else False

    # ---- cheap sign reasoning
    def known_signs(self, m):
        """Allowed signs of monic poly m from recorded facts and monomial signs."""
        s = self.known.get(P.key(m), S_ALL)
        if len(s) == 1:
            return s
        if len(m) > 60:
            return s
        tot = None
        for mono, c in m.items():
            sg = frozenset((1,)) if c > 0 else frozenset((-1,))
            for v, e in mono:
                sv = self.known.get(frozenset({((v, 1),): 1}.items()), S_ALL)
                if v in self.atom_def and self.atom_def[v][0] in ("sqrt", "exp"):
                    sv = sv & (S_GE if self.atom_def[v][0] == "sqrt" else S_GT)
                if e % 2 == 0:
                    sv = frozenset(abs(x) for x in sv)
                sg = frozenset(a * b for a in sg for b in sv)
            if tot is None:
                tot = sg
            else:
                if 1 in tot and -1 in sg or -1 in tot and 1 in sg:
                    tot = S_ALL
                    break
                # both in >=0 or both in <=0
                has0 = 0 in tot and 0 in sg
                rest = (tot | sg) - {0}
                tot = frozenset(rest | ({0} if has0 else set()))
                if not tot:
                    tot = S_EQ
            if len(tot) == 3:
                break
        if tot is not None:
            s = s & tot
        return s

    def simp(self, f):
        t = f[0]
        if t == "a":
            k = self.known_signs(f[1])
            if k <= f[2]:
                return TRUE
            if not k & f[2]:
                return FALSE
            return f
        if t == "and":
            return f_and([self.simp(g) for g in f[1]])
        if t == "or":
            return f_or([self.simp(g) for g in f[1]])
        return f

    def add_fact(self, f):
        self.pc.append(f)
        for i, s in enumerate(self.samples):
            if s is not None and self.sample_eval(f, s) is not True:
                self.samples[i] = None
        fs = f[1] if f[0] == "and" else [f]
        for g in fs:
            if g[0] == "a":
                k = P.key(g[1])
                self.known[k] = self.known.get(k, S_ALL) & g[2]

    def record(self, value, forked, f):
        self.trace.append(value)
        self.decisions += 1 if forked else 0
        self.add_fact(f if value else f_not(f))

    def out_of_time(self):
        return self.deadline is not None and time.time() > self.deadline

    def decide(self, f):
        f = self.simp(f)
        if f[0] == "t":
            return True
        if f[0] == "f":
            return False
        if self.out_of_time():
            raise Inconclusive("time budget exceeded")
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add_fact(f if v else f_not(f))
            return v
        can = {True: None, False: None}
        for s in self.samples:
            if s is None:
                continue
            r = self.sample_eval(f, s)
            if r is not None:
                can[r] = True
        for d in (True, False):
            if can[d] is None:
                g = f if d else f_not(f)
                vs = f_vars(g, set())
                rel, _ = self.relevant_pc(vs)
                self.branch_queries += 1
                r, _ = self.check(rel + [g], self.branch_timeout)
                can[d] = r != "unsat"
        if can[True] and can[False]:
            first = True
            # prefer a direction that keeps samples alive
            t_alive = any(s is not None and self.sample_eval(f, s) is True for s in self.samples)
            if not t_alive:
                first = False
            self.pending.append(self.trace[:] + [not first])
            self.record(first, True, f)
            return first
        if can[True]:
            self.record(True, False, f)
            return True
        if can[False]:
            self.record(False, False, f)
            return False
        raise PathAbort()

    def assume(self, f):
        f = self.simp(f)
        if f[0] == "t":
            return
        if f[0] == "f":
            raise PathAbort()
        self.add_fact(f)
        if all(s is None for s in self.samples):
            rel, _ = self.relevant_pc(f_vars(f, set()))
            self.branch_queries += 1
            r, model = self.check(rel, self.branch_timeout, want_model=True)
            if r == "unsat":
                raise PathAbort()
            if r == "sat":
                self.revive(model)

    def revive(self, model):
        """Add a sample built from a z3 model (exact where rational)."""
        s = {}
        for v in range(len(self.var_names)):
            if v in self.atom_def:
                self.sample_atom(s, v)
                continue
            x = self.model_value(model, v)
            s[v] = self.var_hint[v] if x is None else x
        if all(self.sample_eval(f, s) is True for f in self.pc):
            self.samples[0] = s

    def model_value(self, model, v):
        z3 = self.z3
        if v not in self.z3vars:
            return None
        val = model.eval(self.z3vars[v])
        if z3.is_rational_value(val):
            return Fraction(val.numerator_as_long(), val.denominator_as_long())
        if z3.is_algebraic_value(val):
            a = val.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return None

    # ---- obligations
    def confirm_identity(self, pairs):
        """Pairs of terms that the encoder found identical: let z3 decide n1*D2 != n2*D1 on the
        unexpanded cross products (independent of the encoder's own normalisation)."""
        z3 = self.z3

        def prod(d):
            t = z3.RealVal(1)
            for i, e in d:
                for _ in range(e):
                    t = t * self.zpoly(self.factors[i])
            return t

        def num(p):
            return self.zpoly(p) if p else z3.RealVal(0)

        vs = set()
        dis = []
        for a, b in pairs:
            da, db = dict(a.d), dict(b.d)
            ra = [(i, e - min(e, da.get(i, 0))) for i, e in b.d]
            rb = [(i, e - min(e, db.get(i, 0))) for i, e in a.d]
            dis.append(num(a.n) * prod(ra) != num(b.n) * prod(rb))
            vs |= P.variables(a.n) | P.variables(b.n)
            for i, _ in a.d + b.d:
                vs |= P.variables(self.factors[i])
        t0 = time.time()
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 5000)
        s.add(*self.atom_constraints(vs))
        s.add(z3.Or(dis) if len(dis) > 1 else dis[0])
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        if r == z3.sat:
            raise Inconclusive("encoder identity refuted by solver (encoding error)")
        if r == z3.unsat:
            self.cross_confirmed += len(pairs)
        else:
            self.cross_unknown += len(pairs)

    def prove(self, f, label, detail=None):
        """Discharge PC -> f.  On failure record a candidate counterexample."""
        self.obligations += 1
        self.queries += 1
        neg = f_not(f)
        if neg[0] == "f":
            # identical after encoding: still put to the solver (trivial query)
            self.identity_queries += 1
            r, _ = self.check([neg], self.query_timeout)
            if r != "unsat":
                raise Inconclusive("trivial query not unsat")
            return True
        neg_s = self.simp(neg)
        if neg_s[0] == "f":
            rel, _ = self.relevant_pc(f_vars(neg, set()))
            r, _ = self.check(rel + [neg], self.query_timeout)
            if r == "unsat":
                return True
        # 1. quick guess from samples (confirmed by the solver with inputs fixed)
        for s in self.samples:
            if s is not None and self.sample_eval(neg, s) is True:
                if self.confirm(neg, s):
                    self.candidate(label, s, detail)
                    return False
        # 2. without the path condition
        r, _ = self.check([neg], min(3000, self.query_timeout))
        if r == "unsat":
            return True
        rel, vs = self.relevant_pc(f_vars(neg, set()))
        r, model = self.check(rel + [neg], self.query_timeout, want_model=True)
        if r == "unknown":
            r, model = self.check(rel + [neg], self.query_timeout, want_model=True, tactic="smt")
        if r == "unsat":
            return True
        if r == "sat":
            s = self.full_model(neg, vs, model)
            self.candidate(label, s, detail)
            return False
        self.unknown.append(label)
        return None

    def confirm(self, neg, s):
        rel, vs = self.relevant_pc(f_vars(neg, set()))
        fix = []
        for v in vs:
            if v in self.atom_def:
                continue
            fix.append(self.zvar(v) == self.z3.RealVal(str(Fraction(s[v]))))
        r, _ = self.check(rel + [neg], self.query_timeout, extra=fix)
        return r == "sat"

    def full_model(self, neg, vs, model):
        """Prefer a 'nice' model: bounded inputs."""
        z3 = self.z3
        base, _ = self.relevant_pc(vs)
        for bound, frac in ((4, None), (64, None)):
            extra = []
            for v in vs:
                if v not in self.atom_def:
                    extra += [self.zvar(v) <= bound, self.zvar(v) >= -bound]
            r, m2 = self.check(base + [neg], 5000, extra=extra, want_model=True)
            if r == "sat":
                model = m2
                break
        s = {}
        alive = [x for x in self.samples if x is not None]
        for v in range(len(self.var_names)):
            if v in self.atom_def:
                self.sample_atom(s, v)
                continue
            x = self.model_value(model, v) if v in vs else None
            if x is None:
                x = alive[0][v] if alive and v in alive[0] else self.var_hint[v]
            s[v] = x
        # variables outside vs must still satisfy the rest of the path condition
        if any(self.sample_eval(f, s) is False for f in self.pc):
            r, m3 = self.check(self.pc + [neg], self.query_timeout, want_model=True)
            if r == "sat":
                s = {}
                for v in range(len(self.var_names)):
                    if v in self.atom_def:
                        self.sample_atom(s, v)
                        continue
                    x = self.model_value(m3, v)
                    s[v] = self.var_hint[v] if x is None else x
        _ = z3
        return s

    def candidate(self, label, s, detail=None):
        self.candidates.append(
            {
                "label": label,
                "model": self.export(s),
                "detail": detail,
                "path": list(self.trace),
            }
        )

    def export(self, s):
        return {
            self.var_names[v]: str(Fraction(s[v]))
            for v in range(len(self.var_names))
            if v not in self.atom_def and v in s
        }

    def path_model(self):
        """A model of the current path condition or None."""
        for s in self.samples:
            if s is not None and all(self.sample_eval(f, s) is True for f in self.pc):
                return s
        r, model = self.check(self.pc, self.query_timeout, want_model=True)
        if r != "sat":
            return None
        s = {}
        for v in range(len(self.var_names)):
            if v in self.atom_def:
                self.sample_atom(s, v)
                continue
            x = self.model_value(model, v)
            s[v] = self.var_hint[v] if x is None else x
        return s

    # ---- exploration
    def explore(self, fn, on_path_end=None, on_exception=None, stop_after=1):
        global CUR
        CUR = self
        self.pending = []
        todo = [[]]
        while todo:
            if self.out_of_time():
                raise Inconclusive("time budget exceeded")
            prefix = todo.pop()
            self.reset_path(prefix)
            self.pending = []
            self.paths += 1
            if self.paths > self.max_paths:
                raise Inconclusive(f"more than {self.max_paths} paths")
            try:
                fn()
                if on_path_end is not None:
                    on_path_end()
            except PathAbort:
                self.aborted += 1
            except (Unsupported, Inconclusive, Stop):
                raise
            except Exception as e:  # raised by the code under test
                if isinstance(e, self.z3.Z3Exception):
                    raise Inconclusive(f"z3: {e}") from e
                if on_exception is None:
                    raise
                on_exception(e)
            todo.extend(self.pending)
            if len(self.candidates) >= stop_after:
                return


CUR: Engine = None  # current engine


# ------------------------------------------------------------------------- terms


def lift(x):
    if isinstance(x, SReal):
        return x
    if isinstance(x, bool):
        return SReal(P.const(int(x)), ())
    if isinstance(x, SBool):
        return SReal(P.const(1 if bool(x) else 0), ())
    if isinstance(x, (int, Fraction)):
        return SReal(P.const(x), ())
    if isinstance(x, float):
        return SReal(P.const(snap(x)), ())
    try:
        import numpy as np

        if isinstance(x, np.generic):
            return lift(x.item())
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return lift(x.item())
    except ImportError:
        pass
    return None


def merge_den(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    d = dict(d1)
    for i, e in d2:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def cancel(n, d):
    """Cancel factors of d dividing n exactly."""
    if not d:
        return n, d
    if not n:
        return n, ()
    if len(n) > 600:
        return n, d
    out = []
    changed = False
    for i, e in d:
        f = CUR.factors[i]
        while e:
            q = P.exact_div(n, f, 6000)
            if q is None:
                break
            n = q
            e -= 1
            changed = True
        if e:
            out.append((i, e))
    return n, (tuple(out) if changed else d)


class SReal:
    __slots__ = ("n", "d")
    __array_priority__ = 0

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # -- helpers
    @property
    def is_const(self):
        return not self.d and P.is_const(self.n)

    def const(self):
        return P.const_value(self.n)

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not o.n:
            return self
        if not self.n:
            return o
        d1, d2 = self.d, o.d
        if d1 == d2:
            n = P.add(self.n, o.n)
            if d1:
                n, d1 = cancel(n, d1)
            return SReal(n, d1)
        a, b = dict(d1), dict(d2)
        l = dict(a)
        for i, e in b.items():
            if l.get(i, 0) < e:
                l[i] = e
        n1, n2 = self.n, o.n
        for i, e in l.items():
            k = e - a.get(i, 0)
            if k:
                n1 = CUR.pmul(n1, P.power(CUR.factors[i], k))
            k = e - b.get(i, 0)
            if k:
                n2 = CUR.pmul(n2, P.power(CUR.factors[i], k))
        n = P.add(n1, n2)
        d = tuple(sorted(l.items()))
        n, d = cancel(n, d)
        return SReal(n, d)

    __radd__ = __add__

    def __neg__(self):
        return SReal(P.neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + SReal(P.neg(o.n), o.d)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not self.n or not o.n:
            return SReal({}, ())
        n1, d2 = (self.n, o.d) if not o.d else cancel(self.n, o.d)
        n2, d1 = (o.n, self.d) if not self.d else cancel(o.n, self.d)
        return SReal(CUR.pmul(n1, n2), merge_den(d1, d2))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if o.is_const:
            c = o.const()
            if c == 0:
                raise ZeroDivisionError("division by zero")
            return SReal(P.scale(self.n, Fraction(1) / c), self.d)
        if CUR.decide(atom(o.n, S_EQ)):
            raise ZeroDivisionError("division by zero (symbolic)")
        # rationalise a lone sqrt atom in the denominator numerator
        if len(o.n) == 1:
            (mono, c), = o.n.items()
            for v, e in mono:
                if v in CUR.atom_def and CUR.atom_def[v][0] == "sqrt" and e == 1:
                    s = SReal(P.var(v), ())
                    return (self * s) / (o * s)
        c, fs = CUR.factorise(o.n)
        num = SReal(P.scale(self.n, Fraction(1) / c), self.d)
        if o.d:
            # multiply by o's denominator
            m = {P.ONE: 1}
            for i, e in o.d:
                m = CUR.pmul(m, P.power(CUR.factors[i], e))
            num = num * SReal(m, ())
        d = tuple(sorted(fs.items()))
        n, d = cancel(num.n, d)
        return SReal(n, merge_den(num.d, d))

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, k, mod=None):
        if isinstance(k, SReal):
            if not k.is_const:
                raise Unsupported("symbolic exponent")
            k = k.const()
        if hasattr(k, "item"):
            k = k.item()
        if isinstance(k, float):
            k = snap(k)
        if isinstance(k, Fraction):
            if k.denominator == 1:
                k = int(k)
            elif k.denominator == 2:
                r = self.sqrt()
                return r ** int(k.numerator)
            else:
                raise Unsupported(f"exponent {k}")
        if k < 0:
            return 1 / (self ** (-k))
        if k == 0:
            return SReal(P.const(1), ())
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    def __rpow__(self, o):
        if self.is_const:
            return lift(o) ** self.const()
        raise Unsupported("symbolic exponent")

    def __floordiv__(self, o):
        q = self / o
        return q.floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        o = lift(o)
        return self - (self // o) * o

    def __rmod__(self, o):
        return lift(o) % self

    # -- comparisons
    def sign_poly(self):
        p = self.n
        for i, e in self.d:
            if e % 2:
                f = CUR.factors[i]
                k = CUR.known_signs(f) - {0}
                if k == S_GT:
                    continue
                if k == S_LT:
                    p = P.neg(p)
                    continue
                p = CUR.pmul(p, f)
        return p

    def rel(self, o, signs):
        o2 = lift(o)
        if o2 is None:
            return None
        df = self - o2
        if signs in (S_EQ, S_NE):
            return SBool(atom(df.n, signs))
        return SBool(atom(df.sign_poly(), signs))

    def __lt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return SBool(TRUE if o > 0 else FALSE)
        r = self.rel(o, S_LT)
        return NotImplemented if r is None else r

    def __le__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return SBool(TRUE if o > 0 else FALSE)
        r = self.rel(o, S_LE)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return SBool(FALSE if o > 0 else TRUE)
        r = self.rel(o, S_GT)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return SBool(FALSE if o > 0 else TRUE)
        r = self.rel(o, S_GE)
        return NotImplemented if r is None else r

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, float) and not math.isfinite(o):
            return SBool(FALSE)
        r = self.rel(o, S_EQ)
        return NotImplemented if r is None else r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        if isinstance(o, float) and not math.isfinite(o):
            return SBool(TRUE)
        r = self.rel(o, S_NE)
        return NotImplemented if r is None else r

    def __hash__(self):
        if self.is_const:
            return hash(Fraction(self.const()))
        return 7

    def __bool__(self):
        return bool(self != 0)

    # -- functions
    def __abs__(self):
        if self.is_const:
            return SReal(P.const(abs(self.const())), ())
        # |sqrt atom * const| etc.
        if bool(self < 0):
            return -self
        return self

    fabs = absolute = __abs__

    def sqrt(self):
        p = self.n
        out = SReal(P.const(1), ())
        for i, e in self.d:
            f = SReal(CUR.factors[i], ())
            if e % 2:
                p = CUR.pmul(p, CUR.factors[i])
            h = (e + 1) // 2
            g = abs(f) if h % 2 else f
            out = out * g**h
        r = sqrt_poly(p)
        if out.is_const and out.const() == 1:
            return r
        return r / out

    def uf(self, kind):
        if self.d:
            p = None
            key = (kind, P.key(self.n), self.d)
        else:
            p = self.n
            key = (kind, P.key(self.n), ())
        v = CUR.atom_memo.get(key)
        if v is None:
            if p is None:
                raise Unsupported(f"{kind} of a rational term")
            v = CUR.fresh_atom(kind, p, key)
        return SReal(P.var(v), ())

    def exp(self):
        if self.is_const and self.const() == 0:
            return SReal(P.const(1), ())
        return self.uf("exp")

    def log(self):
        if self.is_const and self.const() == 1:
            return SReal({}, ())
        return self.uf("log")

    def sin(self):
        if self.is_const and self.const() == 0:
            return SReal({}, ())
        return self.uf("sin")

    def cos(self):
        if self.is_const and self.const() == 0:
            return SReal(P.const(1), ())
        return self.uf("cos")

    def square(self):
        return self * self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SReal({}, ())

    def floor(self):
        if self.is_const:
            return SReal(P.const(math.floor(self.const())), ())
        return SReal(P.const(int_fork(self, "floor")), ())

    def ceil(self):
        if self.is_const:
            return SReal(P.const(math.ceil(self.const())), ())
        return SReal(P.const(int_fork(self, "ceil")), ())

    def rint(self):
        return (self + Fraction(1, 2)).floor()

    def __floor__(self):
        return int(self.floor().const())

    def __ceil__(self):
        return int(self.ceil().const())

    def __trunc__(self):
        if bool(self >= 0):
            return int(self.floor().const())
        return int(self.ceil().const())

    def __int__(self):
        return self.__trunc__()

    def __index__(self):
        if self.is_const and Fraction(self.const()).denominator == 1:
            return int(self.const())
        raise TypeError("symbolic real used as an index")

    def __round__(self, k=None):
        if k is None:
            return int(self.rint().const())
        m = 10**k
        return (self * m).rint() / m

    def is_integer(self):
        return bool(self == self.floor())

    def item(self):
        return self

    def __float__(self):
        if self.is_const:
            return float(self.const())
        raise Unsupported("symbolic value forced to float")

    def __format__(self, spec):
        if self.is_const:
            return format(float(self.const()), spec)
        return "<sym>"

    def __repr__(self):
        if self.is_const:
            return f"S({self.const()})"
        return f"S<{len(self.n)}t/{self.d}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (SReal, (self.n, self.d))


Number.register(SReal)


def int_fork(x, kind):
    """floor/ceil of a symbolic real: fork over the integers (bounded search from 0)."""
    for k in range(0, 64):
        for c in (k, -k) if k else (0,):
            if kind == "floor":
                cond = SBool(f_and([(x >= c).f, (x < c + 1).f]))
            else:
                cond = SBool(f_and([(x > c - 1).f, (x <= c).f]))
            if bool(cond):
                return c
    raise Inconclusive("integer part outside bound")


def square_part(n):
    """largest s with s*s | n (small trial)."""
    s = 1
    f = 2
    while f * f <= n and f < 1000:
        while n % (f * f) == 0:
            n //= f * f
            s *= f
        f += 1
    r = P.isqrt(n)
    if r * r == n:
        s *= r
    return s


def sqrt_poly(p):
    """Square root of a polynomial as an SReal (fresh atom s>=0, s*s=p)."""
    if not p:
        return SReal({}, ())
    if P.is_const(p):
        c = P.const_value(p)
        if c < 0:
            raise FloatingPointError("sqrt of a negative number")
        r = P.rat_sqrt(c)
        if r is not None:
            return SReal(P.const(r), ())
    r = P.poly_sqrt(p)
    if r is not None and not P.is_const(r):
        return abs(SReal(r, ()))
    if not P.is_const(p) and not P.psd_quadratic(p):
        if CUR.decide(atom(p, S_LT)):
            raise FloatingPointError("sqrt of a negative number")
    c = P.content_square(p)
    s = Fraction(square_part(c.numerator), square_part(c.denominator))
    mul = SReal(P.const(s), ())
    if s != 1:
        p = P.scale(p, 1 / (s * s))
    # common even monomial
    if len(p) >= 1:
        it = iter(p)
        g = dict(next(it))
        for m in it:
            dm = dict(m)
            g = {v: min(e, dm.get(v, 0)) for v, e in g.items() if dm.get(v, 0)}
            if not g:
                break
        g = {v: e - e % 2 for v, e in g.items() if e >= 2}
        if g:
            mono = tuple(sorted(g.items()))
            p = {P.div_mono(m, mono): c for m, c in p.items()}
            for v, e in g.items():
                x = SReal(P.var(v), ())
                x = x ** (e // 2)
                mul = mul * (abs(x) if (e // 2) % 2 else x)
    if P.is_const(p):
        r = P.rat_sqrt(P.const_value(p))
        if r is not None:
            return mul * SReal(P.const(r), ())
    key = ("sqrt", P.key(p))
    v = CUR.atom_memo.get(key)
    if v is None:
        v = CUR.fresh_atom("sqrt", p, key)
    return mul * SReal(P.var(v), ())


class SBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if self.f[0] == "t":
            return True
        if self.f[0] == "f":
            return False
        return CUR.decide(self.f)

    def __and__(self, o):
        return SBool(f_and([self.f, as_formula(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(f_or([self.f, as_formula(o)]))

    __ror__ = __or__

    def __invert__(self):
        return SBool(f_not(self.f))

    def logical_not(self):
        return SBool(f_not(self.f))

    def __xor__(self, o):
        g = as_formula(o)
        return SBool(f_or([f_and([self.f, f_not(g)]), f_and([f_not(self.f), g])]))

    def __eq__(self, o):
        return ~(self ^ o)

    def __ne__(self, o):
        return self ^ o

    def __hash__(self):
        return 11

    # arithmetic on a boolean: decide it
    def _i(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __int__(self):
        return self._i()

    def __index__(self):
        return self._i()

    def __float__(self):
        return float(self._i())

    def __repr__(self):
        return f"SBool({self.f[0]})"


def as_formula(x):
    if isinstance(x, SBool):
        return x.f
    if isinstance(x, SReal):
        return (x != 0).f
    return TRUE if bool(x) else FALSE
