"""Deciding side conditions and discharging obligations.

Back ends: the polynomial normal form of terms.py (ring identities over field
terms with sqrt/sin/cos/abs relations) and z3 for arithmetic entailments."""
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from fractions import Fraction  # noqa: E402
from terms import *  # noqa: E402,F401,F403
import terms as T  # noqa: E402

STATS = {"z3_calls": 0, "z3_time": 0.0, "normal_form": 0, "z3": 0, "splits": 0}
EXTRA_AXIOMS = []  # callables: (list of atoms) -> list of B facts


class Tr:
    """Translation to z3."""

    def __init__(self, nonlinear):
        self.nl = nonlinear
        self.c = {}
        self.ax = []
        self.mono = {}
        self.work = []

    def p(self, x):
        r = self.c.get(x)
        if r is not None:
            return r
        ts = []
        real = not x.is_int
        for m, c in x.t.items():
            ts.append(self.monomial(m, c, real))
        if not ts:
            r = z3.IntVal(0)
        elif len(ts) == 1:
            r = ts[0]
        else:
            r = z3.Sum(ts)
        self.c[x] = r
        return r

    def coef(self, c, real):
        if real:
            return z3.RealVal(str(c))
        return z3.IntVal(int(c))

    def toreal(self, e, real):
        if real and e.sort() == z3.IntSort():
            return z3.ToReal(e)
        return e

    def monomial(self, m, c, real):
        if not m:
            return self.coef(c, real)
        if len(m) == 1 and m[0][1] == 1:
            e = self.toreal(self.atom(m[0][0]), real)
            return e if c == 1 else self.coef(c, real) * e
        if self.nl:
            e = None
            for a, k in m:
                z = self.toreal(self.atom(a), real)
                if k < 0:
                    z = self.recip(a)
                    k = -k
                for _ in range(k):
                    e = z if e is None else e * z
            return e if c == 1 else self.coef(c, real) * e
        e = self.mono.get(m)
        if e is None:
            isint = all(a.sort == "int" and k > 0 for a, k in m)
            nm = "m!%d" % len(self.mono)
            e = z3.Int(nm) if isint else z3.Real(nm)
            self.mono[m] = e
            # sign information
            mp = T.mk_p({m: Fraction(1)})
            if nonneg_syntactic(mp):
                self.ax.append(e >= 0)
            if isint and all(T._posatom(a) for a, k in m):
                for a, k in m:
                    self.ax.append(e >= self.atom(a))
            self.work.append(m)
        e = self.toreal(e, real)
        return e if c == 1 else self.coef(c, real) * e

    def recip(self, a):
        key = ("recip", a)
        e = self.c.get(key)
        if e is None:
            e = z3.Real("r!%d" % a.id)
            self.c[key] = e
            z = self.toreal(self.atom(a), True)
            self.ax.append(z3.Implies(z != 0, e * z == 1))
        return e

    def atom(self, a):
        e = self.c.get(a)
        if e is not None:
            return e
        op = a.op
        if op == "ite":
            e = z3.If(self.b(a.args[0]), *self.same(self.p(a.args[1]), self.p(a.args[2])))
            self.c[a] = e
            return e
        nm = "%s!a%d" % (op, a.id)
        e = z3.Int(nm) if a.sort == "int" else z3.Real(nm)
        self.c[a] = e
        ax = self.ax
        if op == "var":
            if isinstance(a.args[1], P):
                ax.append(e >= self.p(a.args[1]))
            if isinstance(a.args[2], P):
                ax.append(e < self.p(a.args[2]))
        elif op == "app":
            if a.args[0] in T.POS_APPS:
                ax.append(e >= 1 if a.sort == "int" else e > 0)
            elif a.args[0] in T.NONNEG_APPS:
                ax.append(e >= 0)
        elif op == "pi":
            ax.append(e > z3.RealVal("3.14159265"))
            ax.append(e < z3.RealVal("3.14159266"))
        elif op == "eps":
            ax.append(e > 0)
            ax.append(e < z3.RealVal("0.000000000001"))
        elif op == "sqrt":
            ax.append(e >= 0)
            arg = self.toreal(self.p(a.args[0]), True)
            if self.nl:
                ax.append(z3.Implies(arg >= 0, e * e == arg))
            ax.append(z3.Implies(arg > 0, e > 0))
            ax.append(z3.Implies(arg == 0, e == 0))
        elif op == "abs":
            arg = self.p(a.args[0])
            e1, arg = self.same(e, arg)
            ax.append(e1 == z3.If(arg >= 0, arg, -arg))
        elif op in ("sin", "cos"):
            ax.append(e <= 1)
            ax.append(e >= -1)
            if self.nl and op == "sin":
                c = self.atom(mk_atom("cos", a.args))
                ax.append(e * e + c * c == 1)
        elif op == "floor":
            arg = self.toreal(self.p(a.args[0]), True)
            ax.append(z3.ToReal(e) <= arg)
            ax.append(arg < z3.ToReal(e) + 1)
        elif op == "box":
            arg = self.toreal(self.p(a.args[0]), True)
            ax.append(e == arg)
        elif op == "den":
            if self.nl:
                arg = self.toreal(self.p(a.args[0]), True)
                ax.append(e == arg)
        elif op == "mod":
            ax.append(e >= 0)
            s1, e1 = self.same(self.p(a.args[1]), e)
            ax.append(z3.Implies(s1 > 0, e1 < s1))
        elif op == "fdiv":
            x, s = a.args
            xz, sz = self.p(x), self.p(s)
            ax.append(z3.Implies(z3.And(xz >= 0, sz > 0), e >= 0))
            ax.append(z3.Implies(z3.And(xz >= 0, sz > 0), e <= xz))
            # x < n*s  ->  x//s < n for monomial multiples n seen in facts
            r = ap(mk_atom("mod", (x, s), "int")) if x.is_int and s.is_int else None
            if r is not None:
                lhs = ap(a) * s
                ax.append(self.p(x) == self.p(lhs) + self.p(r))
        elif op == "segk":
            fn, q = a.args
            ax.append(e >= 0)
            rng = z3.And(self.p(q) >= 0, self.p(q) < self.p(T._ps_term(fn, fn[2])))
            ax.append(z3.Implies(rng, e < self.p(fn[2])))
            if not open_bvs(a):
                lo = T._ps_term(fn, ap(a))
                ax.append(z3.Implies(rng, z3.And(self.p(lo) <= self.p(q), self.p(q) < self.p(lo) + self.p(T.apply_fn(fn, ap(a))))))
        elif op == "segm":
            fn, q = a.args
            ax.append(e >= 0)
            k = segk(fn, q)
            d = T.apply_fn(fn, k)
            ax.append(z3.Implies(z3.And(self.p(q) >= 0, self.p(q) < self.p(T._ps_term(fn, fn[2]))), e < self.p(d)))
        elif op == "sum":
            if nonneg_syntactic(a.args[1]) or posint_body(a.args[1]):
                ax.append(z3.Implies(self.p(a.args[0]) >= 0, e >= 0))
                if posint_body(a.args[1]):
                    ax.append(z3.Implies(self.p(a.args[0]) >= 0, e >= self.p(a.args[0])))
        return e

    def same(self, x, y):
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        return x, y

    def b(self, b):
        r = self.c.get(b)
        if r is not None:
            return r
        op = b.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "eq":
            r = self.p(b.args[0]) == 0
        elif op == "le":
            r = self.p(b.args[0]) <= 0
        elif op == "lt":
            r = self.p(b.args[0]) < 0
        elif op == "not":
            r = z3.Not(self.b(b.args[0]))
        elif op == "and":
            r = z3.And([self.b(x) for x in b.args])
        elif op == "or":
            r = z3.Or([self.b(x) for x in b.args])
        elif op == "forall":
            r = z3.Bool("q!%d" % b.id)
        else:
            r = z3.Bool("p!%d" % b.id)
        self.c[b] = r
        return r


def posint_body(p):
    """Every value of the body is a positive integer."""
    if not p.t:
        return False
    for m, c in p.t.items():
        if c < 1:
            return False
        for a, e in m:
            if e < 0 or a.sort != "int" or not (T._posatom(a)):
                return False
    return True


_dec_cache = {}


def relevant(facts, goal):
    """Facts sharing atoms (transitively) with the goal."""
    base = set(x for x in free_atoms(goal))
    todo = [(f, free_atoms(f)) for f in facts]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f, fa in todo:
            if not fa or not base.isdisjoint(fa):
                out.append(f)
                n0 = len(base)
                base |= fa
                changed = True
            else:
                rest.append((f, fa))
        todo = rest
    return out


def fdiv_lemmas(facts):
    """For a literal L ? 0 on integers mentioning x // S linearly: the same
    comparison multiplied by S (S >= 1)."""
    out = []
    seen = set()

    def lits(f):
        if f.op in ("and", "or"):
            for x in f.args:
                yield from lits(x)
        elif f.op == "not":
            yield from lits(f.args[0])
        elif f.op in ("eq", "le", "lt"):
            yield f.args[0]

    for f in facts:
        for L in lits(f):
            if L in seen or not L.is_int:
                continue
            seen.add(L)
            for m, c in L.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fdiv":
                    S = m[0][0].args[1]
                    if S.is_int and S.const() is None and posint_body(S):
                        SL = mul(S, L)
                        out.append(implies(eq(L, ZERO), eq(SL, ZERO)))
                        out.append(implies(le(L, num(-1)), le(SL, -S)))
                        out.append(implies(ge(L, num(1)), ge(SL, S)))
    return out


def check_sat(facts, nonlinear=False, timeout=300, want_model=False):
    facts = list(facts)
    facts += fdiv_lemmas(facts)
    tr = Tr(nonlinear)
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in facts:
        s.add(tr.b(f))
    for f in EXTRA_AXIOMS:
        for b in f(list(k for k in tr.c if isinstance(k, Atom))):
            s.add(tr.b(b))
    n = 0
    while n < len(tr.ax):
        k = len(tr.ax)
        for a in tr.ax[n:k]:
            s.add(a)
        n = k
    t0 = time.time()
    r = s.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if want_model:
        return r, (s.model() if r == z3.sat else None), tr
    return r


def entails(facts, goal, nonlinear=False, timeout=300):
    """True if facts => goal is proved; False otherwise (unknown)."""
    if goal is TRUE:
        return True
    facts = tuple(facts)
    if goal in facts:
        return True
    if goal is FALSE:
        g = FALSE
    key = (frozenset(facts), goal, nonlinear)
    r = _dec_cache.get(key)
    if r is not None:
        return r
    if goal.op == "and":
        r = all(entails(facts, x, nonlinear, timeout) for x in goal.args)
    elif goal.op in ("lt", "le") and struct_lt(facts, goal):
        r = True
    elif goal.op == "forall":
        n, body, k = goal.args
        if goal in facts:
            r = True
        else:
            v = fresh("u", "int", ZERO, n)
            b2 = subst(body, {mk_atom("bv", (k,), "int"): v})
            r = entails(facts + tuple(inst_foralls(facts, b2)), b2, nonlinear, timeout)
    else:
        fs = relevant(facts, goal) if goal is not FALSE else list(facts)
        r = check_sat(list(fs) + [not_(goal)], nonlinear, timeout) == z3.unsat
        if not r and any(f.op == "forall" for f in facts):
            ex = inst_foralls(facts, goal)
            if ex:
                r = check_sat(list(fs) + ex + [not_(goal)], nonlinear, timeout) == z3.unsat
    _dec_cache[key] = r
    return r


def inst_foralls(facts, goal):
    """Instantiate quantified facts at the integer terms of the goal."""
    out = []
    cands = []
    for a in sorted(free_atoms(goal)):
        if a.sort == "int" and not open_bvs(a):
            cands.append(ap(a))
    for f in facts:
        if f.op == "forall":
            n, body, k = f.args
            for c in cands[:12]:
                out.append(
                    implies(
                        and_(ge(c, ZERO), lt(c, n)),
                        subst(body, {mk_atom("bv", (k,), "int"): c}),
                    )
                )
    return out


def decide(facts, b):
    """True / False / None for a condition under facts."""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if b in facts:
        return True
    nb = not_(b)
    if nb in facts:
        return False
    if entails(facts, b):
        return True
    if entails(facts, nb):
        return False
    return None


class RangeCtx:
    """Installs a range decision procedure using path facts."""

    def __init__(self):
        self.stack = [()]

    def facts(self):
        return self.stack[-1]


RANGE = RangeCtx()
_range_busy = [0]


def _range(r, s):
    if T.default_in_range(r, s):
        return True
    if r.as_int() is not None and s.as_int() is not None:
        return False
    if struct_range(r, s):
        return True
    if _range_busy[0] > 2:
        return False
    if any(a.op == "bv" for a in free_atoms(r) | free_atoms(s)):
        # open binder: no context
        return False
    _range_busy[0] += 1
    try:
        f = RANGE.facts()
        return entails(f, and_(ge(r, ZERO), lt(r, s)), timeout=200)
    finally:
        _range_busy[0] -= 1


_sl_busy = [0]


def struct_lt(facts, goal):
    """r - c*Sum(n, body) < 0 by the range rules for prefix sums"""
    p = goal.args[0]
    if not p.is_int or _sl_busy[0] > 1:
        return False
    if goal.op == "le":
        p = p - T.ONE
    _sl_busy[0] += 1
    try:
        for m, c in p.t.items():
            if c < 0 and any(a.op == "sum" and e == 1 for a, e in m) and all(e > 0 for a, e in m):
                s = T.mk_p({m: -c})
                r = p + s
                if not any(a.op == "sum" for m2 in r.t for a, _ in m2) and any(c2 < 0 for c2 in r.t.values()):
                    continue
                with with_facts(facts):
                    if struct_range(r, s):
                        return True
    finally:
        _sl_busy[0] -= 1
    return False


def struct_range(r, s):
    """r = c*Sum(i, body) + r',  s = c*Sum(n, body): 0<=i<n and 0<=r'<c*body(i)
    and the product form r = i*S + r', s = M*S."""
    if len(s.t) == 1:
        ((m, c),) = s.t.items()
        for a, e in m:
            if a.op == "sum" and e == 1:
                n, body, k = a.args
                rest = mul(s, inv(ap(a)))
                # look for sum atoms with the same body in r
                cands = [ZERO]
                for m2 in r.t:
                    for a2, e2 in m2:
                        if a2.op == "sum" and e2 == 1 and a2.args[1] is body:
                            cands.append(a2.args[0])
                for i in cands[::-1]:
                    rem = r - rest * sum_raw(i, body, k)
                    if not any(
                        a2.op == "sum" and a2.args[1] is body
                        for m2 in rem.t
                        for a2, _ in m2
                    ) or not i.t:
                        bi = subst(body, {mk_atom("bv", (k,), "int"): i})
                        if _range(i, n) and _range(rem, rest * bi):
                            return True
        # product form: for each factor S of s:  r = q*S + r', q in [0, s/S), r' in [0,S)
        if len(m) >= 2 or (m and c > 1):
            for a, e in m:
                S = ap(a)
                M = mul(s, inv(S))
                q, rem = {}, {}
                for m2, c2 in r.t.items():
                    if any(x is a for x, _ in m2):
                        q[m2] = c2
                    else:
                        rem[m2] = c2
                if not q:
                    continue
                qp = mul(T.mk_p(q), inv(S))
                rp = T.mk_p(rem)
                c0 = rp.as_int()
                if c0 is not None and c0 < 0:
                    rp, qp = rp + S, qp - num(1)
                if _range(rp, S) and _range(qp, M):
                    return True
        # fdiv: x//S in [0,M)  when x in [0,M*S)
    if len(r.t) == 1:
        ((m, c),) = r.t.items()
        if c == 1 and len(m) == 1 and m[0][0].op == "fdiv" and m[0][1] == 1:
            x, S = m[0][0].args
            if _range(x, s * S):
                return True
    return False


T._range_hook[0] = _range


class with_facts:
    def __init__(self, facts):
        self.f = tuple(facts)

    def __enter__(self):
        RANGE.stack.append(self.f)

    def __exit__(self, *a):
        RANGE.stack.pop()


# --------------------------------------------------------------------------
# Equality proving
# --------------------------------------------------------------------------
def clear_dens(p):
    """Multiply by denominators until no negative exponents remain.
    Returns (p', factors)."""
    facs = []
    for _ in range(60):
        mins = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
        if not mins:
            return p, facs
        # one at a time, den atoms with the largest structure first
        a = max(mins, key=lambda a: (a.op == "den", a.id))
        e = -mins[a]
        f = ap(a) if a.op != "den" else None
        if a.op == "den":
            # multiply monomials: den^-k * D^e
            D = a.args[0]
            acc = ZERO
            for m, c in p.t.items():
                d = dict(m)
                k = d.pop(a, 0)
                base = T.mk_p({tuple(sorted(d.items(), key=T._akey)): c})
                acc = acc + mul(base, power(D, e + k))
            p = acc
        else:
            p = mul(p, power(f, e))
        facs.append((a, e))
    return p, facs


class Budget(Exception):
    pass


class EqProver:
    def __init__(self, facts=(), hyps=(), deadline=None, max_splits=4000):
        self.facts = tuple(facts)
        self.hyps = tuple(hyps)
        self.deadline = deadline
        self.splits = 0
        self.tried = set()
        self.max_splits = max_splits
        self.fail = None
        self.nonzero = set()

    def prove(self, p, facts=None, depth=0):
        facts = self.facts if facts is None else facts
        if not p.t:
            return True
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        self.splits += 1
        STATS["splits"] += 1
        if self.splits > self.max_splits:
            raise Budget("splits")
        with with_facts(facts):
            # equality facts -> substitution
            p2 = self.apply_eqs(p, facts)
            if not p2.t:
                return True
            p = p2
            # use hypotheses (equations h == 0): linear elimination
            for h in self.hyps:
                p = self.use_hyp(p, h)
                if not p.t:
                    return True
            # ite splitting
            c = self.pick_cond(p, facts)
            if c is not None:
                d = decide(facts, c)
                if d is not None:
                    return self.prove(
                        subst(p, {c: TRUE if d else FALSE}), facts, depth
                    )
                for val in (True, False):
                    cc = c if val else not_(c)
                    nf = facts + ((cc.args if cc.op == "and" else (cc,)))
                    if not self.prove(subst(p, {c: TRUE if val else FALSE}), nf, depth + 1):
                        return False
                return True
            # roots of squares
            r = self.square_roots(p, facts, depth)
            if r is not None:
                return self.prove(r, facts, depth + 1)
            # abs / sign resolution
            a = self.pick_abs(p)
            if a is not None:
                x = a.args[0]
                for cond, rep in ((ge(x, ZERO), x), (lt(x, ZERO), -x)):
                    nf = facts + (cond,)
                    if cond is FALSE:
                        continue
                    if entails(facts, not_(cond)):
                        continue
                    if not self.prove(subst(p, {a: rep}), nf, depth + 1):
                        return False
                return True
            q, facs = clear_dens(p)
            if not q.t:
                return True
            if q is not p:
                # sqrt reduction may have produced new structure
                if self.group_sums(q, facts, depth):
                    return True
                for h in self.hyps:
                    q = self.use_hyp(q, h)
                    if not q.t:
                        return True
            if self.group_sums(p, facts, depth):
                return True
            if T.boxes(p):
                r = T.unbox(p)
                if sum(1 for _ in r.t) > 60000:
                    raise Budget("size")
                return self.prove(r, facts, depth + 1)
            # contradictory facts?
            if depth and (entails(facts, FALSE) or entails(facts, FALSE, True, 1000)):
                return True
            # nonlinear arithmetic
            if len(q.t) <= 40 and entails(facts, eq(q, ZERO), True, 2500):
                STATS["z3"] += 1
                return True
            self.fail = (p, facts)
            return False

    def tryp(self, p):
        try:
            return self.prove(p)
        except Budget:
            return False

    def apply_eqs(self, p, facts):
        for _ in range(6):
            ch = False
            for f in facts:
                if f.op == "eq":
                    for m in f.args[0].t:
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("var", "app"):
                            va = m[0][0]
                            if va in free_atoms(p):
                                t = solve_eq_for(f, va)
                                if t is not None and va not in free_atoms(t):
                                    # avoid ping-pong: only eliminate the younger atom
                                    if any(
                                        x.op in ("var", "app") and x.id > va.id and x.sort == va.sort
                                        for x in free_atoms(t)
                                        if x.op != "bv"
                                    ) and len(f.args[0].t) == 2:
                                        continue
                                    p = subst(p, {va: t})
                                    ch = True
            if not ch:
                break
        return p

    def use_hyp(self, p, h):
        """p - c*h if it cancels the leading monomial of h."""
        if not h.t:
            return p
        best = p
        lead = max(h.t, key=lambda m: (len(m), [(a.id, e) for a, e in m]))
        # find monomial in p divisible by lead (exact match up to a cofactor)
        for m, c in list(p.t.items()):
            cof = mul(T.mk_p({m: c}), inv(T.mk_p({lead: h.t[lead]})))
            if len(cof.t) == 1:
                ((mm, cc),) = cof.t.items()
                if all(e > 0 for a, e in mm):
                    q = p - cof * h
                    if len(q.t) < len(best.t):
                        best = q
        return best

    def pick_cond(self, p, facts):
        best = None
        for a in free_atoms(p):
            if a.op == "ite":
                c = a.args[0]
                for cc in self.leaves(c):
                    fa = free_atoms(cc)
                    if open_bvs(cc):
                        continue
                    if any(x.op == "ite" for x in fa):
                        continue
                    key = (len(fa), cc.id)
                    if best is None or key < best[0]:
                        best = (key, cc)
        return best[1] if best else None

    def leaves(self, c):
        if c.op in ("and", "or"):
            for x in c.args:
                yield from self.leaves(x)
        elif c.op == "not":
            yield from self.leaves(c.args[0])
        elif c.op == "lt":
            yield c
        else:
            yield c

    def square_roots(self, p, facts, depth):
        """p with sqrt(c y^2) replaced by sqrt(c) |y| for an |y| that occurs in
        p, or None."""
        if depth > 6:
            return None
        at = [a for a in sorted(free_atoms(p), key=lambda a: a.id) if a.op in ("sqrt", "abs") and not open_bvs(a)]
        rep = {}
        for a in at:
            if a.op != "sqrt":
                continue
            for b in at:
                if b.op != "abs":
                    continue
                X, y = a.args[0], b.args[0]
                c = ratio(X, y * y)
                if c is None or (a, b, facts) in self.tried:
                    continue
                self.tried.add((a, b, facts))
                X = T.unbox(X)
                if self.prove(X - num(c) * (y * y), facts, depth + 1):
                    rep[a] = T.sqrt(num(c)) * T.ap(b)
                    break
        return subst(p, rep) if rep else None

    def pick_abs(self, p):
        for a in sorted(free_atoms(p), key=lambda a: a.id):
            if a.op == "abs" and not open_bvs(a):
                return a
        return None

    def group_sums(self, p, facts, depth):
        groups = {}
        rest = {}
        any_sum = False
        for m, c in p.t.items():
            s = [(a, e) for a, e in m if a.op == "sum"]
            if len(s) == 1 and s[0][1] == 1:
                any_sum = True
                a = s[0][0]
                cof = tuple((x, e) for x, e in m if x is not a)
                groups.setdefault(a.args[0], []).append((cof, c, a))
            else:
                rest[m] = c
        if not any_sum or depth > 12:
            return False
        if rest:
            return False
        for n, lst in groups.items():
            v = fresh("g", "int", ZERO, n)
            body = ZERO
            for cof, c, a in lst:
                b = subst(a.args[1], {mk_atom("bv", (a.args[2],), "int"): v})
                body = body + mul(T.mk_p({cof: c}), b)
            if not self.prove(body, facts, depth + 1):
                return False
        return True


def ratio(x, y):
    """A positive rational c such that x = c y may hold."""
    from fractions import Fraction

    try:
        r = [float(e.p(x)) / float(e.p(y)) for e in (T.Evaluator(salt=k) for k in (3, 4))]
    except (T.EvalFail, ArithmeticError, KeyError, ValueError, TypeError):
        return None
    c = Fraction(r[0]).limit_denominator(64)
    return c if c > 0 and all(abs(v - float(c)) < 1e-7 * float(c) for v in r) else None


def prove_eq(a, b, facts=(), hyps=(), timeout=60):
    p = to_p(a) - to_p(b)
    if not p.t:
        STATS["normal_form"] += 1
        return True, "normal form"
    pr = EqProver(facts, hyps, time.time() + timeout)
    saved, T.BOX[0] = T.BOX[0], 0
    try:
        ok = False
        for h in hyps:
            # equations of the solved systems, whole, before anything is split
            for q in (p - h, p + h):
                if not ok and EqProver(facts, (), time.time() + timeout / 3).tryp(q):
                    return True, "normal form with an equation of the solved system"
        ok = pr.prove(p)
        if not ok and any(x.op in ("sin", "cos") for x in free_atoms(p)):
            p2 = T.expand_trig(p)
            if p2 != p:
                if not p2.t:
                    return True, "normal form (angle addition)"
                if EqProver(facts, hyps, time.time() + timeout).prove(p2):
                    return True, "normal form (angle addition) + case split"
        if not ok and any(x.op == "sum" for x in free_atoms(p)):
            p2 = T.split_sums(p)
            if p2 != p:
                if not p2.t:
                    return True, "normal form (nested sums)"
                pr2 = EqProver(facts, hyps, time.time() + timeout)
                if pr2.prove(p2):
                    return True, "normal form (nested sums) + case split (%d)" % pr2.splits
    except Budget as e:
        return None, "budget: %s" % e
    finally:
        T.BOX[0] = saved
    if ok:
        return True, "normal form + case split (%d)" % pr.splits
    return False, pr.fail


def prove_bool(b, facts=(), hyps=(), timeout=20):
    """Prove a boolean obligation."""
    if b is TRUE:
        return True, "normal form"
    if b.op == "and":
        how = []
        for x in b.args:
            ok, h = prove_bool(x, facts, hyps, timeout)
            if not ok:
                return ok, h
            how.append(h)
        return True, how[0]
    if b.op == "eq":
        return prove_eq(b.args[0], ZERO, facts, hyps, timeout)
    facts = tuple(facts)
    if b.op == "or" and len(b.args) <= 6:
        # assume negations of all but the first equality
        eqs = [x for x in b.args if x.op == "eq"]
        if len(eqs) == 1:
            others = tuple(not_(x) for x in b.args if x is not eqs[0])
            ok, h = prove_eq(eqs[0].args[0], ZERO, facts + others, hyps, timeout)
            if ok:
                return ok, h
    if entails(facts, b, False, 1000):
        STATS["z3"] += 1
        return True, "z3 linear"
    if entails(facts, b, True, int(timeout * 250)):
        STATS["z3"] += 1
        return True, "z3 nonlinear"
    return False, (b, facts)
