"""Symbolic terms: hash-consed atoms, polynomial normal form, booleans.

Numeric terms are Laurent polynomials over atoms with rational coefficients
(class P).  Machine floats are treated as the exact decimal numbers they are
written as, machine integers as mathematical integers.
"""
from fractions import Fraction
import math
import hashlib

F0 = Fraction(0)
F1 = Fraction(1)


class Unsupported(Exception):
    """The engine cannot express this; never mapped to a violation."""


# --------------------------------------------------------------------------
# Atoms
# --------------------------------------------------------------------------
_atom_table = {}
_atom_count = [0]


class Atom:
    __slots__ = ("op", "args", "sort", "id", "_free", "h", "__weakref__")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def mk_atom(op, args, sort="real"):
    key = (op, args, sort)
    a = _atom_table.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.sort = op, args, sort
        a.id = _atom_count[0]
        _atom_count[0] += 1
        a._free = None
        h = 0
        if op == "sum":
            h = max(args[2] + 1, height(args[0]))
        else:
            for x in args:
                h = max(h, height(x))
        a.h = h
        _atom_table[key] = a
    return a


def height(x):
    if isinstance(x, P):
        return x.h
    if isinstance(x, B):
        return x.h
    if isinstance(x, Atom):
        return x.h
    if isinstance(x, tuple):
        r = 0
        for y in x:
            r = max(r, height(y))
        if x and x[0] == "fn":
            r = max(r, x[3] + 1)
        return r
    return 0


def show_atom(a):
    if a.op == "var":
        return a.args[0]
    if a.op == "bv":
        return "_%d" % a.args[0]
    if a.op == "app":
        return "%s(%s)" % (a.args[0], ",".join(show(x) for x in a.args[1:]))
    if a.op == "sum":
        return "Sum[_%d<%s](%s)" % (a.args[2], show(a.args[0]), show(a.args[1]))
    if a.op == "den":
        return "(%s)" % show(a.args[0])
    return "%s(%s)" % (a.op, ", ".join(show(x) for x in a.args))


def show(x):
    if isinstance(x, P):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]]):
            ms = "*".join(
                repr(a) if e == 1 else "%r^%d" % (a, e) for a, e in m
            )
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        return " + ".join(out)
    return repr(x)


# --------------------------------------------------------------------------
# Polynomials
# --------------------------------------------------------------------------
_p_table = {}


class P:
    """Laurent polynomial; immutable and hash-consed."""

    __slots__ = ("t", "id", "h", "_free", "_int", "__weakref__")

    # ---- construction
    def __repr__(self):
        return show(self)

    # ---- arithmetic operators (only used by engine code)
    def __add__(self, o):
        o = to_p(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, F0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return mk_p_tidy(d)

    __radd__ = __add__

    def __neg__(self):
        return mk_p({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-to_p(o))

    def __rsub__(self, o):
        return to_p(o) + (-self)

    def __mul__(self, o):
        o = to_p(o)
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(to_p(o)))

    def __rtruediv__(self, o):
        return mul(to_p(o), inv(self))

    def __pow__(self, n):
        return power(self, n)

    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    @property
    def is_int(self):
        if self._int is None:
            r = True
            for m, c in self.t.items():
                if c.denominator != 1 or any(
                    e < 0 or a.sort != "int" for a, e in m
                ):
                    r = False
                    break
            self._int = r
        return self._int


def mk_p(d):
    key = frozenset(d.items())
    p = _p_table.get(key)
    if p is None:
        p = P()
        p.t = d
        p.id = len(_p_table)
        h = 0
        for m in d:
            for a, e in m:
                if a.h > h:
                    h = a.h
        p.h = h
        p._free = None
        p._int = None
        _p_table[key] = p
    return p


def _seg_rewrite(d):
    """PS(d, segk(d;q)) + segm(d;q) -> q  and  (m//s)*s + m%s -> m (linear part)."""
    for m, c in list(d.items()):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == "segm":
                fn, q = a.args
                ps = _ps_term(fn, segk(fn, q))
                # all terms of ps times c must be present
                if all(d.get(mm, F0) == cc * c for mm, cc in ps.t.items()):
                    nd = dict(d)
                    del nd[m]
                    for mm in ps.t:
                        nd.pop(mm, None)
                    return (mk_p(nd) + q * c).t
            elif a.op == "mod":
                x, s = a.args
                dv = floordiv(x, s) * s
                if all(d.get(mm, F0) == cc * c for mm, cc in dv.t.items()):
                    nd = dict(d)
                    del nd[m]
                    for mm in dv.t:
                        nd.pop(mm, None)
                    return (mk_p(nd) + x * c).t
    return None


def mk_p_tidy(d):
    for m in d:
        if len(m) == 1 and m[0][0].op in ("segm", "mod") and m[0][1] == 1:
            r = _seg_rewrite(d)
            if r is not None:
                return mk_p(r)
            break
    return mk_p(d)


ZERO = mk_p({})


def num(c):
    if isinstance(c, P):
        return c
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c or c in (math.inf, -math.inf):
            raise Unsupported("nan/inf constant")
        c = Fraction(repr(c))
    c = Fraction(c)
    if c == 0:
        return ZERO
    return mk_p({(): c})


ONE = num(1)


def to_p(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return mk_p({((x, 1),): F1})
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    try:
        import numpy as np

        if isinstance(x, np.generic):
            return num(x.item())
    except ImportError:
        pass
    raise Unsupported("not numeric: %r" % (x,))


def ap(a):
    return mk_p({((a, 1),): F1})


def _mul_mono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return d


_mul_cache = {}


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p.id > q.id:
        p, q = q, p
    lp, lq = len(p.t), len(q.t)
    boxing = BOX[0] and lp > 1 and lq > 1 and lp * lq > BOX[0] and not (p.is_int and q.is_int)
    key = (p, q, boxing)
    r = _mul_cache.get(key)
    if r is None and boxing:
        r = mul(box(p), box(q)) if lp > BOX[1] and lq > BOX[1] else mul(box(p), q) if lp > lq else mul(p, box(q))
        _mul_cache[key] = r
    if r is None:
        acc = {}
        special = []
        for m1, c1 in p.t.items():
            for m2, c2 in q.t.items():
                d = _mul_mono(m1, m2)
                c = c1 * c2
                red = None
                for a, e in d.items():
                    if needs_reduce(a, e):
                        red = a
                        break
                if red is not None:
                    special.append((c, d))
                else:
                    m = tuple(sorted(d.items(), key=_akey))
                    n = acc.get(m, F0) + c
                    if n:
                        acc[m] = n
                    else:
                        acc.pop(m, None)
        r = mk_p_tidy(acc)
        for c, d in special:
            r = r + reduce_mono(c, d)
        _mul_cache[key] = r
    return r


# Products of large polynomials keep one factor under a name ("box") instead of
# being multiplied out; a box is equal to its content and the prover opens it
# when it needs to.
BOX = [48, 12]


def box(p):
    """A name for the polynomial p (up to a monomial factor)."""
    if len(p.t) < 2:
        return p
    common = None
    for m in p.t:
        dm = {a: e for a, e in m if e > 0}
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    lead = min(p.t, key=lambda m: [(a.id, e) for a, e in m])
    c = p.t[lead]
    cm = tuple(sorted(common.items(), key=_akey)) if common else ()
    d = {}
    for m, k in p.t.items():
        dm = dict(m)
        for a, e in cm:
            dm[a] -= e
            if not dm[a]:
                del dm[a]
        d[tuple(sorted(dm.items(), key=_akey))] = k / c
    return mk_p({tuple(sorted(list(cm) + [(mk_atom("box", (mk_p(d),)), 1)], key=_akey)): c})


def boxes(x):
    return [a for a in sorted(free_atoms(x)) if a.op == "box"]


def unbox(x):
    """Open the boxes of x by one level."""
    bs = boxes(x)
    if not bs:
        return x
    saved, BOX[0] = BOX[0], 0
    try:
        return subst(x, {a: a.args[0] for a in bs})
    finally:
        BOX[0] = saved


def _akey(ae):
    return ae[0].id


def needs_reduce(a, e):
    op = a.op
    if op == "sqrt":
        return e != 1
    if op == "sin":
        return e >= 2
    if op == "abs":
        return e >= 2 or e <= -2
    if op == "sgn":
        return e >= 2 or e <= -1
    if op == "ind":
        return e >= 2
    if op == "den":
        return e > 0
    return False


def reduce_mono(c, d):
    """Product of c and atoms**e in dict d, with the special atoms reduced."""
    r = num(c)
    plain = {}
    factors = []
    for a, e in d.items():
        if not needs_reduce(a, e):
            plain[a] = e
            continue
        op = a.op
        if op == "sqrt":
            k, rr = divmod(e, 2)
            if rr:
                plain[a] = 1
            factors.append(power(a.args[0], k))
        elif op == "sin":
            k, rr = divmod(e, 2)
            if rr:
                plain[a] = 1
            cc = ap(mk_atom("cos", a.args))
            factors.append(power(ONE - cc * cc, k))
        elif op == "abs":
            s = 1 if e > 0 else -1
            k, rr = divmod(abs(e), 2)
            if rr:
                plain[a] = s
            factors.append(power(a.args[0], 2 * k * s))
        elif op == "sgn":
            # sgn(x)^2 = 1 (x != 0)
            if abs(e) % 2:
                plain[a] = 1
        elif op == "ind":
            plain[a] = 1
        elif op == "den":
            factors.append(power(a.args[0], e))
    m = tuple(sorted(plain.items(), key=_akey))
    r = mk_p({m: Fraction(c)})
    for f in factors:
        r = mul(r, f)
    return r


_inv_cache = {}


def inv(p):
    """1/p.  Division by zero is a separate obligation of the interpreter."""
    if not p.t:
        raise ZeroDivisionError("symbolic division by zero")
    r = _inv_cache.get(p)
    if r is None:
        if len(p.t) == 1:
            ((m, c),) = p.t.items()
            d = {a: -e for a, e in m}
            if any(needs_reduce(a, e) for a, e in d.items()):
                r = reduce_mono(1 / c, d)
            else:
                r = mk_p({tuple(sorted(d.items(), key=_akey)): 1 / c})
        else:
            # pull out common monomial and leading coefficient
            common = None
            for m in p.t:
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    n = {}
                    for a in dict.fromkeys((*common, *dm)):
                        e = min(common.get(a, 0), dm.get(a, 0))
                        if e:
                            n[a] = e
                    common = n
            base = p
            pre = ONE
            if common and not any(
                needs_reduce(a, -e) or a.op == "sqrt" for a, e in common.items()
            ):
                im = mk_p(
                    {tuple(sorted(((a, -e) for a, e in common.items()), key=_akey)): F1}
                )
                base = mul(p, im)
                pre = im
            lead = min(base.t, key=lambda m: [(a.id, e) for a, e in m])
            c = base.t[lead]
            base = mk_p({m: k / c for m, k in base.t.items()})
            if len(base.t) == 1:
                r = mul(mul(pre, inv(base)), num(1 / c))
            else:
                a = mk_atom("den", (base,))
                r = mul(pre, mk_p({((a, -1),): 1 / c}))
        _inv_cache[p] = r
    return r


def power(p, n):
    if isinstance(n, P):
        c = n.const()
        if c is None:
            raise Unsupported("symbolic exponent")
        n = c
    if isinstance(n, float):
        n = Fraction(repr(n))
    n = Fraction(n)
    if n.denominator == 2:
        k = math.floor(n)
        return mul(power(p, k), sqrt(p))
    if n.denominator != 1:
        return app("pow", p, num(n))
    n = int(n)
    if n == 0:
        return ONE
    if n < 0:
        return power(inv(p), -n)
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        d = {a: e * n for a, e in m}
        if any(needs_reduce(a, e) for a, e in d.items()):
            return reduce_mono(c**n, d)
        return mk_p({m and tuple((a, e * n) for a, e in m): c**n})
    r = ONE
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


# --------------------------------------------------------------------------
# Function atoms
# --------------------------------------------------------------------------
PI = ap(mk_atom("pi", ()))
EPS = ap(mk_atom("eps", ()))


def var(name, sort="real", lo=None, hi=None):
    return ap(mk_atom("var", (name, lo, hi), sort))


_fresh = [0]


def fresh(prefix="v", sort="real", lo=None, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort, lo, hi)


def app(fname, *args, sort="real"):
    return ap(mk_atom("app", (fname,) + tuple(to_arg(a) for a in args), sort))


def to_arg(a):
    if isinstance(a, (P, B, str)):
        return a
    return to_p(a)


def _square_free_split(n):
    """n = s*s*f"""
    s, f = 1, 1
    d = 2
    while d * d <= n and d < 2000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        f *= d ** (e % 2)
        d += 1
    r = math.isqrt(n)
    if r * r == n:
        s *= r
    else:
        f *= n
    return s, f


def sqrt(p):
    """Principal square root; sqrt(x)^2 = x needs x >= 0 (recorded assumption)."""
    p = to_p(p)
    if not p.t:
        return ZERO
    # numeric content
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c > 0:
            n, dd = c.numerator, c.denominator
            s1, f1 = _square_free_split(n)
            s2, f2 = _square_free_split(dd)
            # sqrt(n/d) = s1/s2 * sqrt(f1/f2) = s1/(s2 f2) sqrt(f1 f2)
            coef = Fraction(s1, s2 * f2)
            rad = f1 * f2
            out = {}
            pre = num(coef)
            for a, e in m:
                if e % 2 == 0:
                    # sqrt(a^(2k)) = |a^k|
                    pre = mul(pre, absv(power(ap(a), e // 2)))
                else:
                    out[a] = e
            base = {tuple(sorted(out.items(), key=_akey)): Fraction(rad)}
            if not out and rad == 1:
                return pre
            return mul(pre, ap(mk_atom("sqrt", (mk_p(base),))))
        return ap(mk_atom("sqrt", (p,)))
    # multi-term: pull out the numeric content of all coefficients
    g = None
    for c in p.t.values():
        g = abs(c) if g is None else Fraction(
            math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
            g.denominator * c.denominator,
        )
    pre = ONE
    if g != 1:
        pre = sqrt(num(g))
        p = mk_p({m: c / g for m, c in p.t.items()})
    return mul(pre, ap(mk_atom("sqrt", (p,))))


def lead_sign(p):
    lead = min(p.t, key=lambda m: [(a.id, e) for a, e in m])
    return 1 if p.t[lead] > 0 else -1


def nonneg_syntactic(p):
    """Obviously non-negative."""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.op in ("sqrt", "abs", "pi", "eps"):
                continue
            if a.op == "var" and a.args[1] is not None:
                lo = a.args[1].const() if isinstance(a.args[1], P) else None
                if lo is not None and lo >= 0:
                    continue
            if a.op in ("den", "box") and nonneg_syntactic(a.args[0]):
                continue
            if a.op == "sum" and nonneg_syntactic(a.args[1]):
                continue
            if a.op == "rmax" and nonneg_syntactic(a.args[0][1]):
                continue
            if a.op == "app" and a.args[0] in NONNEG_APPS:
                continue
            if a.op in ("segk", "segm", "mod"):
                continue
            return False
    return True


NONNEG_APPS = set()


def absv(p):
    p = to_p(p)
    if nonneg_syntactic(p):
        return p
    if nonneg_syntactic(-p):
        return -p
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        r = num(abs(c))
        for a, e in m:
            x = ap(a)
            if nonneg_syntactic(x):
                r = mul(r, power(x, e))
            else:
                ab = ap(mk_atom("abs", (x,), a.sort))
                r = mul(r, power(ab, e))
        return r
    if lead_sign(p) < 0:
        p = -p
    return ap(mk_atom("abs", (p,), "int" if p.is_int else "real"))


def _pi_multiple(p):
    if not p.t:
        return F0
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if len(m) == 1 and m[0][0].op == "pi" and m[0][1] == 1:
            return c
    return None


def sin(p):
    p = to_p(p)
    k = _pi_multiple(p)
    if k is not None:
        r = _sin_pi(k)
        if r is not None:
            return r
    # arctan / arctan2 arguments are not simplified here
    q = _quarter(p)
    if q is not None:
        x, k = q
        return (sin(x), cos(x), -sin(x), -cos(x))[k]
    if lead_sign(p) < 0:
        return -sin(-p)
    r = _special_trig(p)
    if r is not None:
        return r[0]
    return ap(mk_atom("sin", (p,)))


def cos(p):
    p = to_p(p)
    k = _pi_multiple(p)
    if k is not None:
        r = _sin_pi(k + Fraction(1, 2))
        if r is not None:
            return r
    q = _quarter(p)
    if q is not None:
        x, k = q
        return (cos(x), -sin(x), -cos(x), sin(x))[k]
    if lead_sign(p) < 0:
        p = -p
    r = _special_trig(p)
    if r is not None:
        return r[1]
    return ap(mk_atom("cos", (p,)))


def _quarter(p):
    """p as x + q pi/2 with an integer q, x having no whole multiples of pi/2."""
    if len(p.t) < 2:
        return None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0].op == "pi" and m[0][1] == 1:
            if (2 * Fraction(c)).denominator != 1:
                return None
            return p - mk_p({m: c}), int(2 * c) % 4
    return None


def expand_trig(p):
    """sin and cos of sums and multiples by the addition formulas."""
    ats = [a for a in sorted(free_atoms(p)) if a.op in ("sin", "cos")]
    if not ats or any(a.op in ("sum", "segk", "segm", "rmax") for a in free_atoms(p)):
        return p
    g = {}
    for a in ats:
        for m, c in a.args[0].t.items():
            c = abs(Fraction(c))
            o = g.get(m)
            g[m] = c if o is None else Fraction(math.gcd(o.numerator * c.denominator, c.numerator * o.denominator), o.denominator * c.denominator)
    mp = {}
    for a in ats:
        C, S = ONE, ZERO
        for m, c in a.args[0].t.items():
            k = Fraction(c) / g[m]
            if abs(k) > 8:
                return p
            b = mk_p({m: g[m]})
            cb, sb = cos(b), sin(b)
            if k < 0:
                sb = -sb
            for _ in range(int(abs(k))):
                C, S = C * cb - S * sb, S * cb + C * sb
        mp[a] = S if a.op == "sin" else C
    return subst(p, mp)


def _special_trig(p):
    """sin/cos of arctan2(y,x), arctan(t): algebraic forms."""
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == "arctan":
                t = a.args[0]
                h = sqrt(ONE + t * t)
                return t / h, ONE / h
            if a.op == "arctan2":
                y, x = a.args
                if not y.t and not x.t:
                    return ZERO, ONE
                h = sqrt(x * x + y * y)
                z = and_(eq(x, ZERO), eq(y, ZERO))
                return (ite(z, ZERO, y / h), ite(z, ONE, x / h))
    return None


def _sin_pi(k):
    k = k % 2
    if k in (0, 1):
        return ZERO
    if k == Fraction(1, 2):
        return ONE
    if k == Fraction(3, 2):
        return -ONE
    if k in (Fraction(1, 6), Fraction(5, 6)):
        return num(Fraction(1, 2))
    if k in (Fraction(7, 6), Fraction(11, 6)):
        return num(Fraction(-1, 2))
    return None


def arctan(p):
    p = to_p(p)
    if not p.t:
        return ZERO
    if lead_sign(p) < 0:
        return -arctan(-p)
    return ap(mk_atom("arctan", (p,)))


def arctan2(y, x):
    y, x = to_p(y), to_p(x)
    if not y.t and not x.t:
        return ZERO
    return ap(mk_atom("arctan2", (y, x)))


def floor(p):
    p = to_p(p)
    if p.is_int:
        return p
    # split integer part
    ip, rest = {}, {}
    for m, c in p.t.items():
        if c.denominator == 1 and all(a.sort == "int" and e > 0 for a, e in m):
            ip[m] = c
        else:
            rest[m] = c
    r = mk_p(rest)
    c = r.const()
    if c is not None:
        return mk_p(ip) + num(math.floor(c))
    # constant offset integer part of rest
    c0 = r.t.get((), F0)
    fl = math.floor(c0)
    if fl:
        r = r - num(fl)
        ipp = mk_p(ip) + num(fl)
    else:
        ipp = mk_p(ip)
    return ipp + ap(mk_atom("floor", (r,), "int"))


def ceil(p):
    return -floor(-to_p(p))


def floordiv(x, s):
    x, s = to_p(x), to_p(s)
    if not x.t:
        return ZERO
    cs = s.const()
    if cs == 1 and x.is_int:
        return x
    cx = x.const()
    if cx is not None and cs is not None:
        return num(math.floor(cx / cs))
    r = _divmod_split(x, s)
    if r is not None:
        q, rem = r
        if rem is ZERO:
            return q
        return q + floordiv(rem, s) if q.t else ap(mk_atom("fdiv", (x, s), "int"))
    return ap(mk_atom("fdiv", (x, s), "int"))


# hook: decides 0 <= r < s in the current proof context
_range_hook = [None]


def in_range(r, s):
    h = _range_hook[0]
    if h is not None:
        return h(r, s)
    return default_in_range(r, s)


def lower0(p):
    return nonneg_syntactic(p)


def default_in_range(r, s):
    """Syntactic 0 <= r < s."""
    if not r.t:
        c = s.const()
        return (c is not None and c > 0) or positive_dim(s)
    if len(r.t) == 1:
        ((m, c),) = r.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == "var" and a.args[1] is not None and a.args[2] is not None:
                if nonneg_syntactic(a.args[1]) and (a.args[2] is s):
                    return True
            if a.op == "mod" and a.args[1] is s:
                return True
            if a.op == "segm":
                fn, q = a.args
                d = apply_fn(fn, segk(fn, q))
                if d is s:
                    return True
            if a.op == "segk":
                fn, q = a.args
                if fn[2] is s:
                    return True
    rc, sc = r.const(), s.const()
    if rc is not None and sc is not None:
        return 0 <= rc < sc
    return False


def positive_dim(s):
    if len(s.t) == 1:
        ((m, c),) = s.t.items()
        return c > 0 and all(
            a.sort == "int" and a.op in ("app", "var") and _posatom(a) for a, e in m
        )
    return False


POS_APPS = set()


def _posatom(a):
    if a.op == "app":
        return a.args[0] in POS_APPS
    if a.op == "var":
        lo = a.args[1]
        if isinstance(lo, P):
            c = lo.const()
            return c is not None and c >= 1
    return False


def _divmod_split(x, s):
    """x = q*s + rem syntactically (s a single monomial).  None if no split."""
    if len(s.t) != 1:
        return None
    ((ms, cs),) = s.t.items()
    if not ms:
        if cs.denominator != 1:
            return None
    q = {}
    rem = {}
    iss = inv(s)
    for m, c in x.t.items():
        t = mul(mk_p({m: c}), iss)
        if t.is_int and (ms or len(m) > 0 or True):
            for mm, cc in t.t.items():
                q[mm] = q.get(mm, F0) + cc
        else:
            rem[m] = c
    q = {m: c for m, c in q.items() if c}
    qp, rp = mk_p(q), mk_p(rem)
    if in_range(rp, s):
        return qp, ZERO
    if qp.t and not rp.t:
        return qp, ZERO
    return None


def mod(x, s):
    x, s = to_p(x), to_p(s)
    if not x.t:
        return ZERO
    cx, cs = x.const(), s.const()
    if cs == 1 and x.is_int:
        return ZERO
    if cx is not None and cs is not None:
        return num(cx - cs * math.floor(cx / cs))
    q = floordiv(x, s)
    if len(q.t) == 1 or not q.t:
        pass
    if any(a.op == "fdiv" and a.args == (x, s) for m in q.t for a, e in m):
        return ap(mk_atom("mod", (x, s), "int" if x.is_int and s.is_int else "real"))
    return x - q * s


# ---------------------------------------------------------------- segments
# A segment function fn = (body with bound variable _k, k, n) : lengths d(k), k<n
# PS(fn, i) = sum_{k<i} d(k);  flat index q = PS(fn, i) + m, 0<=m<d(i).


def mk_fn(v, body, n):
    """fn tuple from a variable atom v and body term; canonical binder."""
    b2, k = close_over(body, v)
    return ("fn", b2, n, k)


def rmax(n, v, body):
    """Largest of body over v in [0, n), n >= 1."""
    body = to_p(body)
    va = only_atom(v)
    if va not in free_atoms(body):
        return body
    return rmax_fn(mk_fn(va, body, to_p(n)))


def rmax_fn(fn):
    k = fn[2].as_int()
    if k is not None and k <= 64:
        r = apply_fn(fn, ZERO)
        for i in range(1, k):
            r = maxv(r, apply_fn(fn, num(i)))
        return r
    if mk_atom("bv", (fn[3],), "int") not in free_atoms(fn[1]):
        return fn[1]
    return ap(mk_atom("rmax", (fn,), "int" if fn[1].is_int else "real"))


def close_over(body, va):
    """body with the variable replaced by a bound index k above every binder
    inside (rebuilding can introduce further binders: repeat)."""
    k = body.h
    while k in open_bvs(body):
        k += 1
    while True:
        b2 = subst(body, {va: ap(mk_atom("bv", (k,), "int"))})
        if b2.h <= k:
            return b2, k
        k = b2.h


def apply_fn(fn, i):
    return subst(fn[1], {mk_atom("bv", (fn[3],), "int"): to_p(i)})


def _ps_term(fn, i):
    return sum_raw(to_p(i), fn[1], fn[3])


def seg_scale(fn, q):
    """Segments of g*d(k) elements, at g*x + r with 0 <= r < g: segments of
    d(k) elements at x.  (fn / g, x, g, r) or None."""
    q = to_p(q)
    cs = [c for c in fn[1].t.values()]
    if not cs or any(c.denominator != 1 for c in cs) or not q.t or not fn[1].is_int or not q.is_int:
        return None
    g = 0
    for c in cs:
        g = math.gcd(g, abs(int(c)))
    if g < 2:
        return None
    r = q.t.get((), F0)
    if any(m and (c.denominator != 1 or int(c) % g) for m, c in q.t.items()) or r.denominator != 1:
        return None
    r = int(r) % g
    gi = num(Fraction(1, g))
    return (fn[0], fn[1] * gi, fn[2], fn[3]), (q - num(r)) * gi, g, r


def segk(fn, q):
    z = seg_scale(fn, q)
    if z is not None:
        return segk(z[0], z[1])
    r = seg_split(fn, q)
    if r is not None:
        return r[0]
    return ap(mk_atom("segk", (fn, q), "int"))


def segm(fn, q):
    z = seg_scale(fn, q)
    if z is not None:
        return z[2] * segm(z[0], z[1]) + num(z[3])
    r = seg_split(fn, q)
    if r is not None:
        return r[1]
    return ap(mk_atom("segm", (fn, q), "int"))


def seg_split(fn, q):
    """Recognise q = PS(fn,i)+m with 0<=m<d(i), 0<=i<n."""
    q = to_p(q)
    # candidates i: any sum-atom in q with the same body whose bound differs
    bvk = mk_atom("bv", (fn[3],), "int")
    cands = []
    for m, c in q.t.items():
        for a, e in m:
            if a.op == "sum" and e == 1:
                i = a.args[0]
                if i not in cands:
                    cands.append(i)
    if fn[1].h == 0 and bvk not in free_atoms(fn[1]):
        # constant segment length: PS = i*d
        d = fn[1]
        r = _divmod_split(q, d) if d.t else None
        if r is not None:
            i = r[0]
            return i, q - i * d
        return None
    cands.append(ZERO)
    for i in cands:
        rem = q - _ps_term(fn, i)
        if any(a.op == "sum" and a.args[0] is i for m in rem.t for a, e in m) and i.t:
            continue
        d = apply_fn(fn, i)
        if in_range(rem, d):
            return i, rem
    return None


# ---------------------------------------------------------------- sums
def sum_raw(n, body, k):
    """Sum of body over bv(k) in [0,n); body uses bv(k) as the bound variable."""
    n = to_p(n)
    if not body.t or not n.t:
        return ZERO
    ni = n.as_int()
    bva = mk_atom("bv", (k,), "int")
    if ni is not None and ni <= 64:
        r = ZERO
        for i in range(max(ni, 0)):
            r = r + subst(body, {bva: num(i)})
        return r
    # n = n0 + const with const small positive could be peeled: keep as is
    # linear: split monomials, pull out independent factors
    acc = ZERO
    for m, c in body.t.items():
        dep, ind = [], []
        for a, e in m:
            if bva in free_atoms(a):
                dep.append((a, e))
            else:
                ind.append((a, e))
        pre = mk_p({tuple(ind): c}) if not any(
            needs_reduce(a, e) for a, e in ind
        ) else reduce_mono(c, dict(ind))
        if not dep:
            acc = acc + pre * n
            continue
        dm = mk_p({tuple(dep): F1})
        # delta: ite(bv == t, f, g)
        r = _sum_delta(n, dm, k, bva)
        if r is None:
            r = _sum_hoist(n, dm, k, bva)
        if r is None:
            r = _sum_flatten(n, dm, k, bva)
        if r is None and SPLIT[0]:
            r = _sum_split(n, dm, k, bva)
        if r is not None:
            acc = acc + pre * r
            continue
        # single dependent atom that is itself a den etc. stays
        kk = dm.h
        # canonical binder is the height of the body (excluding own binder)
        while kk != k and kk in open_bvs(dm):
            kk += 1
        dm2 = dm
        while kk != k:
            dm2 = subst(dm, {bva: ap(mk_atom("bv", (kk,), "int"))})
            if dm2.h <= kk:
                break
            kk = dm2.h
        c0 = n.t.get((), F0)
        if c0 and c0.denominator == 1 and abs(c0) <= 6 and n.is_int:
            # signed telescoping: S(n0 + c) = S(n0) + body(n0) + ...
            n0 = n - num(c0)
            s0 = ap(mk_atom("sum", (n0, dm2, kk), "int" if dm2.is_int else "real"))
            bvk = mk_atom("bv", (kk,), "int")
            if c0 > 0:
                for i in range(int(c0)):
                    s0 = s0 + subst(dm2, {bvk: n0 + num(i)})
            else:
                for i in range(1, int(-c0) + 1):
                    s0 = s0 - subst(dm2, {bvk: n0 - num(i)})
            acc = acc + pre * s0
            continue
        acc = acc + pre * ap(mk_atom("sum", (n, dm2, kk), "int" if dm2.is_int else "real"))
    return acc


def _sum_delta(n, dm, k, bva):
    for m, c in dm.t.items():
        for a, e in m:
            if a.op == "ite" and e == 1:
                cnd, x, y = a.args
                sol = solve_eq_for(cnd, bva)
                if sol is not None and bva not in free_atoms(sol):
                    rest = mul(dm, inv(ap(a)))
                    g = sum_raw(n, mul(rest, y), k)
                    at = subst(mul(rest, x - y), {bva: sol})
                    return g + ite(and_(ge(sol, ZERO), lt(sol, n)), at, ZERO)
    return None


def _sum_hoist(n, dm, k, bva):
    """Sum_i ite(c, x, 0) = ite(c, Sum_i x, 0) when c does not involve i but
    does involve an enclosing binder (so that the outer sum can collapse)"""
    for m, c in dm.t.items():
        for a, e in m:
            if a.op == "ite" and e == 1:
                cnd, x, y = a.args
                if (x.t and y.t) or bva in free_atoms(cnd):
                    continue
                if not any(f.op == "bv" for f in free_atoms(cnd)):
                    continue
                rest = mul(dm, inv(ap(a)))
                z = sum_raw(n, mul(rest, x if x.t else y), k)
                return ite(cnd, z, ZERO) if x.t else ite(cnd, ZERO, z)
    return None


SPLIT = [False]


def split_sums(p):
    """p with every sum over a flat index written as nested sums"""
    mp = {}

    def go(p):
        for m in p.t:
            for a, e in m:
                if a.op == "sum" and a not in mp:
                    n, body, kk = a.args
                    v = fresh("s", "int", ZERO, n)
                    mp[a] = sum_(n, v, split_sums(subst(body, {mk_atom("bv", (kk,), "int"): v})))
                elif a.op == "ite":
                    go(a.args[1])
                    go(a.args[2])

    saved, SPLIT[0] = SPLIT[0], True
    try:
        go(p)
        return subst(p, mp) if mp else p
    finally:
        SPLIT[0] = saved


def _sum_split(n, dm, k, bva):
    """Sum_{q < Sum_{a<c} d(a)} f(q) = Sum_{a<c} Sum_{r<d(a)} f(PS(a) + r), and
    Sum_{q < M*N} f(q) = Sum_{i<M} Sum_{j<N} f(i*N + j) when f divides q by N"""
    if len(n.t) != 1:
        return None
    ((m, c),) = n.t.items()
    sums = [(a, e) for a, e in m if a.op == "sum"]
    if len(sums) == 1 and sums[0][1] == 1:
        cnt, body, kk = sums[0][0].args
        rest = mk_p({tuple((a, e) for a, e in m if a.op != "sum"): c})
        if rest.h > kk or bva in free_atoms(n):
            return None
        if not (nonneg_syntactic(body) and nonneg_syntactic(rest) and nonneg_syntactic(cnt)):
            return None
        a = fresh("s", "int", ZERO, cnt)
        d = lambda i: rest * subst(body, {mk_atom("bv", (kk,), "int"): to_p(i)})
        q = fresh("s", "int", ZERO, d(a))
        off = rest * sum_raw(a, body, kk)
        b = subst(dm, {bva: off + q})
        return sum_(cnt, a, sum_(d(a), q, b))
    ws = _divisors(dm, bva)
    for w in ws:
        if bva in free_atoms(w) or not nonneg_syntactic(w):
            continue
        e = mul(n, inv(w))
        if not e.is_int or len(e.t) != 1 or any(x < 0 for mm in e.t for _, x in mm) or e.as_int() == 1 or not nonneg_syntactic(e):
            continue
        i = fresh("s", "int", ZERO, e)
        j = fresh("s", "int", ZERO, w)
        b = subst(dm, {bva: i * w + j})
        if any(x is w for x in _divisors(b, only_atom(j))):
            continue
        return sum_(e, i, sum_(w, j, b))
    return None


def _divisors(p, bva):
    out = []
    seen = set()

    def go(x):
        if isinstance(x, P):
            if x.id in seen if hasattr(x, "id") else False:
                return
            for m in x.t:
                for a, _ in m:
                    ga(a)
        elif isinstance(x, B):
            if ("b", x.id) in seen:
                return
            seen.add(("b", x.id))
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)

    def ga(a):
        if a.id in seen or bva not in free_atoms(a):
            return
        seen.add(a.id)
        if a.op in ("fdiv", "mod") and a.args[1] not in out:
            out.append(a.args[1])
        for y in a.args:
            go(y)

    go(p)
    return out


def _sum_flatten(n, dm, k, bva):
    """Sum_{i<n} Sum_{j<w} f(i*w + j) = Sum_{r<n*w} f(r), w independent of i"""
    if len(dm.t) != 1:
        return None
    ((m, c),) = dm.t.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "sum":
        return None
    w, body, kk = m[0][0].args
    if bva in free_atoms(w) or not (nonneg_syntactic(w) and nonneg_syntactic(n)):
        return None
    j = mk_atom("bv", (kk,), "int")
    if kk == k:
        return None
    b0 = subst(body, {bva: ZERO})
    if subst(b0, {j: ap(j) + ap(bva) * w}) != body:
        return None
    return c * sum_raw(n * w, b0, kk)


def sum_(n, v, body):
    """Sum over v (a var P or Atom) in [0, n)."""
    va = v if isinstance(v, Atom) else only_atom(v)
    body = to_p(body)
    b2, k = close_over(body, va)
    return sum_raw(n, b2, k)


def only_atom(p):
    ((m, c),) = p.t.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------
_b_table = {}


class B:
    __slots__ = ("op", "args", "id", "h", "_free", "__weakref__")

    def __repr__(self):
        return show_b(self)


def mk_b(op, args):
    key = (op, args)
    b = _b_table.get(key)
    if b is None:
        b = B()
        b.op, b.args = op, args
        b.id = len(_b_table)
        b._free = None
        h = 0
        for x in args:
            h = max(h, height(x))
        b.h = h
        _b_table[key] = b
    return b


TRUE = mk_b("true", ())
FALSE = mk_b("false", ())


def show_b(b):
    if b.op == "true":
        return "True"
    if b.op == "false":
        return "False"
    if b.op in ("eq", "le", "lt"):
        return "(%s %s 0)" % (show(b.args[0]), {"eq": "==", "le": "<=", "lt": "<"}[b.op])
    if b.op == "not":
        return "not %r" % b.args[0]
    if b.op in ("and", "or"):
        return "(" + (" %s " % b.op).join(repr(x) for x in b.args) + ")"
    if b.op == "pred":
        return "%s(%s)" % (b.args[0], ",".join(show(x) for x in b.args[1:]))
    return "%s%r" % (b.op, b.args)


def to_b(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, P):
        return ne(x, ZERO)
    try:
        import numpy as np

        if isinstance(x, np.bool_):
            return TRUE if x else FALSE
    except ImportError:
        pass
    raise Unsupported("not boolean: %r" % (x,))


def pred(name, *args):
    return mk_b("pred", (name,) + tuple(to_arg(a) for a in args))


def _scale(p, positive_only):
    lead = min(p.t, key=lambda m: [(a.id, e) for a, e in m])
    c = p.t[lead]
    if positive_only:
        c = abs(c)
    # make integer primitive
    l = 1
    for x in p.t.values():
        l = l * x.denominator // math.gcd(l, x.denominator)
    g = 0
    for x in p.t.values():
        g = math.gcd(g, abs(int(x * l)))
    f = Fraction(l, g)
    if not positive_only and c < 0:
        f = -f
    return mk_p({m: x * f for m, x in p.t.items()})


def eq(a, b):
    p = to_p(a) - to_p(b)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = _scale(p, False)
    # integer infeasibility
    if len(p.t) == 1:
        ((m, cc),) = p.t.items()
        # product = 0: pi, sqrt(positive) factors dropped
        m2 = tuple((x, 1) for x, e in m if e > 0 and x.op not in ("pi", "eps"))
        if len(m2) == 1:
            a0 = m2[0][0]
            p = ap(a0)
            if a0.op == "abs":
                return eq(a0.args[0], ZERO)
            if a0.op == "ite":
                c0, x, y = a0.args
                if x.const() is not None or y.const() is not None:
                    return or_(and_(c0, eq(x, ZERO)), and_(not_(c0), eq(y, ZERO)))
        elif not m2:
            return FALSE
        else:
            p = mk_p({m2: F1})
    else:
        r = _lift_ite_cmp(eq, p)
        if r is not None:
            return r
    return mk_b("eq", (p,))


def _lift_ite_cmp(f, p):
    """linear poly = c*ite(b, const, const) + const: lift."""
    its = [m for m in p.t if m]
    if len(its) == 1 and len(its[0]) == 1 and its[0][0][1] == 1:
        a = its[0][0][0]
        if a.op == "ite" and a.args[1].const() is not None and a.args[2].const() is not None:
            c = p.t[its[0]]
            k = num(p.t.get((), F0))
            return or_(
                and_(a.args[0], f(a.args[1] * c + k, ZERO)),
                and_(not_(a.args[0]), f(a.args[2] * c + k, ZERO)),
            )
    return None


def le(a, b):
    """a <= b"""
    p = to_p(a) - to_p(b)
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if nonneg_syntactic(-p):
        return TRUE
    p = _scale(p, True)
    r = _lift_ite_cmp(le, p)
    if r is not None:
        return r
    if p.is_int:
        # primitive over non-constant part: tighten constant
        g = 0
        for m, x in p.t.items():
            if m:
                g = math.gcd(g, abs(int(x)))
        c0 = p.t.get((), F0)
        if g > 1:
            d = {m: x / g for m, x in p.t.items() if m}
            k = math.ceil(c0 / g)
            if k:
                d[()] = Fraction(k)
            p = mk_p(d)
    return mk_b("le", (p,))


def lt(a, b):
    p = to_p(a) - to_p(b)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if nonneg_syntactic(p):
        return FALSE
    p = _scale(p, True)
    if p.is_int:
        return le(p + ONE, ZERO)
    r = _lift_ite_cmp(lt, p)
    if r is not None:
        return r
    return mk_b("lt", (p,))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return not_(eq(a, b))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return lt(ZERO, b.args[0])
    if b.op == "lt":
        return le(ZERO, b.args[0])
    if b.op == "and":
        return or_(*[not_(x) for x in b.args])
    if b.op == "or":
        return and_(*[not_(x) for x in b.args])
    return mk_b("not", (b,))


def _nary(op, bs, unit, zero):
    out = []
    seen = set()
    stack = list(bs)[::-1]
    while stack:
        b = to_b(stack.pop())
        if b is unit:
            continue
        if b is zero:
            return zero
        if b.op == op:
            stack.extend(reversed(b.args))
            continue
        if b in seen:
            continue
        if not_(b) in seen:
            return zero
        seen.add(b)
        out.append(b)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.id)
    return mk_b(op, tuple(out))


def and_(*bs):
    r = _nary("and", bs, TRUE, FALSE)
    return r


def or_(*bs):
    r = _nary("or", bs, FALSE, TRUE)
    if r.op == "or":
        # absorption: x or (x and y)
        keep = []
        s = set(r.args)
        for b in r.args:
            if b.op == "and" and any(x in s for x in b.args):
                continue
            if b.op == "and":
                # (not x and y) or x -> y or x
                na = tuple(x for x in b.args if not_(x) not in s)
                if len(na) != len(b.args):
                    b = and_(*na)
            keep.append(b)
        if len(keep) != len(r.args) or any(a is not b for a, b in zip(keep, r.args)):
            return or_(*keep)
    return r


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def canon_cond(c):
    """(cond, swapped) with a canonical orientation."""
    if c.op == "not":
        return c.args[0], True
    if c.op in ("le", "lt"):
        if lead_sign(c.args[0]) < 0:
            n = not_(c)
            if n.op in ("le", "lt") and lead_sign(n.args[0]) > 0:
                return n, True
    if c.op == "or":
        return not_(c), True
    return c, False


def ite(c, a, b):
    c = to_b(c)
    if c is TRUE:
        return to_p(a)
    if c is FALSE:
        return to_p(b)
    a, b = to_p(a), to_p(b)
    if a is b:
        return a
    c, sw = canon_cond(c)
    if sw:
        a, b = b, a
    # shallow simplification of nested ites on the same condition
    a = _assume_shallow(a, c, True)
    b = _assume_shallow(b, c, False)
    if a is b:
        return a
    r = _empty_sum(c, a, b)
    if r is not None:
        return r
    return ap(mk_atom("ite", (c, a, b), "int" if a.is_int and b.is_int else "real"))


def _empty_sum(c, a, b):
    """ite(n <= 0, 0, sums over [0, n)) is the sums."""
    if c.op not in ("lt", "le"):
        return None
    for z, s, neg in ((a, b, False), (b, a, True)):
        if z.t or not s.t:
            continue
        ns = set()
        for m in s.t:
            sm = [x.args[0] for x, e in m if x.op == "sum" and e == 1]
            if not sm:
                return None
            ns.update(sm[:1]) if len(sm) == 1 else ns.update(sm)
        if len(ns) == 1:
            n = ns.pop()
            if (not neg and c is le(n, ZERO)) or (neg and c is not_(le(n, ZERO))):
                return s
    return None


def _assume_shallow(p, c, val):
    for m in p.t:
        for a, e in m:
            if a.op == "ite" and a.args[0] is c:
                return subst(p, {a: a.args[1] if val else a.args[2]})
    return p


def minv(a, b):
    return ite(le(a, b), a, b)


def maxv(a, b):
    return ite(le(a, b), b, a)


def solve_eq_for(c, va):
    """cond is `va == t` -> t (P) if linear with coefficient +-1/anything in va."""
    if c.op != "eq":
        return None
    p = c.args[0]
    coef = None
    rest = {}
    for m, k in p.t.items():
        if va in (a for a, e in m):
            if m == ((va, 1),):
                coef = k
            else:
                return None
        else:
            if any(va in free_atoms(a) for a, e in m):
                return None
            rest[m] = k
    if coef is None:
        return None
    r = mk_p({m: -k / coef for m, k in rest.items()})
    if va.sort == "int" and not r.is_int:
        return None
    return r


# --------------------------------------------------------------------------
# Free atoms and substitution
# --------------------------------------------------------------------------
_EMPTY = frozenset()


def free_atoms(x):
    """All atoms occurring in x (including inside bodies), as a frozenset."""
    if isinstance(x, Atom):
        if x._free is None:
            s = {x}
            for y in x.args:
                s |= free_atoms(y)
            x._free = frozenset(s)
        return x._free
    if isinstance(x, P):
        if x._free is None:
            s = set()
            for m in x.t:
                for a, e in m:
                    s |= free_atoms(a)
            x._free = frozenset(s)
        return x._free
    if isinstance(x, B):
        if x._free is None:
            s = set()
            for y in x.args:
                s |= free_atoms(y)
            x._free = frozenset(s)
        return x._free
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= free_atoms(y)
        return frozenset(s)
    return _EMPTY


_open_cache = {}


def open_bvs(x):
    """Bound-variable indices that occur in x outside their binder."""
    if isinstance(x, (P, Atom, B)):
        r = _open_cache.get(x)
        if r is not None:
            return r
        if isinstance(x, P):
            s = set()
            for m in x.t:
                for a, e in m:
                    s |= open_bvs(a)
        elif isinstance(x, Atom) and x.op == "bv":
            s = {x.args[0]}
        elif x.op in ("sum", "forall"):
            n, body, k = x.args
            s = open_bvs(n) | (open_bvs(body) - {k})
        else:
            s = set()
            for y in x.args:
                s |= open_bvs(y)
        r = frozenset(s)
        _open_cache[x] = r
        return r
    if isinstance(x, tuple):
        if x and x[0] == "fn":
            return frozenset((open_bvs(x[1]) - {x[3]}) | open_bvs(x[2]))
        s = set()
        for y in x:
            s |= open_bvs(y)
        return frozenset(s)
    return _EMPTY


def subst(x, mp, cache=None):
    """Simultaneous substitution of atoms (Atom -> P) and booleans (B -> B)."""
    if not mp:
        return x
    if cache is None:
        cache = {}
        keys = frozenset(k for k in mp if isinstance(k, Atom))
        cache["keys"] = keys
        cache["bkeys"] = any(isinstance(k, B) for k in mp)
        cache["apps"] = mp.get("apps")
    return _subst(x, mp, cache)


def _touch(x, cache):
    if cache["bkeys"]:
        return True
    fa = free_atoms(x)
    if cache["apps"]:
        names = cache["apps"]
        for a in fa:
            if a.op == "app" and a.args[0] in names:
                return True
    return not cache["keys"].isdisjoint(fa)


def replace_apps(x, funs):
    """Replace every application of the named functions by a computed term."""
    return subst(x, {"apps": funs})


def _subst(x, mp, cache):
    if isinstance(x, P):
        r = cache.get(x)
        if r is not None:
            return r
        if not _touch(x, cache):
            cache[x] = x
            return x
        acc = ZERO
        plain = {}
        for m, c in x.t.items():
            changed = False
            facs = []
            keep = []
            for a, e in m:
                na = _subst_atom(a, mp, cache)
                if na is None:
                    keep.append((a, e))
                else:
                    changed = True
                    facs.append((na, e))
            if not changed:
                plain[m] = c
            else:
                t = mk_p({tuple(keep): c})
                for p, e in facs:
                    if e == 1:
                        t = mul(t, p)
                    else:
                        t = mul(t, power(p, e))
                acc = acc + t
        if plain:
            acc = acc + mk_p(plain)
        cache[x] = acc
        return acc
    if isinstance(x, B):
        r = cache.get(x)
        if r is not None:
            return r
        if x in mp:
            r = mp[x]
        elif x.op in ("true", "false"):
            r = x
        elif not _touch(x, cache):
            r = x
        elif x.op == "eq":
            r = eq(_subst(x.args[0], mp, cache), ZERO)
        elif x.op == "le":
            n = not_(x)
            if n in mp:
                r = not_(mp[n])
            else:
                r = le(_subst(x.args[0], mp, cache), ZERO)
        elif x.op == "lt":
            n = not_(x)
            if n in mp:
                r = not_(mp[n])
            else:
                r = lt(_subst(x.args[0], mp, cache), ZERO)
        elif x.op == "not":
            r = not_(_subst(x.args[0], mp, cache))
        elif x.op == "and":
            r = and_(*[_subst(y, mp, cache) for y in x.args])
        elif x.op == "or":
            r = or_(*[_subst(y, mp, cache) for y in x.args])
        elif x.op == "pred":
            r = mk_b(
                "pred",
                (x.args[0],) + tuple(_subst(y, mp, cache) for y in x.args[1:]),
            )
        elif x.op == "forall":
            # args: (n, body B, k) bounded quantifier
            n, body, k = x.args
            v = fresh("q", "int", ZERO, n)
            va = only_atom(v)
            b2 = subst(body, {mk_atom("bv", (k,), "int"): v})
            n2 = _subst(n, mp, cache)
            r = forall(n2, va, subst(b2, mp))
        else:
            raise Unsupported("subst bool %s" % x.op)
        cache[x] = r
        return r
    return x


def forall(n, v, body):
    va = v if isinstance(v, Atom) else only_atom(v)
    n = to_p(n)
    if body is TRUE:
        return TRUE
    ni = n.as_int()
    if ni is not None and ni <= 64:
        return and_(*[subst(body, {va: num(i)}) for i in range(max(ni, 0))])
    b2, k = close_over(body, va)
    b = mk_b("forall", (n, b2, k))
    b.h = max(k + 1, height(n))
    return b


def _subst_atom(a, mp, cache):
    """Returns P replacement or None when unchanged."""
    if a in mp:
        return mp[a]
    if not a.args:
        return None
    if not _touch(a, cache):
        return None
    key = ("A", a)
    if key in cache:
        return cache[key]
    op = a.op
    r = None
    if op == "var":
        r = None
    elif op == "bv":
        r = None
    elif op == "sum":
        n, body, k = a.args
        bva = mk_atom("bv", (k,), "int")
        n2 = _subst(n, mp, cache)
        if not _touch(body, cache):
            b2 = body
            r = sum_raw(n2, b2, k)
        else:
            v = fresh("s", "int", ZERO, n2)
            b1 = subst(body, {bva: v})
            b2 = subst(b1, mp)
            r = sum_(n2, v, b2)
    elif op == "rmax":
        fn2 = subst_fn(a.args[0], mp, cache)
        r = rmax_fn(fn2) if fn2 is not a.args[0] else None
    elif op in ("segk", "segm"):
        fn, q = a.args
        fn2 = subst_fn(fn, mp, cache)
        q2 = _subst(q, mp, cache)
        r = segk(fn2, q2) if op == "segk" else segm(fn2, q2)
    else:
        na = tuple(
            _subst(y, mp, cache) if isinstance(y, (P, B)) else y for y in a.args
        )
        if op == "app" and cache["apps"] and na[0] in cache["apps"]:
            r = to_p(cache["apps"][na[0]](*na[1:]))
        elif na == a.args:
            r = None
        else:
            r = rebuild(op, na, a.sort)
    cache[key] = r
    return r


def subst_fn(fn, mp, cache):
    tag, body, n, k = fn
    if not _touch(body, cache) and not _touch(n, cache):
        return fn
    v = fresh("f", "int", ZERO, n)
    b1 = subst(body, {mk_atom("bv", (k,), "int"): v})
    b2 = subst(b1, mp)
    return mk_fn(only_atom(v), b2, _subst(n, mp, cache))


REBUILD = {}


def rebuild(op, na, sort):
    if op == "app":
        f = REBUILD.get(na[0])
        if f is not None:
            return f(*na[1:])
        return ap(mk_atom("app", na, sort))
    if op == "sqrt":
        return sqrt(na[0])
    if op == "sin":
        return sin(na[0])
    if op == "cos":
        return cos(na[0])
    if op == "abs":
        return absv(na[0])
    if op == "floor":
        return floor(na[0])
    if op == "ite":
        return ite(*na)
    if op == "den":
        return na[0]
    if op == "box":
        return box(na[0])
    if op == "arctan":
        return arctan(na[0])
    if op == "arctan2":
        return arctan2(*na)
    if op == "fdiv":
        return floordiv(*na)
    if op == "mod":
        return mod(*na)
    return ap(mk_atom(op, na, sort))


def clear_caches():
    _mul_cache.clear()
    _inv_cache.clear()


def renormalise(x):
    """Rebuild a term bottom-up (used when the range context got stronger)."""
    return subst(x, {mk_b("pred", ("__renorm__",)): TRUE})


# --------------------------------------------------------------------------
# Numeric evaluation (for refutation witnesses)
# --------------------------------------------------------------------------
class EvalFail(Exception):
    pass


def _hash_float(key, lo=-1.0, hi=1.0):
    h = hashlib.sha256(repr(key).encode()).digest()
    u = int.from_bytes(h[:7], "big") / float(1 << 56)
    return lo + (hi - lo) * u


class Evaluator:
    """env maps var names to numbers; funs maps app names to callables.
    Unknown applications are interpreted by a fixed pseudo-random function."""

    def __init__(self, env=None, funs=None, salt=0):
        self.env = dict(env or {})
        self.funs = dict(funs or {})
        self.salt = salt
        self.cache = {}
        self.int_range = (1, 3)
        self.near = False  # a rounding tie decided a value

    def tie(self, v, *ps):
        """Note a real number so close to an integer that rounding decides
        which side floating-point code puts it on."""
        if isinstance(v, float) and abs(v - round(v)) < 1e-9 * max(1.0, abs(v)):
            if any(y.sort != "int" and y.op != "bv" for p in ps for y in free_atoms(p)):
                self.near = True

    def p(self, x):
        s = 0.0
        allint = True
        for m, c in x.t.items():
            v = c
            for a, e in m:
                av = self.atom(a)
                if e < 0:
                    if av == 0:
                        raise EvalFail("division by zero")
                    v = float(v) * float(av) ** e
                else:
                    if isinstance(av, (int, Fraction)) and isinstance(v, (int, Fraction)):
                        v = v * av**e
                    else:
                        v = float(v) * float(av) ** e
            s = s + v if not isinstance(v, float) else float(s) + v
        if isinstance(s, Fraction) and s.denominator == 1:
            return int(s)
        if isinstance(s, float) and s == int(s) and abs(s) < 1e9 and x.is_int:
            return int(s)
        return s

    def atom(self, a):
        if a in self.cache:
            return self.cache[a]
        v = self._atom(a)
        if not any(y.op == "bv" for y in free_atoms(a)):
            self.cache[a] = v
        return v

    def _val(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, B):
            return self.b(x)
        return x

    def _atom(self, a):
        op = a.op
        if op == "pi":
            return math.pi
        if op == "eps":
            return 2.220446049250313e-16
        if op == "var":
            name = a.args[0]
            if name in self.env:
                return self.env[name]
            if a.sort == "int":
                lo = self.p(a.args[1]) if isinstance(a.args[1], P) else self.int_range[0]
                hi = self.p(a.args[2]) if isinstance(a.args[2], P) else None
                if hi is not None:
                    if hi <= lo:
                        raise EvalFail("empty range")
                    u = _hash_float((name, self.salt), 0, 1)
                    v = lo + int(u * (hi - lo))
                else:
                    u = _hash_float((name, self.salt), 0, 1)
                    v = lo + int(u * 3)
            else:
                v = _hash_float((name, self.salt), -2, 2)
                if isinstance(a.args[1], P):
                    v = float(self.p(a.args[1])) + abs(v) + 0.1
            self.env[name] = v
            return v
        if op == "app":
            args = tuple(self._val(x) for x in a.args[1:])
            f = self.funs.get(a.args[0])
            if f is not None:
                return f(*args)
            key = (a.args[0], tuple(_rnd(x) for x in args), self.salt)
            if a.sort == "int":
                lo, hi = self.int_range
                u = _hash_float(key, 0, 1)
                lo2 = lo if a.args[0] in POS_APPS else lo - 1
                return lo2 + int(u * (hi - lo2 + 1))
            v = _hash_float(key, -2, 2)
            if a.args[0] in NONNEG_APPS:
                v = abs(v) + 0.01
            return v
        if op == "sqrt":
            v = self.p(a.args[0])
            if v < 0:
                if v > -1e-9:
                    return 0.0
                raise EvalFail("sqrt of negative")
            return math.sqrt(v)
        if op == "sin":
            return math.sin(self.p(a.args[0]))
        if op == "cos":
            return math.cos(self.p(a.args[0]))
        if op == "abs":
            return abs(self.p(a.args[0]))
        if op == "floor":
            v = self.p(a.args[0])
            self.tie(v, a.args[0])
            if isinstance(v, float) and abs(v - round(v)) < 1e-9:
                return int(round(v))
            return math.floor(v)
        if op in ("den", "box"):
            return self.p(a.args[0])
        if op == "ite":
            return self.p(a.args[1]) if self.b(a.args[0]) else self.p(a.args[2])
        if op == "arctan":
            return math.atan(self.p(a.args[0]))
        if op == "arctan2":
            return math.atan2(self.p(a.args[0]), self.p(a.args[1]))
        if op == "fdiv":
            s = self.p(a.args[1])
            if s == 0:
                raise EvalFail("div by 0")
            self.tie(self.p(a.args[0]) / s, *a.args)
            return math.floor(self.p(a.args[0]) / s)
        if op == "mod":
            s = self.p(a.args[1])
            if s == 0:
                raise EvalFail("mod by 0")
            x = self.p(a.args[0])
            self.tie(x / s, *a.args)
            return x - s * math.floor(x / s)
        if op == "sum":
            n, body, k = a.args
            nn = self.p(n)
            if nn > 200:
                raise EvalFail("large sum")
            bva = mk_atom("bv", (k,), "int")
            s = 0
            for i in range(int(nn)):
                s = s + self.p(subst(body, {bva: num(i)}))
            return s
        if op == "rmax":
            fn = a.args[0]
            n = int(self.p(fn[2]))
            if n < 1 or n > 200:
                raise EvalFail("max of %d" % n)
            return max(self.p(apply_fn(fn, num(i))) for i in range(n))
        if op in ("segk", "segm"):
            fn, q = a.args
            qv = self.p(q)
            n = self.p(fn[2])
            r = qv
            for i in range(int(n)):
                d = self.p(apply_fn(fn, num(i)))
                if r < d:
                    return i if op == "segk" else r
                r -= d
            raise EvalFail("segment out of range")
        raise EvalFail("eval " + op)

    def b(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        op = b.op
        if op == "eq":
            v = self.p(b.args[0])
            return v == 0 if isinstance(v, (int, Fraction)) else abs(v) < 1e-11
        if op in ("le", "lt"):
            v = self.p(b.args[0])
            if isinstance(v, float) and 0 < abs(v) < 1e-12:
                self.near = True
            return v <= 0 if op == "le" else v < 0
        if op == "not":
            return not self.b(b.args[0])
        if op == "and":
            return all(self.b(x) for x in b.args)
        if op == "or":
            return any(self.b(x) for x in b.args)
        if op == "pred":
            name = b.args[0]
            args = tuple(self._val(x) for x in b.args[1:])
            if name in self.funs:
                return self.funs[name](*args)
            return (
                _hash_float((name, tuple(_rnd(x) for x in args), self.salt), 0, 1) < 0.5
            )
        if op == "forall":
            n, body, k = b.args
            nn = int(self.p(n))
            bva = mk_atom("bv", (k,), "int")
            return all(self.b(subst(body, {bva: num(i)})) for i in range(nn))
        raise EvalFail("evalb " + op)


def _rnd(x):
    if isinstance(x, float):
        if x == int(x) and abs(x) < 1e6:
            return int(x)
        return float("%.9g" % x)
    if isinstance(x, Fraction):
        return float(x)
    return x
