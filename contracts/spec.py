"""Specification vocabulary shared by the contracts (written from the
documentation / the physics, not from the code)."""
from contract import *  # noqa
from terms import *  # noqa
import terms as T
import math
import numpy as np

H = num(Fraction(1, 2))
Q = num(Fraction(1, 4))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def scale(s, a):
    return tuple(s * x for x in a)


def dot(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = r + x * y
    return r


def norm(a):
    return T.sqrt(dot(a, a))


def matvec(m, v):
    return tuple(dot(r, v) for r in m)


SQUIRE = Fraction(1, 10000)
LAMB = Fraction("1.25643")


def biot_savart(p, o, t, s, age, nu):
    """Velocity induced at p by the straight segment o->t of circulation s with
    a core that has aged for `age` in a fluid of viscosity nu; zero when p
    touches the segment or its line within machine tolerance."""
    rc2 = num(4 * LAMB) * (nu + num(SQUIRE) * T.absv(s)) * age
    r0 = sub(t, o)
    r1 = sub(o, p)
    r2 = sub(t, p)
    r3 = cross(r1, r2)
    n1, n2 = norm(r1), norm(r2)
    n33 = dot(r3, r3)
    if n33 is ZERO:
        return (ZERO,) * 3  # it touches
    c3 = dot(r1, r2)
    c = s / (4 * T.PI) * (n1 + n2) * (n1 * n2 - c3) / (n1 * n2 * (n33 + dot(r0, r0) * rc2))
    touch = or_(lt(n1, T.EPS), lt(n2, T.EPS), lt(n33, T.EPS))
    return tuple(ite(touch, ZERO, c * x) for x in r3)


def bs_num(p, o, t, s, age, nu):
    p, o, t = (np.array([float(x) for x in v]) for v in (p, o, t))
    rc2 = 4 * float(LAMB) * (float(nu) + 1e-4 * abs(float(s))) * float(age)
    r1, r2, r0 = o - p, t - p, t - o
    r3 = np.cross(r1, r2)
    n1, n2, n33 = np.linalg.norm(r1), np.linalg.norm(r2), float(r3 @ r3)
    e = np.finfo(float).eps
    if n1 < e or n2 < e or n33 < e:
        return np.zeros(3)
    return float(s) / (4 * math.pi) * (n1 + n2) * (n1 * n2 - r1 @ r2) / (n1 * n2 * (n33 + r0 @ r0 * rc2)) * r3


# kernel symbols: LVc(p, o, t) is component c of the velocity of a segment of
# unit circulation without core; LAc(p, o, t, s, age, nu) the general one.
def _lv(c):
    return lambda *a: float(bs_num(a[0:3], a[3:6], a[6:9], 1.0, 0.0, 0.0)[c])


def _la(c):
    return lambda *a: float(bs_num(a[0:3], a[3:6], a[6:9], a[9], a[10], a[11])[c])


KERNEL_FUNS = {}
for _c in range(3):
    KERNEL_FUNS["LV%d" % _c] = _lv(_c)
    KERNEL_FUNS["LA%d" % _c] = _la(_c)


def leg(p, o, t, s, age=None, nu=ZERO):
    """Velocity of one segment in terms of the kernel symbols."""
    if age is None:
        return tuple(s * T.app("LV%d" % c, *p, *o, *t) for c in range(3))
    return tuple(T.app("LA%d" % c, *p, *o, *t, s, age, nu) for c in range(3))


RING = (("br", "fr"), ("fr", "fl"), ("fl", "bl"), ("bl", "br"))
SHOE = (("br", "fr"), ("fr", "fl"), ("fl", "bl"))
CHORD = (("br", "fr"), ("fl", "bl"))
ORDER = ("br", "fr", "fl", "bl")


def legs_vel(p, c, s, legs, age=None, nu=ZERO):
    """c: dict of corners br fr fl bl"""
    v = (ZERO, ZERO, ZERO)
    for a, b in legs:
        v = add(v, leg(p, c[a], c[b], s, age, nu))
    return v


def _ite(x):
    if isinstance(x, P) and len(x.t) == 1:
        ((m, c),) = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite":
            return m[0][0].args
    return None


def shrunk(cs, s):
    """A vortex whose corners coincide unless c holds induces what one without
    strength does then (C03: a segment of no length, or of no strength, induces
    nothing)."""
    xs = [_ite(x) for v in cs.values() for x in v]
    if any(x is None or x[0] is not xs[0][0] for x in xs):
        return cs, s
    c = xs[0][0]
    for k, cc in ((1, c), (2, not_(c))):
        away = [tuple(_ite(x)[3 - k] for x in v) for v in cs.values()]
        if all(v == away[0] for v in away):
            return {q: tuple(_ite(x)[k] for x in v) for q, v in cs.items()}, ite(cc, s, ZERO)
    return cs, s


NAMES = dict(
    br="back_right_vortex_vertices",
    fr="front_right_vortex_vertices",
    fl="front_left_vortex_vertices",
    bl="back_left_vortex_vertices",
)
FAMILY = {
    "ring_vortices": RING,
    "horseshoe_vortices": SHOE,
    "ring_vortices_chordwise_segments": CHORD,
}


def _rows(I, st, a):
    nd = I.lib.nd(st, a)
    return nd


def kernel_contracts(cx):
    """Replace the induced-velocity functions of aerodynamics by the contracts
    proved for them under C03."""
    cx.num_funs.update(KERNEL_FUNS)

    def numof(I, st, v):
        return I.lib.n(v)

    def make_line(collapsed):
        def summ(I, st, env):
            P_, O_, T_, S_ = (I.lib.nd(st, env[k]) for k in ("points", "origins", "terminations", "strengths"))
            return build(I, st, P_, {"o": O_, "t": T_}, S_, env.get("ages"), env.get("nu"), (("o", "t"),), collapsed)

        return summ

    def make(fam, collapsed):
        def summ(I, st, env):
            P_ = I.lib.nd(st, env["points"])
            C_ = {k: I.lib.nd(st, env[NAMES[k]]) for k in ORDER}
            S_ = I.lib.nd(st, env["strengths"])
            return build(I, st, P_, C_, S_, env.get("ages"), env.get("nu"), FAMILY[fam], collapsed)

        return summ

    def build(I, st, P_, C_, S_, ages, nu, legs, collapsed):
        lib = I.lib
        M = S_.shape[0]
        for k, c in C_.items():
            I.safe(st, "vortex arrays of one length", and_(eq(c.shape[0], M), eq(c.shape[1], 3)))
        N = P_.shape[0]
        nu = ZERO if nu is None else lib.n(nu)
        A_ = None if ages is None else lib.nd(st, ages)
        if A_ is not None:
            I.safe(st, "ages of the same length", eq(A_.shape[0], M))

        def one(n, m):
            p = tuple(lib.n(P_.get((n, num(c)))) for c in range(3))
            cs = {k: tuple(lib.n(v.get((m, num(c)))) for c in range(3)) for k, v in C_.items()}
            s = lib.n(S_.get((m,)))
            age = None if A_ is None else lib.n(A_.get((m,)))
            return legs_vel(p, *shrunk(cs, s), legs, age, nu)

        if collapsed:
            def get(idx):
                n, c = idx
                ci = c.as_int()
                if ci is None:
                    raise Unsupported("component index")
                return lib.red(st, M, lambda m: one(n, m)[ci])

            return I.alloc(st, (N, num(3)), get, "real")

        def get3(idx):
            n, m, c = idx
            ci = c.as_int()
            if ci is None:
                raise Unsupported("component index")
            return one(n, m)[ci]

        return I.alloc(st, (N, M, num(3)), get3, "real")

    for pre, col in (("collapsed", True), ("expanded", False)):
        cx.summary("aerodynamics.%s_velocities_from_line_vortices" % pre, make_line(col))
        for fam in FAMILY:
            cx.summary("aerodynamics.%s_velocities_from_%s" % (pre, fam), make(fam, col))
