"""C20: a control surface turns exactly what lies behind its hinge."""
import math
from world import *


def airfoil(cx):
    """Any airfoil of n + 1 stations along the camber line whose first s are
    ahead of (or at) the hinge and the others behind it; its outline is the
    camber line plus and minus upper_minus_mcl (see the contract of
    populate_mcl_coordinates)."""
    s = cx.dim("s", hi=3)
    n = s + cx.dim("m", hi=3)
    h = cx.real("h", lo=0.4, hi=0.6)
    cx.nonneg("ahead", ZERO, lo=0.0, hi=0.0)
    cx.pos("behind", ZERO)
    cx.salted["ahead"] = lambda r, salt, k: (0.05 + 0.01 * salt) * (10 - float(k)) if salt % 3 else (0.1 * float(10 - k) if k < 2 else 0.0)
    cx.salted["behind"] = lambda r, salt, k: 0.05 + 0.03 * float(k)
    cx.real("my", ZERO)
    cx.real("um", ZERO, ZERO)

    def mcl(k, c):
        x = h + ite(lt(k, s), -T.app("ahead", k), T.app("behind", k))
        return ite(eq(c, ZERO), x, T.app("my", k))

    def out(k, c):
        up = lambda j: mcl(j, c) + T.app("um", j, c)
        lo = lambda j: mcl(j, c) - T.app("um", j, c)
        return ite(lt(k, n), up(n - ONE - k), lo(k - n + ONE))

    af = cx.obj("geometry.Airfoil", name=cx.string("nm"), mcl_coordinates=cx.tab((n, num(2)), mcl), upper_minus_mcl=cx.tab((n, num(2)), lambda k, c: T.app("um", k, c)),
                thickness=cx.tab((n, num(2)), lambda k, c: ite(eq(c, ZERO), mcl(k, ZERO), T.app("th", k))),
                coordinates=cx.tab((n + n - ONE, num(2)), out), repanel=cx.boolean("rp"), n_points_per_side=cx.dim("npp"))
    # the camber line at the hinge, by linear interpolation
    a, b = s - ONE, s
    hy = T.app("my", a) + (h - mcl(a, ZERO)) * (T.app("my", b) - T.app("my", a)) / (mcl(b, ZERO) - mcl(a, ZERO))
    return af, s, n, h, hy, lambda k: (mcl(k, ZERO), T.app("my", k)), lambda k: (T.app("um", k, ZERO), T.app("um", k, ONE))


def turned(p, c, d):
    """p turned about c by d degrees, trailing edge down for d > 0"""
    t = deg(d)
    x, y = p[0] - c[0], p[1] - c[1]
    return (c[0] + T.cos(t) * x + T.sin(t) * y, c[1] - T.sin(t) * x + T.cos(t) * y)


@contract("C20", "deflected airfoil")
def deflected(cx):
    af, s, n, h, hy, mcl, um = airfoil(cx)
    d = cx.real("d", lo=-80, hi=80)
    cx.require(le(d, num(90)))
    cx.require(le(num(-90), d))
    cx.let(af=af, d=d, h=h, n=n)
    cx.exec("""
    r = af.add_control_surface(deflection=d, hinge_point=h)
    """)
    c = (h, hy)

    def point(p):
        def f(k):
            q = p(k)
            t = turned(q, c, d)
            return tuple(ite(lt(k, s), x, y) for x, y in zip(q, t))

        return f

    upper = lambda k: tuple(x + y for x, y in zip(mcl(k), um(k)))
    lower = lambda k: tuple(x - y for x, y in zip(mcl(k), um(k)))
    over = [("k", n)]
    cx.post("number of points", "(len(r.coordinates), len(r.mcl_coordinates))", lambda: (n + n - ONE, n))
    cx.post("camber line: still ahead of the hinge, turned about it behind", "(r.mcl_coordinates[k, 0], r.mcl_coordinates[k, 1])", point(mcl), over=over)
    cx.post("upper side: still ahead of the hinge, turned about it behind", "(r.coordinates[n - 1 - k, 0], r.coordinates[n - 1 - k, 1])", point(upper), over=over)
    cx.post("lower side: still ahead of the hinge, turned about it behind", "(r.coordinates[n + k, 0], r.coordinates[n + k, 1])",
            lambda k: point(lower)(k + ONE), over=[("k", n - ONE)])
    cx.post("the original is left alone", "(af.mcl_coordinates[k, 0], af.mcl_coordinates[k, 1], af.coordinates[k, 0], af.coordinates[k, 1])",
            lambda k: mcl(k) + upper(n - ONE - k), over=over)


@contract("C20", "no deflection")
def straight(cx):
    af, s, n, h, hy, mcl, um = airfoil(cx)
    cx.let(af=af, h=h, n=n)
    cx.exec("r = af.add_control_surface(deflection=0.0, hinge_point=h)")
    cx.post("outline", "(r.coordinates[k, 0], r.coordinates[k, 1])", "(af.coordinates[k, 0], af.coordinates[k, 1])", over=[("k", n + n - ONE)])
    cx.post("camber line", "(r.mcl_coordinates[k, 0], r.mcl_coordinates[k, 1])", lambda k: mcl(k), over=[("k", n)])


@contract("C20", "camber line of an outline")
def camber(cx):
    n = cx.dim("n") + 1
    cx.summary("geometry.Airfoil.leading_edge_index", lambda I, st, env: n - ONE)
    cx.real("xy", ZERO, ZERO)
    cx.salted["xy"] = lambda r, salt, k, c: abs(float(k) - float(r.E.p(n - ONE))) / 7 if c == 0 else r.uniform(-0.2, 0.2)
    cx.let(af=cx.obj("geometry.Airfoil", coordinates=cx.arr("xy", (n + n - ONE, num(2)))), n=n)
    cx.exec("af.populate_mcl_coordinates()")
    cx.post("outline from the camber line", "tuple(af.mcl_coordinates[k, c] + af.upper_minus_mcl[k, c] for c in range(2)) + tuple(af.mcl_coordinates[k, c] - af.upper_minus_mcl[k, c] for c in range(2))",
            "tuple(af.coordinates[n - 1 - k, c] for c in range(2)) + tuple(af.coordinates[n - 1 + k, c] for c in range(2))", over=[("k", n)])
    cx.post("thickness", "af.thickness[k, 0] - af.mcl_coordinates[k, 0]", lambda k: ZERO, over=[("k", n)])


def spaced(endpoint):
    def c(cx):
        n = cx.dim("n") + 1
        a, b = cx.real("a"), cx.real("b")
        cx.let(n=n, a=a, b=b)
        cx.exec("v = ps.functions.cosspace(a, b, n, %s)" % endpoint)
        m = n - ONE if endpoint else n
        cx.post("number of values", "v.shape", lambda: (n,))
        cx.post("every value", "v[k]", lambda k: (a + b) * H - (b - a) * H * T.cos(T.PI * k / m), over=[("k", n)])
        cx.post("first value", "v[0]", lambda: a)
        if endpoint:
            cx.post("last value", "v[n - 1]", lambda: b)
        t = lambda k: T.PI * (2 * k + 1) / (2 * m)
        cx.post("steps: all of one sign, as the sines are of angles between 0 and pi", "v[k + 1] - v[k]",
                lambda k: (b - a) * T.sin(t(k)) * T.sin(T.PI / (2 * m)), over=[("k", n - ONE)])

    return c


contract("C20", "cosine spacing")(spaced(True))
contract("C20", "cosine spacing without the endpoint")(spaced(False))
