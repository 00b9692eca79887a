"""C03 Biot-Savart kernels."""
from spec import *


def row(name, i):
    return tuple(T.app(name, i, num(c)) for c in range(3))


def inputs(cx, names, aged):
    N, M = cx.dim("N"), cx.dim("M")
    pts = cx.arr("P", (N, num(3)))
    d = {k: cx.arr(k, (M, num(3))) for k in names}
    S = cx.arr("S", (M,))
    cx.let(pts=pts, S=S, **d)
    if aged:
        cx.ranges["A"] = (0.0, 2.0)
        T.NONNEG_APPS.add("A")
        T.NONNEG_APPS.add("nu")
        cx.let(A=cx.arr("A", (M,), lo=0.0, hi=2.0), nu=cx.real("nu", lo=0.0, hi=0.5))
    return N, M


def age_nu(m, aged):
    return (T.app("A", m), T.app("nu")) if aged else (ZERO, ZERO)


def line(collapsed, aged):
    def c(cx):
        N, M = inputs(cx, ("O", "E"), aged)
        fn = "collapsed" if collapsed else "expanded"
        extra = ", ages=A, nu=nu" if aged else ""
        cx.exec("v = ps.aerodynamics.%s_velocities_from_line_vortices(points=pts, origins=O, terminations=E, strengths=S%s)" % (fn, extra))

        def one(p, m, c):
            a, nu = age_nu(m, aged)
            return biot_savart(row("P", p), row("O", m), row("E", m), T.app("S", m), a, nu)[c]

        cx.post("no input is changed", "(pts[p, 0], O[m, 1], E[m, 2], S[m])", lambda p, m: (T.app("P", p, ZERO), T.app("O", m, ONE), T.app("E", m, num(2)), T.app("S", m)),
                over=[("p", N), ("m", M)])
        if collapsed:
            for c in range(3):
                def want(p, c=c):
                    m = fresh("m", "int", ZERO, M)
                    return T.sum_(M, T.only_atom(m), one(p, m, c))

                cx.post("cumulative velocity is the sum of Biot-Savart velocities [%d]" % c, "v[p, %d]" % c, want, over=[("p", N)])
        else:
            for c in range(3):
                cx.post("velocity of each vortex is its Biot-Savart velocity [%d]" % c, "v[p, m, %d]" % c,
                        lambda p, m, c=c: one(p, m, c), over=[("p", N), ("m", M)])
        cx.post("shape", "v.shape", lambda: (N, num(3)) if collapsed else (N, M, num(3)))

    return c


for col in (True, False):
    for aged in (True, False):
        contract("C03", "line %s %s" % ("collapsed" if col else "expanded", "aged" if aged else "unaged"))(line(col, aged))


def family(fam, collapsed, aged):
    def c(cx):
        kernel_contracts(cx)
        for pre in ("collapsed", "expanded"):
            for f in FAMILY:
                cx.I.summaries.pop("aerodynamics.%s_velocities_from_%s" % (pre, f))
        N, M = inputs(cx, ORDER, aged)
        fn = "collapsed" if collapsed else "expanded"
        extra = ", ages=A, nu=nu" if aged else ""
        args = ", ".join("%s=%s" % (NAMES[k], k) for k in ORDER)
        cx.exec("v = ps.aerodynamics.%s_velocities_from_%s(points=pts, %s, strengths=S%s)" % (fn, fam, args, extra))

        def one(p, m):
            a, nu = (T.app("A", m), T.app("nu")) if aged else (None, ZERO)
            return legs_vel(row("P", p), {k: row(k, m) for k in ORDER}, T.app("S", m), FAMILY[fam], a, nu)

        if collapsed:
            for c in range(3):
                def want(p, c=c):
                    m = fresh("m", "int", ZERO, M)
                    return T.sum_(M, T.only_atom(m), one(p, m)[c])

                cx.post("sum over exactly the legs of every vortex [%d]" % c, "v[p, %d]" % c, want, over=[("p", N)])
        else:
            cx.post("sum over exactly the legs of the vortex", "v[p, m]", lambda p, m: one(p, m), over=[("p", N), ("m", M)])
        cx.post("shape", "v.shape", lambda: (N, num(3)) if collapsed else (N, M, num(3)))

    return c


for fam in FAMILY:
    for col in (True, False):
        if fam.endswith("segments") and not col:
            continue
        for aged in (True, False):
            contract("C03", "%s %s %s" % (fam, "collapsed" if col else "expanded", "aged" if aged else "unaged"))(family(fam, col, aged))


@contract("C03", "kernel lemmas", concrete=False)
def lemmas(cx):
    """The kernel symbols used by every caller: linear in the strength without
    ageing, zero for zero strength, and finite (denominator never zero off the
    segment)."""
    cx.let(z=ZERO)
    cx.exec("z = z")
    p, o, t = (tuple(cx.real("%s%d" % (n, i)) for i in range(3)) for n in "pot")
    s = cx.real("s")
    u = biot_savart(p, o, t, ONE, ZERO, ZERO)
    v = biot_savart(p, o, t, s, ZERO, ZERO)
    for c in range(3):
        cx.post("linear in strength [%d]" % c, "z + 0", None)
        cx.posts[-1]["expr"] = "z"
        cx.posts[-1]["want"] = lambda c=c: v[c] - s * u[c]
    w = biot_savart(p, t, o, s, ZERO, ZERO)
    for c in range(3):
        cx.posts.append(dict(name="opposite segments cancel [%d]" % c, expr="z", want=lambda c=c: v[c] + w[c], over=[], tol=None))
    n = biot_savart(p, o, o, s, cx.real("age"), cx.real("nu"))
    for k, x in (("of no length", n), ("without strength", biot_savart(p, o, t, ZERO, cx.real("age"), cx.real("nu")))):
        for c in range(3):
            cx.posts.append(dict(name="a segment %s induces nothing [%d]" % (k, c), expr="z", want=lambda c=c, x=x: x[c], over=[], tol=None))
