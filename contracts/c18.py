"""C18: reference dimensions follow from the geometry."""
from world import *
import c13


def _pa(*a):
    fl, fr, bl, br = _corners(a[:12])
    return abs(float(np.cross(fr - bl, fl - br) @ np.array([float(x) for x in a[12:]]))) / 2


def _corners(a):
    a = [float(x) for x in a]
    return [np.array(a[3 * k:3 * k + 3]) for k in range(4)]


def _perp(n):
    v = np.cross(n, [0.3, -0.5, 0.8])
    return v / np.linalg.norm(v)


def wing(cx, panels=True):
    """Any wing: any number of cross sections with any leading edges and
    chords, any grid of panels, any spanwise direction."""
    panel_contracts(cx)
    cx.num_funs["PA"] = _pa

    def pa(I, st, env):
        n = I.lib.nd(st, env["n_hat"])
        return T.app("PA", *corners_of(I, st, env["self"]), *[I.lib.n(n.get((num(c),))) for c in range(3)])

    cx.summary("panel.Panel.calculate_projected_area", pa)
    X, M, N = cx.dim("X") + 1, cx.dim("M"), cx.dim("N")
    secs = cx.lst(X, lambda x: cx.obj("geometry.WingCrossSection", leading_edge=cx.vec("le", x), chord=cx.pos("c", x)))
    m = cx.vec("m")
    un = tuple(x / norm(cx.v3(m)) for x in cx.v3(m))
    cx.require(gt(dot(cx.v3(m), cx.v3(m)), ZERO))
    uc = cx.vec("uc")
    cx.salted["uc"] = lambda r, salt, c: _perp([float(r.E.p(x)) for x in un])[int(c)]
    grid = cx.objarr((M, N), lambda i, j: cx.obj("panel.Panel", **{k: cx.vec(s, i, j) for k, s in zip(CORN, SHORT)}))
    w = cx.obj("geometry.Wing", wing_cross_sections=secs, symmetric=cx.boolean("sym"), num_chordwise_panels=M, num_spanwise_panels=N, num_panels=M * N,
               unit_normal_vector=cx.tab((num(3),), lambda i: cx.I.lib.select(un, i) if i.as_int() is None else un[i.as_int()]), unit_chordwise_vector=uc, panels=grid)
    cx.let(w=w)
    u = tuple(T.app("uc", num(i)) for i in range(3))
    up = cross(u, un)
    fl = lambda i, j: [T.app(s, i, j, num(c)) for s in SHORT for c in range(3)]
    total = lambda f: cx.I.lib.red(cx.st, M, lambda i: cx.I.lib.red(cx.st, N, lambda j: f(i, j)))
    le = lambda x: tuple(T.app("le", x, num(c)) for c in range(3))
    twice = ite(T.pred("sym"), num(2), ONE)
    return dict(
        wet=lambda: total(lambda i, j: T.app("AREA", *fl(i, j))),
        proj=lambda: total(lambda i, j: T.app("PA", *fl(i, j), *up)),
        span=lambda: twice * T.absv(dot(sub(le(X - ONE), le(ZERO)), un)),
        square=lambda: twice * cx.I.lib.red(cx.st, X - ONE, lambda x: T.absv(dot(sub(le(x + ONE), le(x)), un)) *
                                            (T.app("c", x) * T.app("c", x) + T.app("c", x) * T.app("c", x + ONE) + T.app("c", x + ONE) * T.app("c", x + ONE)) / 3),
        up=up)


@contract("C18", "areas")
def areas(cx):
    s = wing(cx)
    cx.exec("wet, proj, up = w.wetted_area, w.projected_area, w.unit_up_vector")
    cx.post("wetted area: sum of the panels' areas", "wet", s["wet"])
    cx.post("projected area: sum of the panels' projections along the up direction", "proj", s["proj"])
    cx.post("up: chordwise cross spanwise", "up", lambda: s["up"])


@contract("C18", "span")
def span(cx):
    s = wing(cx)
    cx.exec("b = w.span")
    cx.post("span", "b", s["span"])


@contract("C18", "chords")
def chords(cx):
    s = wing(cx)
    area = cx.pos("S")
    fixed(cx, "geometry.Wing", projected_area=area, span=cx.pos("B"))
    cx.exec("mac, smc = w.mean_aerodynamic_chord, w.standard_mean_chord")
    cx.post("mean aerodynamic chord times projected area", "mac", lambda: s["square"]() / area)
    cx.post("standard mean chord", "smc", lambda: area / T.app("B"))


contract("C18", "airplane's reference dimensions and panels")(c13.airplane)
