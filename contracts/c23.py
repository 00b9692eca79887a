"""C23: what is drawn and printed."""
from world import *

LABELS = [("Induced Drag", 0, 0), ("Side Force", 0, 1), ("Lift", 0, 2), ("Rolling Moment", 1, 0), ("Pitching Moment", 1, 1), ("Yawing Moment", 1, 2),
          ("CDi", 2, 0), ("CY", 2, 1), ("CL", 2, 2), ("Cl", 3, 0), ("Cm", 3, 1), ("Cn", 3, 2)]
RES = ("forces", "moments", "force_coefficients", "moment_coefficients")
TOT = ("total_near_field_force_wind_axes", "total_near_field_moment_wind_axes", "total_near_field_force_coefficients_wind_axes",
       "total_near_field_moment_coefficients_wind_axes")


def polydata(cx):
    """pyvista.PolyData(points, faces) keeps the points and the face list."""

    def s(I, st, a, k):
        m = dict(zip(("verts", "faces"), a))
        m.update({x: v for x, v in k.items()})
        if set(m) - {"verts", "faces", "vertices"}:
            raise Unsupported("PolyData arguments")
        o = cx.obj_in(st, "panel.Panel")
        I.set_field(st, o, "points", m.get("verts", m.get("vertices")))
        I.set_field(st, o, "faces", m["faces"])
        return o

    cx.summary("lib:pyvista.PolyData", s)


AROUND = """
    def same(p, q):
        return abs(p[0] - q[0]) + abs(p[1] - q[1]) + abs(p[2] - q[2]) <= 0.00001
    def quad(surf, n, c):
        f = surf.faces
        if f[5 * n] != 4:
            return False
        p = [surf.points[f[5 * n + 1]], surf.points[f[5 * n + 2]], surf.points[f[5 * n + 3]], surf.points[f[5 * n + 4]]]
        for k in range(4):
            if same(p[k], c[0]) and same(p[(k + 1) % 4], c[1]) and same(p[(k + 2) % 4], c[2]) and same(p[(k + 3) % 4], c[3]):
                return True
            if same(p[k], c[3]) and same(p[(k + 1) % 4], c[2]) and same(p[(k + 2) % 4], c[1]) and same(p[(k + 3) % 4], c[0]):
                return True
        return False
"""
ROW = ("Sum(a, lambda k: Sum(len(airplanes[k].wings), lambda l: airplanes[k].wings[l].num_chordwise_panels * airplanes[k].wings[l].num_spanwise_panels))"
       " + Sum(w, lambda l: airplanes[a].wings[l].num_chordwise_panels * airplanes[a].wings[l].num_spanwise_panels) + i * airplanes[a].wings[w].num_spanwise_panels + j")
ALL = "Sum(len(airplanes), lambda k: Sum(len(airplanes[k].wings), lambda l: airplanes[k].wings[l].num_chordwise_panels * airplanes[k].wings[l].num_spanwise_panels))"


def panels(cx):
    wd = World(cx)
    polydata(cx)
    cx.let(airplanes=wd.airplanes())
    cx.exec("""
    surf = ps.output.get_panel_surfaces(airplanes)""" + AROUND)
    cx.post("one quadrilateral per panel", "surf.faces.shape", "(5 * %s,)" % ALL)
    P = "airplanes[a].wings[w].panels[i, j]."
    cx.post("quadrilateral of each panel", "quad(surf, %s, [%s])" % (ROW, ", ".join(P + x for x in (CORN[0], CORN[1], CORN[3], CORN[2]))), over=wd.over())


contract("C23", "panel surfaces")(panels)


def scalars(what, attr):
    def c(cx):
        wd = World(cx)
        names = ("induced_drag_coefficient", "side_force_coefficient", "lift_coefficient")
        cx.let(airplanes=wd.airplanes(pextra=lambda a, w, i, j: {x: cx.real(x, a, w, i, j) for x in names}))
        cx.exec("out = ps.output.get_scalars(airplanes, %r)" % what)
        cx.post("one scalar per panel", "out.shape", "(%s,)" % ALL)
        cx.post("scalar of each panel", "out[%s]" % ROW, "airplanes[a].wings[w].panels[i, j].%s" % attr, over=wd.over())

    return c


for what, attr in (("induced drag", "induced_drag_coefficient"), ("side force", "side_force_coefficient"), ("lift", "lift_coefficient")):
    contract("C23", "scalars: " + what)(scalars(what, attr))


def wake(cx):
    polydata(cx)
    K = cx.dim("T")
    step = cx.integer("s", lo=0, hi=2)
    cx.require(ge(step, ZERO))
    cx.require(lt(step, K))
    names = ["wake_ring_vortex_%s_vertices_list" % x for x in ("front_left", "front_right", "back_right", "back_left")]
    n = lambda t: cx.dim("Nw", t, lo=0)
    f = {x: cx.lst(K, lambda t, x=x: cx.arr(x, (n(t), num(3)), t)) for x in names}
    solver = cx.obj(UNSTEADY, num_wake_ring_vortices_list=cx.tab((K,), lambda t: n(t), dtype="int", kind="list"), **f)
    cx.let(solver=solver, s=step)
    cx.exec("""
    surf = ps.output.get_wake_ring_vortex_surfaces(solver, s)""" + AROUND)
    cx.post("one quadrilateral per wake ring", "surf.faces.shape", lambda: (5 * n(step),))
    cx.post("quadrilateral of each wake ring", "quad(surf, k, [%s])" % ", ".join("solver.%s[s][k]" % x for x in names), over=[("k", n(step))])


contract("C23", "wake surfaces")(wake)


# ---------------------------------------------------------------- printing
def recorded(cx):
    """Every printed number, the label before it and the heading (a line with
    the airplane's name) it is under, in order."""
    lists = {k: cx.lst(ZERO, lambda i: ZERO) for k in ("VAL", "LAB", "HEAD", "NAMES")}
    cx.let(**lists)

    def s(I, st, a, k):
        lab = val = name = None
        for x in a:
            if isinstance(x, SStr) and x.p.const() is None:
                name = x
            elif isinstance(x, P):
                if val is not None:
                    raise Unsupported("two numbers on a line")
                val = x
            elif isinstance(x, str):
                got = [i for i, l in enumerate(LABELS) if x.strip().startswith(l[0] + ":")]
                if got:
                    lab = got[0]
            else:
                raise Unsupported("printing %r" % (x,))
        put = lambda key, v: I.lib.list_append(st, cx.inp[key], v)
        if name is not None:
            put("NAMES", name.p)
        elif val is not None:
            if lab is None:
                raise Unsupported("a number without a label")
            put("HEAD", I.lib.list_len(st, cx.inp["NAMES"]) - 1)
            put("LAB", num(lab))
            put("VAL", val)
        return None

    cx.summary("lib:print", s)
    n = len(LABELS)

    def shown(a, lab):
        st = cx.st
        at = lambda key, m: cx.I.lib.n(cx.I.buf_get(st, cx.inp[key].buf, cx.inp[key].owner, (m,)))
        got = []
        with with_facts(st.allfacts()):
            for m in range(n):
                i = n * a + m
                if at("HEAD", i) - a != ZERO:
                    raise Unsupported("not under the heading of its airplane")
                if at("LAB", i) == to_p(lab):
                    got.append(at("VAL", i))
        if len(got) != 1:
            raise Unsupported("%d lines with label %s" % (len(got), LABELS[lab.as_int()][0]))
        return got[0]

    state = {}

    def blocks():
        out = []
        for line in state["out"].getvalue().splitlines():
            t = line.strip()
            if t and not line[:1].isspace():
                out.append((t, {}))
            elif t:
                l, _, v = t.partition(":")
                if v.strip():
                    out[-1][1].setdefault(l.strip(), []).append(float(v.split()[0]))
        return out

    def shown_n(a, lab):
        r = blocks()[a][1].get(LABELS[lab][0], [])
        return r[0] if len(r) == 1 else "%d lines with label %s" % (len(r), LABELS[lab][0])

    def headings():
        return (cx.I.lib.list_len(cx.st, cx.inp["NAMES"]), cx.I.lib.list_len(cx.st, cx.inp["VAL"]))

    def headings_n():
        b = blocks()
        return (len(b), sum(len(v) for _, x in b for v in x.values()))

    cx.specfun("shown", shown, shown_n)
    cx.specfun("headings", headings, headings_n)
    cx.specfun("named", lambda a, nm: eq(cx.I.lib.n(cx.I.buf_get(cx.st, cx.inp["NAMES"].buf, cx.inp["NAMES"].owner, (a,))), nm.p), lambda a, nm: nm in blocks()[a][0])
    old = cx.conc_patch

    def patch(ns):
        import io
        import sys

        u = old(ns) if old else None
        saved = sys.stdout
        sys.stdout = state["out"] = io.StringIO()

        def undo():
            sys.stdout = saved
            u and u()

        return undo

    cx.conc_patch = patch


def print_posts(cx, A, value):
    cx.post("one heading per airplane, twelve numbers under each", "headings()", lambda: (A, len(LABELS) * A))
    cx.post("its own name", "named(a, airplanes[a].name)", over=[("a", A)])
    for l, (lab, i, j) in enumerate(LABELS):
        cx.post("printed " + lab, "shown(a, %d)" % l, "np.round(%s, 3)" % value(i, j), over=[("a", A)], tol=5e-4)


def print_steady(cx):
    recorded(cx)
    wd = World(cx)
    for k in TOT:
        cx.ranges[k] = (-900.0, 900.0)
    cx.let(airplanes=wd.airplanes(extra=lambda a: {k: cx.vec(k, a, lo=-50.0, hi=50.0) for k in TOT}))
    s = cx.obj(STEADY["ring"], airplanes=cx.inp["airplanes"], num_airplanes=wd.A)
    cx.let(solver=s)
    cx.exec("ps.output.print_steady_results(solver)")
    print_posts(cx, wd.A, lambda i, j: "airplanes[a].%s[%d]" % (TOT[i], j))


contract("C23", "print_steady_results")(print_steady)


def print_unsteady(static):
    def c(cx):
        recorded(cx)
        wd = World(cx)
        f = {}
        for pre in ("final_", "final_mean_", "final_rms_"):
            for k in RES:
                nm = "%snear_field_%s_wind_axes" % (pre, k)
                f[nm] = cx.lst(wd.A, lambda a, nm=nm: cx.vec(nm, a, lo=-50.0, hi=50.0))
        cx.let(airplanes=wd.airplanes())
        probs = cx.lst(cx.dim("T"), lambda t: cx.obj("problems.SteadyProblem", airplanes=cx.inp["airplanes"]))
        pr = cx.obj("problems.UnsteadyProblem", max_period=ZERO if static else cx.pos("period"), steady_problems=probs, **f)
        cx.let(up=pr, solver=cx.obj(UNSTEADY, unsteady_problem=pr, steady_problems=probs, num_airplanes=wd.A))
        cx.exec("ps.output.print_unsteady_results(solver)")
        pre = "final_" if static else "final_mean_"
        print_posts(cx, wd.A, lambda i, j: "up.%snear_field_%s_wind_axes[a][%d]" % (pre, RES[i], j))

    return c


contract("C23", "print_unsteady_results of a static run")(print_unsteady(True))
contract("C23", "print_unsteady_results of a periodic run")(print_unsteady(False))
