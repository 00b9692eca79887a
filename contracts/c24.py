"""C24: a solver whose panels, wings and airplanes carry anything earlier solvers
left, run once or twice, against one run on fresh objects."""
from world import *
from c21 import A_, P_, COEF, held, homogeneous_velocity
from c05 import record_loads
import c15

CONTRACTS[:] = [c for c in CONTRACTS if c["prop"] not in ("C05", "C15", "C21")]
ONE_ = num(1)


def leftovers(cx):
    """Anything on the panels and airplanes that solvers write there."""

    def line(s, *ix):
        v = lambda nm: cx.vec("left%s%s" % (s, nm), *ix)
        return cx.obj("aerodynamics.LineVortex", origin=v("O"), termination=v("T"), strength=cx.real("left%sG" % s, *ix), vector=v("V"), center=v("C"))

    def panel(a, w, i, j):
        ix = (a, w, i, j)
        ring = cx.obj("aerodynamics.RingVortex", front_left_vertex=cx.vec("leftfl", *ix), front_right_vertex=cx.vec("leftfr", *ix), back_left_vertex=cx.vec("leftbl", *ix),
                      back_right_vertex=cx.vec("leftbr", *ix), strength=cx.real("leftring", *ix), center=cx.vec("leftcen", *ix), area=cx.pos("leftarea", *ix),
                      **{k + "_leg": line(k[0].upper(), *ix) for k in ("front", "left", "back", "right")})
        shoe = cx.obj("aerodynamics.HorseshoeVortex", finite_leg_origin=cx.vec("leftho", *ix), finite_leg_termination=cx.vec("leftht", *ix), strength=cx.real("leftshoe", *ix),
                      infinite_leg_direction=cx.vec("lefthd", *ix), infinite_leg_length=cx.pos("lefthl", *ix), right_leg_origin=cx.vec("lefthr", *ix),
                      left_leg_termination=cx.vec("lefthq", *ix), **{k + "_leg": line("H" + k[0], *ix) for k in ("left", "finite", "right")})
        f = dict(ring_vortex=ring, horseshoe_vortex=shoe)
        for q in ("force", "moment"):
            for x in ("geometry", "wind"):
                f["near_field_%s_%s_axes" % (q, x)] = cx.vec("leftload%s%s" % (q[0], x[0]), *ix)
        f.update({c: cx.real("leftcoef%d" % k, *ix) for k, c in enumerate(COEF)})
        return f

    def airplane(a):
        return {"total_near_field_%s_%swind_axes" % (q, c): cx.vec("lefttotal%s%s" % (q[0], c[:1]), a) for q in ("force", "moment") for c in ("", "coefficients_")}

    return dict(pextra=panel, extra=airplane)


def two(cx):
    wd = World(cx)
    frame_contracts(cx)
    no_streamlines(cx)
    cx.let(A1=wd.airplanes(), A2=wd.airplanes(**leftovers(cx)), o1=op_point(cx), o2=op_point(cx))
    return wd


def given(cx, wd):
    """what a solver was given is what it was given"""
    for nm, k in zip(CORN, range(4)):
        cx.post("the panels' corners are not moved: " + nm, P_ % ("A2", nm), lambda a, w, i, j, k=k: wd.corner(k, a, w, i, j), over=wd.over())
    cx.post("nor their places", "(%s)" % ", ".join(P_ % ("A2", x) for x in ("is_leading_edge", "is_trailing_edge", "is_left_edge", "is_right_edge", "local_chordwise_position", "local_spanwise_position")),
            lambda a, w, i, j: (eq(i, 0), eq(i, wd.M(a, w) - 1), eq(j, 0), eq(j, wd.N(a, w) - 1), i, j), over=wd.over())
    cx.post("nor the wings", "(A2[a].wings[w].num_chordwise_panels, A2[a].wings[w].num_spanwise_panels, A2[a].wings[w].num_panels)",
            lambda a, w: (wd.M(a, w), wd.N(a, w), wd.M(a, w) * wd.N(a, w)), over=wd.over(panels=False))
    cx.post("nor the airplanes", "(len(A2[a].wings), A2[a].xyz_ref, A2[a].weight, A2[a].s_ref, A2[a].c_ref, A2[a].b_ref)",
            lambda a: (wd.W(a), *wd.ref(a), *(T.app(k, a) for k in ("weight", "sref", "cref", "bref"))), over=[("a", wd.A)])
    cx.post("nor the operating point", "(o2.density, o2.velocity, o2.alpha, o2.beta, o2.external_thrust, o2.nu)",
            lambda: tuple(T.app(k) for k in ("rho", "V", "alpha", "beta", "thrust", "nu")))


MAKE = """
    s1 = ps.%s(steady_problem=ps.problems.SteadyProblem(airplanes=A1, operating_point=o1))
    s2 = ps.%s(steady_problem=ps.problems.SteadyProblem(airplanes=A2, operating_point=o2))
"""


def steady(kind):
    def c(cx):
        wd = two(cx)
        kernel_contracts(cx)
        homogeneous_velocity(cx, kind, ONE_)
        record_loads(cx, "steady")
        cx.I.solve_scales = [ONE_]
        cx.exec(MAKE % (STEADY[kind], STEADY[kind]) + """
    s1.run(logging_level="Critical")
    s2.run(logging_level="Critical")
    s2.run(logging_level="Critical")
    """)
        Np = cx.I.lib.red(cx.st, wd.A, lambda a: wd.count_airplane(a))
        v = "horseshoe_vortex.strength" if kind == "horseshoe" else "ring_vortex.strength"
        cx.post("the same circulations", P_ % ("A2", v), P_ % ("A1", v), over=wd.over(), tol=1e-6)
        for q in "FM":
            cx.post("the same panel %ss" % dict(F="force", M="moment")[q], "s2.verif_%s[k]" % q, "s1.verif_%s[k]" % q, over=[("k", Np)], tol=1e-6)
        red = cx.I.lib.red
        Ns = red(cx.st, wd.A, lambda a: red(cx.st, wd.W(a), lambda w: wd.N(a, w)))
        cx.post("as many streamlines", "s2.seed_points.shape[0]", "s1.seed_points.shape[0]")
        cx.post("from the same points", "s2.seed_points[k]", "s1.seed_points[k]", over=[("k", Ns)])
        given(cx, wd)

    return c


def loads(kind):
    def c(cx):
        wd = two(cx)
        Np = cx.I.lib.red(cx.st, wd.A, lambda a: wd.count_airplane(a))
        cx.let(FF=cx.arr("FF", (Np, num(3))), MM=cx.arr("MM", (Np, num(3))), F0=cx.arr("F0", (Np, num(3))), M0=cx.arr("M0", (Np, num(3))))
        cx.exec(MAKE % (STEADY[kind], STEADY[kind]) + """
    s1.initialize_panel_vortices()
    s1.collapse_geometry()
    s2.initialize_panel_vortices()
    s2.collapse_geometry()
    ps.functions.process_steady_solver_forces(s1, FF, MM)
    ps.functions.process_steady_solver_forces(s2, F0, M0)
    ps.functions.process_steady_solver_forces(s2, FF, MM)
    """)
        for q in ("force", "moment"):
            f = "near_field_%s_%s_axes"
            for ax in ("geometry", "wind"):
                cx.post("the same panel %ss in %s axes" % (q, ax), P_ % ("A2", f % (q, ax)), P_ % ("A1", f % (q, ax)), over=wd.over(), tol=1e-6)
            for x in ("", "coefficients_"):
                cx.post("the same total %s %s" % (q, x or "in newtons"), A_ % ("A2", q, x), A_ % ("A1", q, x), over=[("a", wd.A)], tol=1e-6)
        t = lambda A: "(%s)" % ", ".join(P_ % (A, x) for x in COEF)
        cx.post("the same panel coefficients", t("A2"), t("A1"), over=wd.over(), tol=1e-6)
        given(cx, wd)

    return c


for k in ("horseshoe", "ring"):
    contract("C24", k + " solver after anything, run twice", budget=450)(steady(k))
    contract("C24", k + " solver's totals after anything", budget=450)(loads(k))


class Used(Flight):
    """The same flight, on objects that earlier solvers have used: later steps
    have a wake, panels and airplanes carry any loads and vortices."""

    used = False

    def wake_extra(self, k):
        f = super().wake_extra(k)
        if not self.used:
            return f
        cx, s = self.cx, self.s

        def g(a, w):
            N = self.wd.N(a, w)
            R = cx.integer("leftrows", k, a, w, lo=0, hi=3)
            T.NONNEG_APPS.add("leftrows")

            d = f(a, w)
            d["wake_ring_vortex_vertices"] = cx.tab((ite(lt(s, k), R + 1, ite(eq(k, s), s + 1 if s.t else ZERO, ZERO)), N + 1, num(3)),
                                                    lambda r, j, c: ite(eq(k, s), T.app("WV", a, w, r, j, c), T.app("leftWV", k, a, w, r, j, c)))
            d["wake_ring_vortices"] = cx.tab((ite(lt(s, k), R, ite(eq(k, s), s, ZERO)), N), lambda r, j: self.vortex(a, w, r, j), dtype="obj")
            return d

        return g

    def problem(self, k):
        kw = leftovers(self.cx) if self.used else {}
        return self.cx.obj("problems.SteadyProblem", airplanes=self.at(k).airplanes(wextra=self.wake_extra(k), **kw), operating_point=op_point(self.cx, k))

    def let_both(self):
        cx, wd = self.cx, self.wd
        self.let()
        up1 = cx.inp["up"]
        self.used = True
        self.let()
        cx.let(up1=up1, up2=cx.inp["up"])


STEP = """
    def last(up):
        def havoc():
            if s > 0:
                last = up.steady_problems[s - 1].airplanes
                for a in range(len(last)):
                    for w in range(len(last[a].wings)):
                        for i in range(last[a].wings[w].num_chordwise_panels):
                            for j in range(last[a].wings[w].num_spanwise_panels):
                                last[a].wings[w].panels[i, j].ring_vortex.update_strength(GL[a][w][i, j])
        return havoc
    s1 = ps.%s(unsteady_problem=up1)
    s2 = ps.%s(unsteady_problem=up2)
    verif_cut(s1.run, s, last(up1), logging_level="Critical", prescribed_wake=True, calculate_streamlines=False)
""" % (UNSTEADY, UNSTEADY)
AGAIN = """
    verif_cut(s2.run, s, last(up2), logging_level="Critical", prescribed_wake=True, calculate_streamlines=False)
"""


def step(s):
    def c(cx):
        st = num(0) if s == 0 else cx.integer("s", lo=1, hi=2)
        if s:
            T.POS_APPS.add("s")
            T.NONNEG_APPS.add("s")
        fl = Used(cx, st, more=1)
        wd = fl.wd
        kernel_contracts(cx)
        frame_contracts(cx)
        no_loads(cx)
        cx.summary(UNSTEADY + ".calculate_near_field_forces_and_moments", lambda I, st, env: None)
        cx.I.solve_scales = [ONE_]
        fl.let_both()
        # a second run reaches a later step with that step's wake shed again; only at
        # the first step is the wake what it was
        cx.exec(STEP + AGAIN * (1 if s else 2))
        P = "%s.steady_problems[s].airplanes[a].wings[w].panels[i, j].ring_vortex.strength"
        cx.post("the same circulations", P % "up2", P % "up1", over=wd.over(), tol=1e-6)
        N = "%s.steady_problems[s + 1].airplanes[a].wings[w]"
        o2 = [("a", wd.A), ("w", lambda a: wd.W(a))]
        for q in ("wake_ring_vortices", "wake_ring_vortex_vertices"):
            cx.post("as many " + q.replace("_", " "), "%s.%s.shape" % (N % "up2", q), "%s.%s.shape" % (N % "up1", q), over=o2)
        cx.post("the same wake corners", (N + ".wake_ring_vortex_vertices[r, j]") % "up2", (N + ".wake_ring_vortex_vertices[r, j]") % "up1",
                over=o2 + [("r", lambda a, w: st + 2), ("j", lambda a, w, r: wd.N(a, w) + 1)], tol=1e-6)
        R = "(" + ", ".join(N + ".wake_ring_vortices[r, j]." + x for x in ("strength", "age")) + ")"
        cx.post("the same wake circulations and ages", R % ("up2", "up2"), R % ("up1", "up1"),
                over=o2 + [("r", lambda a, w: st + 1), ("j", lambda a, w, r: wd.N(a, w))], tol=1e-6)
        L = ["num_wake_ring_vortices_list"] + ["wake_ring_vortex_%s_list" % x for x in ("strengths", "ages", "front_left_vertices", "front_right_vertices", "back_left_vertices", "back_right_vertices")]
        cx.post("the wake of every step is recorded once", "(%s)" % ", ".join("len(s2.%s)" % x for x in L), lambda: (fl.n,) * len(L))
        P = "up2.steady_problems[k].airplanes[a].wings[w].panels[i, j]."
        for nm, q in zip(CORN, range(4)):
            cx.post("no step's panels are moved: " + nm, P + nm, lambda k, a, w, i, j, q=q: fl.at(k).corner(q, a, w, i, j), 
                    over=[("k", fl.n), ("a", wd.A), ("w", lambda k, a: wd.W(a)), ("i", lambda k, a, w: wd.M(a, w)), ("j", lambda k, a, w, i: wd.N(a, w))])
        cx.post("nor is an operating point changed", "(%s)" % ", ".join("up2.steady_problems[k].operating_point." + x for x in ("density", "velocity", "alpha", "beta", "nu")),
                lambda k: tuple(T.app(x, k) for x in ("rho", "V", "alpha", "beta", "nu")), over=[("k", fl.n)])

    return c


contract("C24", "first step after anything, run twice", budget=450, mem=9)(step(0))
contract("C24", "later steps after anything", budget=450, mem=9)(step(1))
contract("C24", "end of a second run: static motion")(c15.at_end(True, runs=2))
contract("C24", "end of a second run: periodic motion")(c15.at_end(False, runs=2))
