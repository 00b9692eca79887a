"""C06: panel loads in both axis systems, totals and coefficients."""
from world import *

SOLVER = {
    "horseshoe": "steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver",
    "ring": "steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver",
    "unsteady": "unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver",
}
P_ = "airplanes[a].wings[w].panels[i, j]"
A_ = "airplanes[a]"


def total(attr, c):
    return "Sum(len(airplanes[a].wings), lambda w: Sum(airplanes[a].wings[w].num_chordwise_panels, lambda i: Sum(airplanes[a].wings[w].num_spanwise_panels, lambda j: airplanes[a].wings[w].panels[i, j].%s[%d])))" % (attr, c)


def posts(cx, wd, alpha, beta, rho, V):
    q = H * rho * V * V
    R = RM(alpha, beta)
    RT = tuple(tuple(R[j][i] for j in range(3)) for i in range(3))

    def F(nm):
        return lambda a, w, i, j: tuple(T.app(nm, wd.row(a, w, i, j), num(c)) for c in range(3))

    for what, nm in (("force", "FF"), ("moment", "MM")):
        f = F(nm)
        cx.post("panel %s (geometry axes) is the panel's own row" % what, P_ + ".near_field_%s_geometry_axes" % what, f, over=wd.over())
        cx.post("panel %s (wind axes) is the same vector in wind axes" % what, P_ + ".near_field_%s_wind_axes" % what,
                lambda a, w, i, j, f=f: matvec(RT, f(a, w, i, j)), over=wd.over())
        cx.post("airplane's total %s is the sum over its own panels" % what, A_ + ".total_near_field_%s_wind_axes" % what,
                "(%s)" % ", ".join(total("near_field_%s_wind_axes" % what, c) for c in range(3)), over=[("a", wd.A)])
    f = F("FF")

    def coef(a, w, i, j):
        v = matvec(RT, f(a, w, i, j))
        s = wd.area(a, w, i, j)
        return (-v[0] / (q * s), v[1] / (q * s), -v[2] / (q * s))

    cx.post("panel coefficients", "(%s.induced_drag_coefficient, %s.side_force_coefficient, %s.lift_coefficient)" % (P_, P_, P_), coef, over=wd.over())

    def tot(what, a):
        nd = cx.I.lib.nd(cx.st, cx.I.get_field(cx.st, cx.get(cx.inp["airplanes"], a), "total_near_field_%s_wind_axes" % what))
        return tuple(cx.I.lib.n(nd.get((num(c),))) for c in range(3))

    g = "airplanes[a].total_near_field_%s_%swind_axes"
    cx.post("force coefficients of the airplane", (g % ("force", "coefficients_")) + " * qq * airplanes[a].s_ref * np.array([-1.0, 1.0, -1.0])", g % ("force", ""), over=[("a", wd.A)])
    cx.post("moment coefficients of the airplane",
            (g % ("moment", "coefficients_")) + " * qq * airplanes[a].s_ref * np.array([airplanes[a].b_ref, airplanes[a].c_ref, airplanes[a].b_ref])", g % ("moment", ""), over=[("a", wd.A)])


def steady(kind):
    def c(cx):
        wd = World(cx)
        frame_contracts(cx)
        Np = cx.I.lib.red(cx.st, wd.A, lambda a: wd.count_airplane(a))
        cx.let(airplanes=wd.airplanes(), op=op_point(cx), FF=cx.arr("FF", (Np, num(3))), MM=cx.arr("MM", (Np, num(3))))
        cx.exec("""
        problem = ps.problems.SteadyProblem(airplanes=airplanes, operating_point=op)
        solver = ps.%s(steady_problem=problem)
        solver.initialize_panel_vortices()
        solver.collapse_geometry()
        ps.functions.process_steady_solver_forces(steady_solver=solver, near_field_forces_geometry_axes=FF, near_field_moments_geometry_axes=MM)
        qq = 0.5 * op.density * op.velocity ** 2
        """ % SOLVER[kind])
        posts(cx, wd, *(T.app(k) for k in ("alpha", "beta", "rho", "V")))

    return c


contract("C06", "horseshoe solver: totals and coefficients")(steady("horseshoe"))
contract("C06", "ring solver: totals and coefficients")(steady("ring"))


def unsteady(cx):
    st = cx.integer("s", lo=0, hi=2)
    T.NONNEG_APPS.add("s")
    fl = Flight(cx, st, first_results=ZERO)
    frame_contracts(cx)
    kernel_contracts(cx)
    velocity_contract(cx)
    U = UNSTEADY + "."
    # the step's own loads are C05's; here the arrays are arbitrary
    cx.summary(U + "calculate_near_field_forces_and_moments", lambda I, st, env: None)
    cx.summary(U + "populate_next_airplanes_wake", lambda I, st, env: None)
    fl.let()
    wd = fl.at(st)
    Np = cx.I.lib.red(cx.st, wd.A, lambda a: wd.count_airplane(a))
    cx.let(FF=cx.arr("FF", (Np, num(3))), MM=cx.arr("MM", (Np, num(3))))
    cx.exec(Flight.STEP % "True" + """
    ps.functions.process_unsteady_solver_forces(unsteady_solver=solver, near_field_forces_geometry_axes=FF, near_field_moments_geometry_axes=MM)
    op = up.steady_problems[s].operating_point
    qq = 0.5 * op.density * op.velocity ** 2
    """)
    posts(cx, wd, *(T.app(k, st) for k in ("alpha", "beta", "rho", "V")))


contract("C06", "unsteady solver: totals and coefficients")(unsteady)
