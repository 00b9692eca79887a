"""C21: two runs of a steady solver, the second at kk times the speed and dd
times the density, on equal airplanes."""
from world import *
from c05 import record_loads
import prover

CONTRACTS[:] = [c for c in CONTRACTS if c["prop"] != "C05"]
A_ = "%s[a].total_near_field_%s_%swind_axes"
P_ = "%s[a].wings[w].panels[i, j].%s"
COEF = ("induced_drag_coefficient", "side_force_coefficient", "lift_coefficient")
PLACES = ["panel_%s_%s_vortex_vertices" % (x, y) for x in ("back", "front") for y in ("left", "right")]
MAKE = """
    s1 = ps.%s(steady_problem=ps.problems.SteadyProblem(airplanes=A1, operating_point=o1))
    s2 = ps.%s(steady_problem=ps.problems.SteadyProblem(airplanes=A2, operating_point=o2))
"""


def held(kind):
    """(attribute, whether it scales) of everything the velocity depends on"""
    return [(a, False) for a in PLACES] + [(a, a.endswith("strengths") or a == "freestream_velocity") for a in HELD[kind]]


def two(cx):
    wd = World(cx)
    frame_contracts(cx)
    no_streamlines(cx)
    kk, dd = cx.pos("kk"), cx.pos("dd")
    o1 = op_point(cx)
    o2 = cx.obj("operating_point.OperatingPoint", density=dd * T.app("rho"), velocity=kk * T.app("V"), alpha=T.app("alpha"), beta=T.app("beta"),
                external_thrust=T.app("thrust"), nu=T.app("nu"))
    cx.let(A1=wd.airplanes(), A2=wd.airplanes(), o1=o1, o2=o2, kk=kk, dd=dd)
    return wd, kk, dd


def homogeneous_velocity(cx, kind, kk):
    """calculate_solution_velocity by the contract below: a function of the
    point for the solver that asks first; kk times that for a solver whose
    vortices are in the same places with kk times the strength (those whose
    corners coincide induce nothing whatever their strength)."""
    first = []

    def s(I, st, env):
        o = env["self"]
        have = {a: I.lib.nd(st.copy(), I.get_field(st, o, a)) for a, _ in held(kind)}
        if not first:
            first.append((o, have))
        k = num(1)
        if not (o.fam is first[0][0].fam):
            k = kk
        def at(h, a, ix):
            v = I.lib.n(h[a].get(ix))
            if a == "horseshoe_vortex_strengths":
                cs = {"%s%s" % (p[0], q[0]): tuple(I.lib.n(h["horseshoe_vortex_%s_%s_vertex" % (p, q)].get((*ix, num(c)))) for c in range(3))
                      for p in ("back", "front") for q in ("left", "right")}
                return shrunk(cs, v)[1]
            return v

        for a, sc in held(kind):
            x, y = have[a], first[0][1][a]
            if len(x.shape) != len(y.shape):
                raise Unsupported("held arrays of different shapes")
            idx = []
            for m, n in zip(x.shape, y.shape):
                if not entails(st.allfacts(), eq(m, n)):
                    raise Unsupported("held arrays of different shapes: %s" % a)
                idx.append([fresh("h", "int", ZERO, m)] if m.as_int() is None else [num(j) for j in range(m.as_int())])
            if len(idx) == 1:
                idx.append([None])
            with with_facts(st.allfacts()):
                for p in idx[0]:
                    for q in idx[1]:
                        ix = (p,) if q is None else (p, q)
                        if prove_eq(at(have, a, ix), (k if sc else 1) * at(first[0][1], a, ix), st.allfacts(), [], 60)[0] is not True:
                            raise Unsupported("solver.%s does not correspond" % a)
        Q_ = I.lib.nd(st, env["points"])

        def get(idx):
            p = [I.lib.n(Q_.get((idx[0], num(c)))) for c in range(3)]
            v = [k * T.app("SV%d" % c, *p) for c in range(3)]
            return v[idx[1].as_int()] if idx[1].as_int() is not None else I.lib.select(v, idx[1])

        return I.alloc(st, (Q_.shape[0], num(3)), get, "real")

    cx.summary(STEADY[kind] + ".calculate_solution_velocity", s)


def velocity(kind):
    def c(cx):
        wd, kk, dd = two(cx)
        kernel_contracts(cx)
        Np = cx.I.lib.red(cx.st, wd.A, lambda a: wd.count_airplane(a))
        K = cx.dim("K")
        cx.let(pts=cx.arr("pt", (K, num(3))), GG=cx.arr("GG", (Np,)), HH=cx.arr("HH", (Np,)))
        cx.exec(MAKE % (STEADY[kind], STEADY[kind]) + """
    s1.initialize_panel_vortices()
    s1.collapse_geometry()
    s2.initialize_panel_vortices()
    s2.collapse_geometry()
    s1.vortex_strengths = GG
    s2.vortex_strengths = kk * GG
    """ + ("""
    s1.horseshoe_vortex_strengths = HH
    s2.horseshoe_vortex_strengths = kk * HH
    """ if kind == "ring" else ""))
        cx.post("kk times the velocity", "s2.calculate_solution_velocity(points=pts)[k]", "kk * s1.calculate_solution_velocity(points=pts)[k]", over=[("k", K)], tol=1e-6)

    return c


def loads(kind):
    def c(cx):
        wd, kk, dd = two(cx)
        kernel_contracts(cx)
        homogeneous_velocity(cx, kind, kk)
        record_loads(cx, "steady")
        cx.I.solve_scales = [kk]
        cx.exec(MAKE % (STEADY[kind], STEADY[kind]) + """
    s1.run(logging_level="Critical")
    s2.run(logging_level="Critical")
    """)
        Np = cx.I.lib.red(cx.st, wd.A, lambda a: wd.count_airplane(a))
        v = "horseshoe_vortex.strength" if kind == "horseshoe" else "ring_vortex.strength"
        cx.post("circulations scale with the speed", P_ % ("A2", v), "kk * " + P_ % ("A1", v), over=wd.over(), tol=1e-6)
        for q in "FM":
            cx.post("panel %ss scale with density and speed squared" % dict(F="force", M="moment")[q], "s2.verif_%s[k]" % q, "dd * kk * kk * s1.verif_%s[k]" % q, over=[("k", Np)], tol=1e-6)

    return c


def coefficients(kind):
    def c(cx):
        wd, kk, dd = two(cx)
        Np = cx.I.lib.red(cx.st, wd.A, lambda a: wd.count_airplane(a))
        cx.let(FF=cx.arr("FF", (Np, num(3))), MM=cx.arr("MM", (Np, num(3))))
        cx.exec(MAKE % (STEADY[kind], STEADY[kind]) + """
    s1.initialize_panel_vortices()
    s1.collapse_geometry()
    s2.initialize_panel_vortices()
    s2.collapse_geometry()
    ps.functions.process_steady_solver_forces(s1, FF, MM)
    ps.functions.process_steady_solver_forces(s2, dd * kk ** 2 * FF, dd * kk ** 2 * MM)
    """)
        for q in ("force", "moment"):
            f = "near_field_%s_%s_axes"
            for ax in ("geometry", "wind"):
                cx.post("panel %ss in %s axes scale with density and speed squared" % (q, ax), P_ % ("A2", f % (q, ax)), "dd * kk * kk * " + P_ % ("A1", f % (q, ax)), over=wd.over(), tol=1e-6)
            cx.post("%ss of the airplane scale with density and speed squared" % q, A_ % ("A2", q, ""), "dd * kk * kk * " + A_ % ("A1", q, ""), over=[("a", wd.A)], tol=1e-6)
            cx.post("%s coefficients of the airplane do not change" % q, A_ % ("A2", q, "coefficients_"), A_ % ("A1", q, "coefficients_"), over=[("a", wd.A)], tol=1e-6)
        t = lambda A: "(%s)" % ", ".join(P_ % (A, x) for x in COEF)
        cx.post("panel coefficients do not change", t("A2"), t("A1"), over=wd.over(), tol=1e-6)

    return c


for k in ("horseshoe", "ring"):
    contract("C21", k + " solver: solution velocity scales")(velocity(k))
    contract("C21", k + " solver: circulations and panel loads scale")(loads(k))
    contract("C21", k + " solver: coefficients do not change")(coefficients(k))
