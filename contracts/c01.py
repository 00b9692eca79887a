"""C01: the velocity the solver reports at every collocation point is tangent
to the panel; circulations are stored on the right panels."""
from world import *

SOLVER = {
    "horseshoe": "steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver",
    "ring": "steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver",
}


def steady(cx, kind, **kw):
    w = World(cx, **kw)
    kernel_contracts(cx)
    frame_contracts(cx)
    no_streamlines(cx)
    no_loads(cx)
    cx.let(airplanes=w.airplanes(), op=op_point(cx))
    cx.exec("""
    problem = ps.problems.SteadyProblem(airplanes=airplanes, operating_point=op)
    solver = ps.%s(steady_problem=problem)
    solver.run()
    """ % SOLVER[kind])
    return w


def tang(kind):
    def c(cx):
        wd = w = steady(cx, kind)
        cx.post(
            "flow tangency",
            "np.dot(solver.calculate_solution_velocity(points=np.array([airplanes[a].wings[w].panels[i, j].collocation_point]))[0],"
            " airplanes[a].wings[w].panels[i, j].unit_normal)",
            lambda a, w, i, j: ZERO,
            over=w.over(), tol=1e-6, rows=lambda a, w, i, j: [wd.row(a, w, i, j)],
        )

    return c


contract("C01", "horseshoe solver: flow tangency")(tang("horseshoe"))
contract("C01", "ring solver: flow tangency")(tang("ring"))


def velocity(kind):
    """calculate_solution_velocity, for any circulations: the freestream plus
    every vortex of every panel, once."""

    def c(cx):
        w = World(cx)
        kernel_contracts(cx)
        frame_contracts(cx)
        no_streamlines(cx)
        no_loads(cx)
        red = cx.I.lib.red
        Np = red(cx.st, w.A, lambda a: w.count_airplane(a))
        K = cx.dim("K")
        cx.let(pts=cx.arr("pt", (K, num(3))), GG=cx.arr("GG", (Np,)), airplanes=w.airplanes(), op=op_point(cx))
        cx.exec("""
        problem = ps.problems.SteadyProblem(airplanes=airplanes, operating_point=op)
        solver = ps.%s(steady_problem=problem)
        solver.run()
        """ % SOLVER[kind] + ("""
        solver.vortex_strengths = GG
        out = solver.calculate_solution_velocity(points=pts)
        """))
        cx.post("one velocity per point", "out.shape", lambda: (K, num(3)))
        D = FD(T.app("alpha"), T.app("beta"))
        V = scale(T.app("V"), D)

        def corners(a, wi, i, j):
            fl, fr = w.fl(a, wi, i, j), w.fr(a, wi, i, j)
            L = scale(20 * w.span(a, wi), D)
            return dict(fl=fl, fr=fr, bl=add(fl, L), br=add(fr, L))

        def want(k):
            p = tuple(T.app("pt", k, num(c)) for c in range(3))

            def summed(f):
                return tuple(red(cx.st, w.A, lambda a: red(cx.st, w.W(a), lambda wi: red(cx.st, w.M(a, wi), lambda i: red(
                    cx.st, w.N(a, wi), lambda j: f(a, wi, i, j)[c])))) for c in range(3))

            return add(V, summed(lambda a, wi, i, j: legs_vel(p, corners(a, wi, i, j), T.app("GG", w.row(a, wi, i, j)), SHOE)))

        cx.post("velocity", "out[k]", want, over=[("k", K)], tol=1e-6)

    return c


contract("C01", "horseshoe solver: solution velocity")(velocity("horseshoe"))
