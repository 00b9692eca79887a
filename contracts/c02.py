"""C02: unsteady flow tangency, at any step, from any wake."""
from world import *


def tang(s):
    def c(cx):
        st = num(0) if s == 0 else cx.integer("s", lo=1, hi=2)
        if s:
            T.POS_APPS.add("s"); T.NONNEG_APPS.add("s")
        fl = Flight(cx, st)
        kernel_contracts(cx)
        frame_contracts(cx)
        no_loads(cx)
        fl.let()
        cx.exec(Flight.STEP % "True")
        wd = fl.at(st)
        cx.post(
            "flow tangency",
            "np.dot(solver.calculate_solution_velocity(points=np.array([airplanes[a].wings[w].panels[i, j].collocation_point]))[0]"
            + (" - (airplanes[a].wings[w].panels[i, j].collocation_point - up.steady_problems[s - 1].airplanes[a].wings[w].panels[i, j].collocation_point) / dt" if s else "")
            + ", airplanes[a].wings[w].panels[i, j].unit_normal)",
            lambda a, w, i, j: ZERO,
            over=wd.over(), tol=1e-6, rows=lambda a, w, i, j: [wd.row(a, w, i, j)],
        )
        cx.post("every step is solved", "len(steps)", lambda: fl.n)
        cx.post("the steps are solved in order", "steps[q]", lambda q: q, over=[("q", fl.n)])

    return c


contract("C02", "first step: flow tangency")(tang(0))
contract("C02", "later steps: flow tangency")(tang(1))


def velocity(s):
    """calculate_solution_velocity, for any circulations on the panels: the
    freestream of this step plus every bound ring and every wake ring, once."""

    def c(cx):
        st = num(0) if s == 0 else cx.integer("s", lo=1, hi=2)
        if s:
            T.POS_APPS.add("s")
            T.NONNEG_APPS.add("s")
        fl = Flight(cx, st)
        kernel_contracts(cx)
        frame_contracts(cx)
        no_loads(cx)
        cx.summary("unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver.calculate_near_field_forces_and_moments", lambda I, st, env: None)
        cx.summary("unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver.populate_next_airplanes_wake", lambda I, st, env: None)
        wd = fl.at(st)
        red = cx.I.lib.red
        Np = red(cx.st, wd.A, lambda a: wd.count_airplane(a))
        K = cx.dim("K")
        cx.let(pts=cx.arr("pt", (K, num(3))), GG=cx.arr("GG", (Np,)))
        fl.let()
        cx.exec(Flight.STEP % "True" + """
    solver.current_vortex_strengths = GG
    out = solver.calculate_solution_velocity(points=pts)
        """)
        cx.post("one velocity per point", "out.shape", lambda: (K, num(3)))

        V = scale(T.app("V", st), FD(T.app("alpha", st), T.app("beta", st)))

        def corner(k, a, w, i, j):
            f = k.fl(a, w, i, j), k.fr(a, w, i, j)
            last = eq(i, k.M(a, w) - 1)
            cs = k.corners(a, w, i, j)
            te = [add(add(f[x], sub(cs[2 + x], cs[x])), scale(Q * fl.dt, V)) for x in (0, 1)]
            nx = k.fl(a, w, i + 1, j), k.fr(a, w, i + 1, j)
            b = [tuple(ite(last, p, q) for p, q in zip(te[x], nx[x])) for x in (0, 1)]
            return dict(fl=f[0], fr=f[1], bl=b[0], br=b[1])

        def want(k):
            p = tuple(T.app("pt", k, num(c)) for c in range(3))
            r = V

            def summed(f):
                return tuple(red(cx.st, wd.A, lambda a: red(cx.st, wd.W(a), lambda w: f(a, w, c))) for c in range(3))

            r = add(r, summed(lambda a, w, c: red(cx.st, wd.M(a, w), lambda i: red(cx.st, wd.N(a, w), lambda j: legs_vel(
                p, corner(wd, a, w, i, j), T.app("GG", wd.row(a, w, i, j)), RING)[c]))))
            if s:
                def wk(a, w, c, r_, j):
                    v = dict(fl=fl.WV(a, w, r_, j), fr=fl.WV(a, w, r_, j + 1), bl=fl.WV(a, w, r_ + 1, j), br=fl.WV(a, w, r_ + 1, j + 1))
                    return legs_vel(p, v, fl.WS(a, w, r_, j), RING, fl.WA(a, w, r_, j), T.app("nu", st))[c]

                r = add(r, summed(lambda a, w, c: red(cx.st, st, lambda r_: red(cx.st, wd.N(a, w), lambda j: wk(a, w, c, r_, j)))))
            return r

        cx.post("velocity", "out[k]", want, over=[("k", K)], tol=1e-6)

    return c


contract("C02", "first step: solution velocity")(velocity(0))
contract("C02", "later steps: solution velocity")(velocity(1))
