"""C15: time step, number of steps, averaging window and final results."""
from world import *

GROUPS = (
    ("forces", "total_near_field_force_wind_axes", "LF"),
    ("force_coefficients", "total_near_field_force_coefficients_wind_axes", "LC"),
    ("moments", "total_near_field_moment_wind_axes", "LM"),
    ("moment_coefficients", "total_near_field_moment_coefficients_wind_axes", "LD"),
)


def finalize(static):
    def c(cx):
        A = cx.dim("A")
        f = cx.integer("f", lo=0, hi=3)
        T.NONNEG_APPS.add("f")
        n = f + cx.dim("m")  # the averaging window has at least one step

        def airplane(k, a):
            return cx.obj("geometry.Airplane", **{attr: cx.vec(nm, k, a) for _, attr, nm in GROUPS})

        probs = cx.lst(n, lambda k: cx.obj("problems.SteadyProblem", airplanes=cx.lst(A, lambda a: airplane(k, a))))
        up = cx.obj("problems.UnsteadyProblem", max_period=ZERO if static else cx.pos("period"), num_steps=n, first_averaging_step=f,
                    first_results_step=cx.integer("fr", lo=0, hi=2), delta_time=cx.pos("dt"), steady_problems=probs)
        cx.let(up=up)
        cx.exec("""
        solver = ps.%s(unsteady_problem=up)
        solver.finalize_near_field_forces_and_moments()
        """ % UNSTEADY)
        results(cx, n, f, A, static)

    return c


def results(cx, n, f, A, static):
        """the final results are those of the loads LF, LC, LM, LD [step, airplane]"""
        for g, attr, nm in GROUPS:
            for kind in ("", "mean_", "rms_"):
                e = "up.final_%snear_field_%s_wind_axes" % (kind, g)
                used = (kind == "") == static
                cx.post("%s%s: one entry per airplane" % (kind, g), "len(%s)" % e, (lambda: A) if used else (lambda: ZERO))
                if not used:
                    continue

                def want(a, kind=kind, nm=nm):
                    out = []
                    for c in range(3):
                        def x(k, c=c):
                            return T.app(nm, k, a, num(c))

                        if kind == "":
                            out.append(x(n - 1))
                        else:
                            m = n - f
                            if kind == "mean_":
                                out.append(cx.I.lib.red(cx.st, m, lambda r: x(f + r)) / m)
                            else:
                                out.append(T.sqrt(cx.I.lib.red(cx.st, m, lambda r: x(f + r) * x(f + r)) / m))
                    return tuple(out)

                cx.post("%s%s of every airplane" % (kind, g), e + "[a]", want, over=[("a", A)])


def at_end(static, runs=1):
    """the end of a run, after any history of the time steps"""

    def c(cx):
        st = cx.integer("s", lo=0, hi=2)
        T.NONNEG_APPS.add("s")
        f = cx.integer("fa", lo=0, hi=2)
        T.NONNEG_APPS.add("fa")
        frame_contracts(cx)
        fl = Flight(cx, st, more=f, first_results=ZERO)
        fl.let()
        up = cx.inp["up"]
        if static:
            cx.setf(up, "max_period", ZERO)
        A = fl.wd.A
        cx.let(n=fl.n, **{nm: cx.arr(nm, (fl.n, A, num(3))) for _, _, nm in GROUPS})
        cx.exec("""
        def havoc():
            for k in range(n):
                for a in range(len(up.steady_problems[k].airplanes)):
                    airplane = up.steady_problems[k].airplanes[a]
%s
        solver = ps.%s(unsteady_problem=up)
        %s""" % ("\n".join("                    airplane.%s = %s[k, a]" % (attr, nm) for _, attr, nm in GROUPS), UNSTEADY,
               """verif_cut(solver.run, n - 1, havoc, verif_after=True, logging_level="Critical", calculate_streamlines=False)
        """ * runs))
        results(cx, fl.n, f, A, static)

    return c


contract("C15", "end of a run: static motion")(at_end(True))
contract("C15", "end of a run: periodic motion")(at_end(False))

contract("C15", "final results of a static motion")(finalize(True))
contract("C15", "final results of a periodic motion")(finalize(False))


def problem(static):
    def c(cx):
        A = cx.dim("A")
        n = cx.dim("n", hi=6)
        dt = cx.pos("dt", lo=0.1, hi=1.0)
        per = ZERO if static else cx.pos("period", lo=0.1, hi=4.0)
        only = cx.boolean("only")
        planes = cx.lst(A, lambda a: cx.lst(n, lambda k: cx.obj("geometry.Airplane", tag=cx.real("tag", a, k))))
        ops = cx.lst(n, lambda k: cx.obj("operating_point.OperatingPoint", tag=cx.real("otag", k)))
        mv = cx.obj("movement.Movement", num_steps=n, delta_time=dt, airplanes=planes, operating_points=ops,
                    get_max_period=fun(lambda: per))
        cx.let(mv=mv, only=only)
        cx.exec("p = ps.problems.UnsteadyProblem(movement=mv, only_final_results=only)")
        first = n - 1 if static else T.maxv(ZERO, T.floor(n - per / dt))
        cx.post("averaging starts at the last step (static) or one longest period before the end", "p.first_averaging_step", lambda: first)
        cx.post("loads are computed from the first step that needs them", "p.first_results_step", lambda: ite(only, first, ZERO))
        cx.post("steps and step size are the movement's", "(p.num_steps, p.delta_time, p.max_period, len(p.steady_problems))", lambda: (n, dt, per, n))
        cx.post("every step has all airplanes", "len(p.steady_problems[k].airplanes)", lambda k: A, over=[("k", n)])
        cx.post("step k holds every airplane's k-th snapshot", "p.steady_problems[k].airplanes[a].tag", lambda k, a: T.app("tag", a, k), over=[("k", n), ("a", A)])
        cx.post("step k holds the k-th operating point", "p.steady_problems[k].operating_point.tag", lambda k: T.app("otag", k), over=[("k", n)])

    return c


contract("C15", "averaging window of a static motion")(problem(True))
contract("C15", "averaging window of a periodic motion")(problem(False))


def movement(static, steps, cycles, dt_given):
    def c(cx):
        A = cx.dim("A")
        V = cx.pos("V", lo=1.0, hi=8.0)
        per = ZERO if static else cx.pos("period", lo=0.3, hi=4.0)

        def am(a):
            M = cx.dim("M", a)
            base = cx.obj("geometry.Airplane", c_ref=cx.pos("cref", a), wings=cx.lst(cx.dim("W", a), lambda w: cx.obj("geometry.Wing", num_chordwise_panels=cx.dim("M", a, w))))
            return cx.obj("movement.AirplaneMovement", base_airplane=base,
                          get_max_period=fun(lambda a: ZERO if static else T.app("ap", a), a),
                          generate_airplanes=fun(lambda a, num_steps, delta_time: (num_steps, delta_time, a), a))

        ams = cx.lst(A, am)
        if not static:
            cx.pos("ap", ZERO, lo=0.3, hi=4.0)
            per = T.maxv(T.rmax(A, *(lambda v: (v, T.app("ap", v)))(fresh("m", "int", ZERO, A))), T.app("op"))
            cx.pos("op", lo=0.3, hi=4.0)
        opm = cx.obj("movement.OperatingPointMovement", base_operating_point=cx.obj("operating_point.OperatingPoint", velocity=V),
                     get_max_period=fun(lambda: ZERO if static else T.app("op")),
                     generate_operating_points=fun(lambda num_steps, delta_time: (num_steps, delta_time)))
        kw = []
        inp = dict(ams=ams, opm=opm)
        if steps:
            inp["ns"] = ns = cx.dim("ns")
            kw.append("num_steps=ns")
        if cycles:
            inp["cy"] = cy = cx.dim("cy")
            kw.append(("num_chords" if static else "num_cycles") + "=cy")
        else:
            cy = num(10 if static else 3)
        if dt_given:
            inp["dt"] = dt = cx.pos("dt", lo=0.1, hi=1.0)
            kw.append("delta_time=dt")
        else:
            dt = cx.I.lib.red(cx.st, A, lambda a: T.app("cref", a) / T.app("M", a, ZERO, sort="int") / V) / A
        cx.let(**inp)
        cx.exec("mv = ps.movement.Movement(airplane_movements=ams, operating_point_movement=opm, %s)" % ", ".join(kw))
        if not steps:
            if static:
                top = T.rmax(A, *(lambda v: (v, T.app("cref", v)))(fresh("m", "int", ZERO, A)))
                ns = T.ceil(cy * top / (dt * V))
            else:
                ns = T.ceil(cy * per / dt)
        cx.post("time step", "mv.delta_time", lambda: dt)
        cx.post("number of steps", "mv.num_steps", lambda: ns)
        cx.post("one list of snapshots per airplane", "len(mv.airplanes)", lambda: A)
        cx.post("each airplane movement is sampled at these steps", "mv.airplanes[a]", lambda a: (ns, dt, a), over=[("a", A)])
        cx.post("the operating point is sampled at these steps", "mv.operating_points", lambda: (ns, dt))
        cx.post("longest period", "mv.get_max_period()", lambda: per)

    return c


for static in (True, False):
    for nm, a in (("defaults", (0, 0, 0)), ("given count", (0, 1, 0)), ("given step", (0, 0, 1)), ("given steps", (1, 0, 1)), ("given steps, default step", (1, 0, 0))):
        contract("C15", "%s motion: %s" % ("static" if static else "periodic", nm))(movement(static, *a))


@contract("C15", "longest period of airplane, wing and cross section movements")
def periods(cx):
    def wcs(*ix):
        return cx.obj("movement.WingCrossSectionMovement", **{"%s_period" % k: cx.pos("q" + k, *ix) for k in ("sweeping", "pitching", "heaving")})

    def wing(w):
        return cx.obj("movement.WingMovement", wing_cross_section_movements=cx.lst(cx.dim("X", w), lambda x: wcs(w, x)),
                      **{"%s_le_period" % k: cx.pos("w" + k, w) for k in "xyz"})

    W = cx.dim("W")
    am = cx.obj("movement.AirplaneMovement", wing_movements=cx.lst(W, wing), **{"%s_ref_period" % k: cx.pos("a" + k) for k in "xyz"})
    opm = cx.obj("movement.OperatingPointMovement", velocity_period=cx.pos("vp"))
    cx.let(am=am, opm=opm)
    cx.exec("p = am.get_max_period()\nv = opm.get_max_period()\nwp = [m.get_max_period() for m in am.wing_movements]")

    def mx(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = T.maxv(r, x)
        return r

    def over(n, f):
        v = fresh("m", "int", ZERO, n)
        return T.rmax(n, v, f(v))

    def section(w, x):
        return mx(*[T.app("q" + k, w, x) for k in ("sweeping", "pitching", "heaving")])

    def wingp(w):
        return mx(over(T.app("X", w, sort="int"), lambda x: section(w, x)), *[T.app("w" + k, w) for k in "xyz"])

    cx.post("wing", "wp[w]", lambda w: wingp(w), over=[("w", W)])
    cx.post("airplane", "p", lambda: mx(over(W, wingp), *[T.app("a" + k) for k in "xyz"]))
    cx.post("operating point", "v", lambda: T.app("vp"))
