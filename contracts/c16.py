"""C16: trim searches.  An optimiser is any sequence of calls of the objective:
some completed ones (which leave everything the objective writes in any state),
then perhaps one more, at any point; an exception the objective raises ends it."""
from world import *
import values as V_
from interp import Exit

CF = ("total_near_field_force_coefficients_wind_axes", "total_near_field_moment_coefficients_wind_axes")
FIN = ["%snear_field_%s_coefficients_wind_axes" % (p, k) for p in ("final_", "final_mean_", "final_rms_") for k in ("force", "moment")]


def lib_fun(a, k):
    return a[0] if a else k["fun"] if "fun" in k else k["func"]


def changes(I, st, s1, fam0, buf0):
    """What a run from st to s1 changed of what existed before."""
    out = []
    for fid, fr in st.frames.items():
        for nm, v in fr.items():
            w = s1.frames.get(fid, {}).get(nm, v)
            if w is not v and not V_.same_value(v, w):
                out.append(("frame", fid, nm))
    for fk, fm in s1.fields.items():
        if fk[0].id <= fam0:
            o = st.fields.get(fk)
            if o is None or (fm is not o and not V_.same_value(o.val, fm.val)):
                out.append(("field", fk))
    for b, c in st.bufs.items():
        d = s1.bufs.get(b)
        if d is not c and b <= buf0:
            out.append(("buf", b))
    return out


def any_state(I, st, s1, where):
    """The same state with those locations holding anything."""

    def like(v, vars_):
        T._fresh[0] += 1
        nm = "havoc!%d" % T._fresh[0]
        args = tuple(ap(x) for x in vars_)
        if isinstance(v, P):
            return T.app(nm, *args, sort="int" if v.is_int else "real")
        if isinstance(v, B):
            return T.pred(nm, *args)
        if isinstance(v, ArrRef):
            nd = I.lib.nd(s1, v)
            return I.alloc(st, nd.shape, lambda i: T.app(nm, *args, *i), "real")
        raise Unsupported("an optimiser's objective changes %r" % (v,))

    for w in where:
        if w[0] == "frame":
            st.frames[w[1]][w[2]] = like(s1.frames[w[1]][w[2]], ())
        elif w[0] == "field":
            fm = s1.fields[w[1]]
            st.fields[w[1]] = V_.FieldMap(fm.vars, like(fm.val, fm.vars))
        else:
            c = s1.bufs[w[1]]
            T._fresh[0] += 1
            nm = "havoc!%d" % T._fresh[0]
            iv, keys = [], [()]
            for d, old in zip(c.shape, c.ivars):
                if old is None:
                    iv.append(None)
                    keys = [k + (i,) for k in keys for i in range(d.as_int())]
                else:
                    iv.append(T.only_atom(fresh("i", "int", ZERO, None)))
            sym = [ap(x) for x in iv if x is not None]
            st.bufs[w[1]] = V_.BufC(c.shape, tuple(iv), {k: T.app(nm, *[num(i) for i in k], *sym) for k in keys})


def optimiser(cx, tag, n):
    """(symbolic summary, the points a concrete run evaluates)"""
    xs = lambda k: [T.app("X" + tag, num(k), num(c)) for c in range(n)]
    for c in range(n):
        cx.ranges["X" + tag] = (0.4, 2.0)

    def s(I, st, a, k):
        from values import Fam, Buf

        f = lib_fun(a, k)
        y = lambda s0, v: I.alloc(s0, (num(n),), lambda i: v[i[0].as_int()] if i[0].as_int() is not None else I.lib.select(v, i[0]), "real")
        done = set()
        for _ in range(6):
            s1 = st.copy()
            fam0, buf0 = Fam.n, Buf.n
            sink = []
            I.raise_sinks.append(sink)
            try:
                I.call(s1, f, [y(s1, [T.app("Y%s%d" % (tag, c)) for c in range(n)])], {})
            finally:
                I.raise_sinks.pop()
            new = [w for w in changes(I, st, s1, fam0, buf0) if w not in done]
            if not new:
                break
            any_state(I, st, s1, new)
            done |= set(new)
            done |= {("buf", b) for b in st.bufs if b > buf0}
        else:
            raise Unsupported("the objective's state does not settle")

        def more(s2):
            I.call(s2, f, [y(s2, xs(1))], {})
            return True

        if not I.exec_if(T.pred("MORE" + tag), more, lambda s2: True, st):
            raise Raised(V_.ExcVal("StopIteration"))
        return None

    return s, xs


def spec(cx, n, weight, sref, rho, coef, cut, thrust):
    """Expected result, as terms and as numbers."""

    def objective(x, W, S, R, cf):
        q = H * R * x[0] * x[0]
        ext = (x[3] if thrust else ZERO, ZERO, W)
        f = [cf(c, x) - ext[c] / (q * S) for c in range(3)]
        m = [cf(3 + c, x) for c in range(3)]
        return (norm(f) + norm(m)) / 2

    nan = V_.Opaque("nan", "nan")

    def sym():
        r = [nan] * n
        for tag in ("G", "L"):
            x = [T.app("X" + tag, num(1), num(c)) for c in range(n)]
            ok = and_(T.pred("MORE" + tag), lt(objective(x, weight, sref, rho, coef), cut))
            r = [V_.mk_choice(ok, x[c], r[c]) for c in range(n)]
        return tuple(r)

    def seq(tag):
        """the points of a concrete run"""
        E = cx.E
        k = 2 if E.b(T.pred("MORE" + tag)) else 1
        return [[float(E.p(T.app("X" + tag, num(i), num(c)))) for c in range(n)] for i in range(k)]

    def conc():
        E = cx.E
        for tag in ("L", "G"):
            for x in seq(tag):
                p = [num(Fraction(v)) for v in x]
                o = float(E.p(objective(p, weight, sref, rho, coef)))
                c = float(E.p(cut))
                if abs(o - c) < 1e-9:
                    raise Skip("tie")
                if o < c:
                    return tuple(x)
        return (math.nan,) * n

    cx.specfun("expected", sym, conc)
    return seq


def patched(cx, seq, more):
    old = cx.conc_patch

    def patch(ns):
        u = old(ns) if old else None
        import scipy.optimize as so

        import logging

        log = logging.getLogger("trim")
        saved = (so.minimize, so.dual_annealing, log.level)
        log.setLevel(logging.CRITICAL + 1)

        def run(tag):
            def f(*a, **k):
                g = lib_fun(a, k)
                for x in seq(tag):
                    g(np.array(x))

            return f

        so.minimize, so.dual_annealing = run("L"), run("G")
        undo2 = more(ns)

        def undo():
            so.minimize, so.dual_annealing = saved[:2]
            log.setLevel(saved[2])
            undo2()
            u and u()

        return undo

    cx.conc_patch = patch


def bounds(cx, names):
    for nm, b in names:
        cx.let(**{nm + "b": (b - cx.nonneg("lo" + nm), b + cx.nonneg("hi" + nm))})


def craft(cx):
    wd = World(cx, one=True)
    op = op_point(cx)
    cx.ranges["V"] = (0.5, 2.0)
    cx.ranges["alpha"] = cx.ranges["beta"] = cx.ranges["thrust"] = (-1.0, 1.0)
    for nm in ("CF", "CM", "CR"):
        for c in range(6):
            cx.ranges["%s%d" % (nm, c)] = (-1.0, 1.0)
    cut = cx.pos("cut", lo=0.3, hi=4.0)
    cx.let(op=op, cut=cut, nc=cx.integer("nc", lo=1, hi=50))
    frame_contracts(cx)
    return wd, cut


def state(I, st, o):
    return [I.lib.n(I.get_field(st, o, k)) for k in ("velocity", "alpha", "beta", "density")]


def state_num(o, rho):
    return [num(Fraction(float(x))) for x in (o.velocity, o.alpha, o.beta)] + [rho]


def loads_num(cx, nm, v):
    r = np.array([float(cx.E.p(T.app("%s%d" % (nm, c), *v))) for c in range(6)])
    return r[:3], r[3:]


def steady(cx):
    wd, cut = craft(cx)
    cx.let(airplanes=wd.airplanes())
    bounds(cx, [(k, T.app(k)) for k in ("V", "alpha", "beta", "thrust")])
    rho = T.app("rho")

    def run(I, st, env):
        s = env["self"]
        l = I.get_field(st, s, "airplanes")
        a = I.buf_get(st, l.buf, l.owner, (ZERO,))
        v = state(I, st, I.get_field(st, s, "operating_point"))
        for q, nm in enumerate(CF):
            I.set_field(st, a, nm, I.alloc(st, (num(3),), lambda i, q=q: T.app("CF%d" % (3 * q + i[0].as_int()), *v), "real"))
        return None

    cx.summary(STEADY["horseshoe"] + ".run", run)
    for tag, nm in (("L", "lib:minimize"), ("G", "lib:dual_annealing")):
        cx.summary(nm, optimiser(cx, tag, 4)[0])
    seq = spec(cx, 4, T.app("weight", ZERO), T.app("sref", ZERO), rho, lambda c, x: T.app("CF%d" % c, x[0], x[1], x[2], rho), cut, True)

    def more(ns):
        import pterasoftware.steady_horseshoe_vortex_lattice_method as m

        C = m.SteadyHorseshoeVortexLatticeMethodSolver
        saved = C.run

        def f(self, *a, **k):
            for nm, r in zip(CF, loads_num(cx, "CF", state_num(self.operating_point, rho))):
                setattr(self.airplanes[0], nm, r)

        C.run = f
        return lambda: setattr(C, "run", saved)

    patched(cx, seq, more)
    cx.exec("""
    problem = ps.problems.SteadyProblem(airplanes=airplanes, operating_point=op)
    res = ps.trim.analyze_steady_trim(problem, Vb, alphab, betab, thrustb, objective_cut_off=cut, num_calls=nc)
    """)
    cx.post("the reported state was evaluated and is below the cut-off; otherwise every entry is NaN", "res", "expected()", tol=1e-9, nan=True)


contract("C16", "steady trim")(steady)


def rejected(cx):
    """A start outside the bounds raises before the optimiser is called."""
    wd, cut = craft(cx)
    args = ("V", "alpha", "beta", "thrust")
    out = []
    for k in args:
        lo, hi = cx.real("lo" + k, lo=-1.5, hi=0.3), cx.real("hi" + k, lo=0.7, hi=3.0)
        out += [lt(T.app(k), lo), lt(hi, T.app(k))]
        cx.let(**{k + "b": (lo, hi)})
    cx.let(airplanes=wd.airplanes())

    def called(I, st, a, k):
        I.set_field(st, cx.inp["log"], "called", TRUE)
        return None

    cx.let(log=cx.obj("problems.SteadyProblem", called=FALSE))
    for nm in ("lib:minimize", "lib:dual_annealing"):
        cx.summary(nm, called)

    def patch(ns):
        import logging
        import scipy.optimize as so

        saved = (so.minimize, so.dual_annealing)
        g = ns["log"]
        logging.getLogger("trim").setLevel(logging.CRITICAL + 1)

        def f(*a, **k):
            g.called = True

        so.minimize = so.dual_annealing = f

        def undo():
            so.minimize, so.dual_annealing = saved

        return undo

    cx.conc_patch = patch
    cx.exec("""
    problem = ps.problems.SteadyProblem(airplanes=airplanes, operating_point=op)
    refused = False
    try:
        ps.trim.analyze_steady_trim(problem, Vb, alphab, betab, thrustb, objective_cut_off=cut, num_calls=nc)
    except Exception:
        refused = True
    """)
    cx.post("a start outside the bounds is refused, any other is not", "refused", lambda: or_(*out))
    cx.post("and then the search is not started", "log.called", lambda: not_(or_(*out)))
    cx.post("nor the operating point changed", "(op.velocity, op.alpha, op.beta)", lambda: tuple(T.app(k) for k in args[:3]))


contract("C16", "steady trim refuses a start outside the bounds")(rejected)


def unsteady(cx, static):
    wd, cut = craft(cx)
    rho = T.app("rho")
    period = ZERO if static else cx.pos("period")
    bounds(cx, [(k, T.app(k)) for k in ("V", "alpha", "beta")])
    cx.let(am=cx.obj("movement.AirplaneMovement", base_airplane=wd.airplane(ZERO)))

    def op_moved(I, st, env):
        I.set_field(st, env["self"], "base_operating_point", env["base_operating_point"])

    def moved(I, st, env):
        # a movement's operating points are copies of the base one as it is now
        o = I.get_field(st, env["operating_point_movement"], "base_operating_point")
        l = env["airplane_movements"]
        if not isinstance(l, V_.ListRef) or I.lib.list_len(st, l).as_int() != 1 or I.buf_get(st, l.buf, l.owner, (ZERO,)) is not cx.inp["am"]:
            raise Unsupported("another airplane movement")
        for k, x in zip(AT, state(I, st, o)):
            I.set_field(st, env["self"], k, x)

    def posed(I, st, env):
        I.set_field(st, env["self"], "movement", env["movement"])
        I.set_field(st, env["self"], "max_period", period)

    def built(I, st, env):
        I.set_field(st, env["self"], "problem", env["unsteady_problem"])

    def run(I, st, env):
        p = I.get_field(st, env["self"], "problem")
        m = I.get_field(st, p, "movement")
        v = [I.lib.n(I.get_field(st, m, k)) for k in AT]
        for q, nm in enumerate(FIN):
            def get(i, q=q):
                return T.app("%s%d" % (("CF", "CM", "CR")[q // 2], 3 * (q % 2) + i[0].as_int()), *v)

            I.set_field(st, p, nm, I.lib.mk_list(st, [I.alloc(st, (num(3),), get, "real")]))

    for q, f in (("movement.OperatingPointMovement", op_moved), ("movement.Movement", moved), ("problems.UnsteadyProblem", posed), (UNSTEADY, built)):
        cx.summary(q + ".__init__", f)
    cx.summary(UNSTEADY + ".run", run)
    for tag, nm in (("L", "lib:minimize"), ("G", "lib:dual_annealing")):
        cx.summary(nm, optimiser(cx, tag, 3)[0])
    seq = spec(cx, 3, T.app("weight", ZERO), T.app("sref", ZERO), rho,
               lambda c, x: T.app("%s%d" % ("CF" if static else "CM", c), x[0], x[1], x[2], rho), cut, False)

    def more(ns):
        import importlib

        undo = []

        def put(qual, meth, f):
            m, c = qual.split(".")
            C = getattr(importlib.import_module("pterasoftware." + m), c)
            undo.append((C, meth, getattr(C, meth)))
            setattr(C, meth, f)

        def c_op(self, base_operating_point, *a, **k):
            self.base_operating_point = base_operating_point

        def c_move(self, airplane_movements, operating_point_movement, *a, **k):
            self.at = state_num(operating_point_movement.base_operating_point, rho)

        def c_pose(self, movement, *a, **k):
            self.movement = movement
            self.max_period = float(cx.E.p(period))

        def c_build(self, unsteady_problem):
            self.problem = unsteady_problem

        def c_run(self, *a, **k):
            p = self.problem
            stat = p.max_period == 0
            for q, nm in enumerate(FIN):
                l = loads_num(cx, ("CF", "CM", "CR")[q // 2], p.movement.at)[q % 2]
                setattr(p, nm, [l] if stat == (q < 2) else [])

        for q, f in (("movement.OperatingPointMovement", c_op), ("movement.Movement", c_move), ("problems.UnsteadyProblem", c_pose), (UNSTEADY, c_build)):
            put(q, "__init__", f)
        put(UNSTEADY, "run", c_run)

        def u():
            for C, meth, f in undo:
                setattr(C, meth, f)

        return u

    patched(cx, seq, more)
    cx.exec("""
    res = ps.trim.analyze_unsteady_trim(am, op, Vb, alphab, betab, objective_cut_off=cut, num_calls=nc)
    """)
    cx.post("the reported state was evaluated and is below the cut-off; otherwise every entry is NaN", "(res[0], res[1], res[2])", "expected()", tol=1e-9, nan=True)
    cx.post("three entries", "len(res)", lambda: num(3))


AT = ("at_velocity", "at_alpha", "at_beta", "at_density")
contract("C16", "unsteady trim, static geometry")(lambda cx: unsteady(cx, True))
contract("C16", "unsteady trim, periodic motion")(lambda cx: unsteady(cx, False))
