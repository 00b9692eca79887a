"""C22: streamlines."""
from world import *
import c01


def seeds(kind):
    def c(cx):
        start(cx)
        seeded(cx, c01.steady(cx, kind))

    return c


def start(cx):
    """first seed of a wing: one per trailing edge panel of the wings before"""
    red = lambda n, f: cx.I.lib.red(cx.st, n, f)
    W = lambda a: T.app("W", a, sort="int")
    N = lambda a, w: T.app("N", a, w, sort="int")
    f = lambda a, w: red(a, lambda k: red(W(k), lambda v: N(k, v))) + red(w, lambda v: N(a, v))
    cx.specfun("start", f, lambda a, w: int(cx.E.p(f(num(a), num(w)))))


def seeded(cx, w):
    red = lambda n, f: cx.I.lib.red(cx.st, n, f)
    cx.post("one per trailing edge panel", "solver.seed_points.shape", lambda: (red(w.A, lambda a: red(w.W(a), lambda k: w.N(a, k))), num(3)))
    cx.post("midpoint of the back edge", "solver.seed_points[start(a, v) + j]",
            lambda a, v, j: scale(H, add(w.corner(2, a, v, w.M(a, v) - ONE, j), w.corner(3, a, v, w.M(a, v) - ONE, j))),
            over=[("a", w.A), ("v", lambda a: w.W(a)), ("j", lambda a, v: w.N(a, v))])


contract("C22", "horseshoe solver: seeds")(seeds("horseshoe"))
contract("C22", "ring solver: seeds")(seeds("ring"))


def follow(steps):
    """from any seeds, in any flow"""

    def c(cx):
        S = cx.dim("S")
        n = num(steps) if steps else cx.dim("n") + 1
        dt = cx.real("dt")
        for k in range(3):
            cx.num_funs["SV%d" % k] = (lambda k: lambda x, y, z: float(np.sin(1.1 * float(x) + 0.7 * float(y) * (k + 1) - 0.4 * float(z)) + k))(k)

        def vel(I, st, points):
            P_ = I.lib.nd(st, points)

            def get(i):
                v = [T.app("SV%d" % k, *[I.lib.n(P_.get((i[0], num(c)))) for c in range(3)]) for k in range(3)]
                return v[i[1].as_int()] if i[1].as_int() is not None else I.lib.select(v, i[1])

            return I.alloc(st, (P_.shape[0], num(3)), get, "real")

        solver = cx.obj(STEADY["ring"], seed_points=cx.arr("seed", (S, num(3))), streamline_points=None,
                        calculate_solution_velocity=fun(vel, state=True, py=lambda points: np.array([[cx.num_funs["SV%d" % k](*p) for k in range(3)] for p in points]).reshape(-1, 3)))
        sv = lambda p: tuple(T.app("SV%d" % k, *p) for k in range(3))
        over = lambda m: [("k", m), ("i", S)]
        cx.let(solver=solver, dt=dt, n=n)
        if steps:
            cx.exec("ps.functions.calculate_streamlines(solver, num_steps=n, delta_time=dt)")
            cx.post("steps", "solver.streamline_points.shape", lambda: (n + 1, S, num(3)))
            q = [lambda i: tuple(T.app("seed", i, num(c)) for c in range(3))]
            for k in range(steps):
                q.append(lambda i, p=q[k]: add(p(i), scale(dt, sv(p(i)))))
            for k in range(steps + 1):
                cx.post("row %d" % k, "solver.streamline_points[%d, i]" % k, lambda i, k=k: q[k](i), over=[("i", S)])
            return
        k = cx.integer("k", lo=0, hi=1)
        T.NONNEG_APPS.add("k")
        cx.require(lt(k, n))
        cx.let(k=k, old=cx.arr("old", (k + 1, S, num(3))))
        cx.exec("""
        def havoc():
            verif_need(solver.streamline_points is not None)
            solver.streamline_points = old
        space = verif_cut(ps.functions.calculate_streamlines, k, havoc, solver=solver, num_steps=n, delta_time=dt)
        verif_need(solver.streamline_points is not old)
        """)
        o = lambda k, i: tuple(T.app("old", k, i, num(c)) for c in range(3))
        cx.post("steps", "len(space)", lambda: n)
        cx.post("one row more", "solver.streamline_points.shape", lambda: (k + 2, S, num(3)))
        cx.post("rows so far stay", "solver.streamline_points[r, i]", lambda r, i: o(r, i), over=[("r", k + 1), ("i", S)])
        cx.post("the next point: displaced by the velocity there", "solver.streamline_points[k + 1, i]", lambda i: add(o(k, i), scale(dt, sv(o(k, i)))), over=[("i", S)])

    return c


for m in (1, 2, 3):
    contract("C22", "%d steps" % m)(follow(m))
contract("C22", "one more step")(follow(0))


@contract("C22", "unsteady solver: seeds of any step")
def unsteady(cx):
    start(cx)
    s = cx.integer("s", lo=0, hi=2)
    T.NONNEG_APPS.add("s")
    fl = Flight(cx, s)
    kernel_contracts(cx)
    frame_contracts(cx)
    no_loads(cx)
    cx.summary(UNSTEADY + ".calculate_near_field_forces_and_moments", lambda I, st, env: None)
    cx.summary(UNSTEADY + ".populate_next_airplanes_wake", lambda I, st, env: None)
    fl.let()
    cx.exec(Flight.STEP % "True")
    seeded(cx, fl.at(s))
