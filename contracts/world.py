"""Abstract airplanes, wings, panels, operating points and problems: any number
of airplanes, wings per airplane, chordwise and spanwise panels, any corner
coordinates, any reference data."""
from spec import *

CORN = ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")
SHORT = ("FLV", "FRV", "BLV", "BRV")


def _cn(args):
    a = [float(x) for x in args]
    return [np.array(a[3 * k:3 * k + 3]) for k in range(4)]


def _un(c):
    def f(*a):
        fl, fr, bl, br = _cn(a)
        n = np.cross(fr - bl, fl - br)
        return float((n / np.linalg.norm(n))[c])

    return f


def _area(*a):
    fl, fr, bl, br = _cn(a)
    return float(np.linalg.norm(np.cross(fr - bl, fl - br)) / 2)


GEOM_FUNS = {"AREA": _area}
for _c in range(3):
    GEOM_FUNS["UN%d" % _c] = _un(_c)


def corners_of(I, st, panel):
    r = []
    for k in CORN:
        v = I.lib.nd(st, I.get_field(st, panel, k))
        r.extend(I.lib.n(v.get((num(c),))) for c in range(3))
    return r


def panel_contracts(cx):
    """unit_normal and area of a panel by their C08 contracts, as functions of
    the four corners."""
    cx.num_funs.update(GEOM_FUNS)
    T.POS_APPS.add("AREA")
    T.NONNEG_APPS.add("AREA")

    def un(I, st, env):
        c = corners_of(I, st, env["self"])
        return I.alloc(st, (num(3),), lambda idx: T.app("UN%d" % idx[0].as_int(), *c), "real")

    def area(I, st, env):
        return T.app("AREA", *corners_of(I, st, env["self"]))

    cx.summary("panel.Panel.unit_normal", un)
    cx.summary("panel.Panel.area", area)


def span_contract(cx):
    """Wing.span by its C18 contract: a positive function of the wing."""

    def span(I, st, env):
        return I.lib.n(I.get_field(st, env["self"], "verif_span"))

    cx.summary("geometry.Wing.span", span)
    old = cx.conc_patch

    def patch(ns):
        undo = old(ns) if old else None
        W = ns["ps"].geometry.Wing
        saved = W.__dict__["span"]
        W.span = property(lambda self: self.__dict__["verif_span"])

        def u():
            W.span = saved
            if undo:
                undo()

        return u

    cx.conc_patch = patch


class World:
    """cx.let(airplanes=..., op=...) plus accessors for specifications."""

    def __init__(self, cx, one=False, tag=""):
        self.cx = cx
        self.tag = tag
        self.pre = ()
        t = tag
        self.A = num(1) if one else cx.dim("A" + t)
        panel_contracts(cx)
        span_contract(cx)

    def at(self, *pre):
        """the same airplanes at another time step"""
        import copy

        r = copy.copy(self)
        r.pre = pre
        return r

    # sizes
    def W(self, a):
        return self.cx.dim("W" + self.tag, a)

    def M(self, a, w):
        return self.cx.dim("M" + self.tag, a, w)

    def N(self, a, w):
        return self.cx.dim("N" + self.tag, a, w)

    def over(self, panels=True):
        o = [("a", self.A), ("w", lambda a: self.W(a))]
        if panels:
            o += [("i", lambda a, w: self.M(a, w)), ("j", lambda a, w, i: self.N(a, w))]
        return o

    # corner coordinates
    def corner(self, k, a, w, i, j):
        return tuple(T.app(SHORT[k] + self.tag, *self.pre, a, w, i, j, num(c)) for c in range(3))

    def corners(self, a, w, i, j):
        return [self.corner(k, a, w, i, j) for k in range(4)]

    def flat_corners(self, a, w, i, j):
        return [x for v in self.corners(a, w, i, j) for x in v]

    def normal(self, a, w, i, j):
        c = self.flat_corners(a, w, i, j)
        return tuple(T.app("UN%d" % k, *c) for k in range(3))

    def area(self, a, w, i, j):
        return T.app("AREA", *self.flat_corners(a, w, i, j))

    def fl(self, a, w, i, j):
        """front left corner of the panel's bound vortex (quarter chord)"""
        v = self.corner(0, a, w, i, j)
        b = self.corner(2, a, w, i, j)
        return add(v, scale(Q, sub(b, v)))

    def fr(self, a, w, i, j):
        v = self.corner(1, a, w, i, j)
        b = self.corner(3, a, w, i, j)
        return add(v, scale(Q, sub(b, v)))

    def colloc(self, a, w, i, j):
        t = num(Fraction(3, 4))
        FL, FR, BL, BR = self.corners(a, w, i, j)
        left = add(FL, scale(t, sub(BL, FL)))
        right = add(FR, scale(t, sub(BR, FR)))
        return add(left, scale(H, sub(right, left)))

    def span(self, a, w):
        return T.app("span" + self.tag, *self.pre, a, w)

    def ref(self, a):
        return tuple(T.app("xyzref" + self.tag, *self.pre, a, num(c)) for c in range(3))

    # totals
    def count_wing(self, a, w):
        return self.M(a, w) * self.N(a, w)

    def count_airplane(self, a):
        return self.cx.I.lib.red(self.cx.st, self.W(a), lambda w: self.count_wing(a, w))

    def row(self, a, w, i, j):
        """index of a panel in the order airplane, wing, chordwise, spanwise"""
        red, st = self.cx.I.lib.red, self.cx.st
        r = red(st, a, lambda k: self.count_airplane(k)) + red(st, w, lambda k: self.count_wing(a, k))
        return r + i * self.N(a, w) + j

    # objects
    def panel(self, a, w, i, j, extra=None):
        cx, t = self.cx, self.tag
        f = {}
        for nm, s in zip(CORN, SHORT):
            f[nm] = cx.vec(s + t, *self.pre, a, w, i, j)
        M, N = self.M(a, w), self.N(a, w)
        f.update(
            is_leading_edge=eq(i, 0), is_trailing_edge=eq(i, M - 1),
            is_left_edge=eq(j, 0), is_right_edge=eq(j, N - 1),
            local_chordwise_position=i, local_spanwise_position=j,
            ring_vortex=None, horseshoe_vortex=None,
            near_field_force_geometry_axes=None, near_field_moment_geometry_axes=None,
            near_field_force_wind_axes=None, near_field_moment_wind_axes=None,
            induced_drag_coefficient=None, side_force_coefficient=None, lift_coefficient=None,
        )
        if extra:
            f.update(extra(a, w, i, j))
        return cx.obj("panel.Panel", **f)

    def wing(self, a, w, extra=None, pextra=None):
        cx, t = self.cx, self.tag
        M, N = self.M(a, w), self.N(a, w)
        f = dict(
            num_chordwise_panels=M, num_spanwise_panels=N, num_panels=M * N,
            symmetric=cx.boolean("sym" + t, a, w), verif_span=cx.pos("span" + t, *self.pre, a, w),
            panels=cx.objarr((M, N), lambda i, j: self.panel(a, w, i, j, pextra)),
            wake_ring_vortex_vertices=cx.tab((ZERO, N + 1, num(3)), lambda *i: ZERO),
            wake_ring_vortices=cx.tab((ZERO, N), lambda *i: None, dtype="obj"),
        )
        if extra:
            f.update(extra(a, w))
        return cx.obj("geometry.Wing", **f)

    def airplane(self, a, extra=None, wextra=None, pextra=None):
        cx, t = self.cx, self.tag
        f = dict(
            wings=cx.lst(self.W(a), lambda w: self.wing(a, w, wextra, pextra)),
            name=cx.string("name" + t, a), weight=cx.pos("weight" + t, *self.pre, a),
            xyz_ref=cx.vec("xyzref" + t, *self.pre, a), x_ref=T.app("xyzref" + t, *self.pre, a, ZERO), y_ref=T.app("xyzref" + t, *self.pre, a, num(1)),
            z_ref=T.app("xyzref" + t, *self.pre, a, num(2)),
            s_ref=cx.pos("sref" + t, *self.pre, a), c_ref=cx.pos("cref" + t, *self.pre, a), b_ref=cx.pos("bref" + t, *self.pre, a),
            num_panels=self.count_airplane(a),
            total_near_field_force_wind_axes=None, total_near_field_force_coefficients_wind_axes=None,
            total_near_field_moment_wind_axes=None, total_near_field_moment_coefficients_wind_axes=None,
        )
        if extra:
            f.update(extra(a))
        return cx.obj("geometry.Airplane", **f)

    def airplanes(self, **kw):
        return self.cx.lst(self.A, lambda a: self.airplane(a, **kw))


def op_point(cx, *idx, tag=""):
    return cx.obj(
        "operating_point.OperatingPoint",
        density=cx.pos("rho" + tag, *idx), velocity=cx.pos("V" + tag, *idx, lo=0.5, hi=3.0),
        alpha=cx.real("alpha" + tag, *idx, lo=-20.0, hi=20.0), beta=cx.real("beta" + tag, *idx, lo=-20.0, hi=20.0),
        external_thrust=cx.real("thrust" + tag, *idx), nu=cx.pos("nu" + tag, *idx, lo=1e-6, hi=1e-2),
    )


def deg(x):
    return x * T.PI / 180


def fdir(alpha, beta):
    a, b = deg(alpha), deg(beta)
    return (T.cos(a) * T.cos(b), -T.sin(b), T.sin(a) * T.cos(b))


def FD(alpha, beta):
    return tuple(T.app("FD%d" % c, alpha, beta) for c in range(3))


def RM(alpha, beta):
    return tuple(tuple(T.app("RM%d%d" % (i, j), alpha, beta) for j in range(3)) for i in range(3))


def _fd(c):
    def f(al, be):
        a, b = math.radians(float(al)), math.radians(float(be))
        return (math.cos(a) * math.cos(b), -math.sin(b), math.sin(a) * math.cos(b))[c]

    return f


def _rm(i, j):
    def f(al, be):
        a, b = math.radians(float(al)), math.radians(float(be))
        ca, sa, cb, sb = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
        # columns: the wind x (upstream), y and z (down) axes in geometry axes
        return ((-ca * cb, ca * sb, sa), (sb, cb, 0.0), (-sa * cb, sa * sb, -ca))[i][j]

    return f


def frame_contracts(cx):
    """The operating point's direction, velocity and rotation by their C09
    contracts, as functions of alpha and beta."""
    for c in range(3):
        cx.num_funs["FD%d" % c] = _fd(c)
        for d in range(3):
            cx.num_funs["RM%d%d" % (c, d)] = _rm(c, d)

    def ang(I, st, o):
        return [I.lib.n(I.get_field(st, o, k)) for k in ("alpha", "beta")]

    def d(I, st, env):
        v = FD(*ang(I, st, env["self"]))
        return I.alloc(st, (num(3),), lambda i: v[i[0].as_int()], "real")

    def vel(I, st, env):
        o = env["self"]
        v = scale(I.lib.n(I.get_field(st, o, "velocity")), FD(*ang(I, st, o)))
        return I.alloc(st, (num(3),), lambda i: v[i[0].as_int()], "real")

    def rot(I, st, env):
        v = RM(*ang(I, st, env["self"]))
        return I.alloc(st, (num(3), num(3)), lambda i: v[i[0].as_int()][i[1].as_int()], "real")

    q = "operating_point.OperatingPoint."
    cx.summary(q + "calculate_freestream_direction_geometry_axes", d)
    cx.summary(q + "calculate_freestream_velocity_geometry_axes", vel)
    cx.summary(q + "calculate_rotation_matrix_wind_to_geometry", rot)


def no_streamlines(cx):
    """calculate_streamlines only assigns solver.streamline_points (C22)."""

    def s(I, st, env):
        I.set_field(st, env["solver"], "streamline_points", I.alloc(st, (num(1), ZERO, num(3)), lambda i: ZERO, "real"))
        return None

    cx.summary("functions.calculate_streamlines", s)


def no_loads(cx):
    """process_*_solver_forces only assigns the loads and coefficients of the
    panels and airplanes (C06)."""
    for k in ("steady", "unsteady"):
        cx.summary("functions.process_%s_solver_forces" % k, lambda I, st, env: None)


UNSTEADY = "unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver"
STEADY = {
    "horseshoe": "steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver",
    "ring": "steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver",
}
HELD = {
    "horseshoe": ["vortex_strengths", "freestream_velocity"],
    "ring": ["vortex_strengths", "freestream_velocity", "horseshoe_vortex_strengths", "horseshoe_vortex_back_right_vertex",
             "horseshoe_vortex_front_right_vertex", "horseshoe_vortex_front_left_vertex", "horseshoe_vortex_back_left_vertex"],
}


def velocity_contract(cx, kind="unsteady"):
    """calculate_solution_velocity by its contract (C01, C02): row k is a
    function of points[k] and of the vortices the solver holds (another state
    of those is another function)."""
    states = {}
    attrs = ["panel_%s_%s_vortex_vertices" % (x, y) for x in ("back", "front") for y in ("left", "right")]
    if kind == "unsteady":
        attrs += ["current_wake_ring_vortex_%s" % x for x in ("strengths", "ages", "front_right_vertices", "front_left_vertices", "back_left_vertices", "back_right_vertices")]
        attrs += ["current_vortex_strengths", "current_freestream_velocity_geometry_axes"]
    else:
        attrs += HELD[kind]

    def s(I, st, env):
        key = []
        for a in attrs:
            v = I.get_field(st, env["self"], a)
            if not isinstance(v, ArrRef):
                raise Unsupported("solver.%s" % a)
            key.append((v.buf.id, tuple(p.id if hasattr(p, "id") else str(p) for p in v.owner), st.bufs[v.buf.id]))
        if kind == "unsteady":
            o = I.get_field(st, env["self"], "current_operating_point")
            key.append(I.lib.n(I.get_field(st, o, "nu")))
        key = tuple(map(str, map(_ident, key)))
        k = states.setdefault(key, len(states))
        keep.append(key)
        P_ = I.lib.nd(st, env["points"])

        def get(idx):
            p = [I.lib.n(P_.get((idx[0], num(c)))) for c in range(3)]
            return T.app("SV%d_%s" % (k, idx[1].as_int()), *p) if idx[1].as_int() is not None else I.lib.select([T.app("SV%d_%d" % (k, c), *p) for c in range(3)], idx[1])

        return I.alloc(st, (P_.shape[0], num(3)), get, "real")

    keep = []

    def _ident(x):
        if isinstance(x, tuple):
            hold.append(x)
            return tuple(id(y) if not isinstance(y, (int, str, tuple)) else y for y in x)
        return x

    hold = []
    cx.summary((UNSTEADY if kind == "unsteady" else STEADY[kind]) + ".calculate_solution_velocity", s)


class Flight:
    """An unsteady problem at any of its time steps: n steps, airplanes and
    operating points that may differ from step to step, and at step s a wake
    of s rows behind every wing (any vertices, circulations and ages); older
    steps have theirs too, later ones have none yet."""

    def __init__(self, cx, s, more=0, first_results=None):
        self.cx = cx
        self.s = s = to_p(s)
        self.n = s + 1 + more + cx.integer("x", lo=0, hi=1)
        T.NONNEG_APPS.add("x")
        self.wd = World(cx)
        self.dt = cx.pos("dt", lo=0.05, hi=0.4)
        self.fr = to_p(first_results) if first_results is not None else s - cx.integer("fr", lo=-1, hi=1)

    def at(self, k):
        return self.wd.at(to_p(k))

    def WV(self, a, w, r, j):
        return tuple(T.app("WV", a, w, r, j, num(c)) for c in range(3))

    def WS(self, a, w, r, j):
        return T.app("WS", a, w, r, j)

    def WA(self, a, w, r, j):
        return T.app("WA", a, w, r, j)

    def G(self, a, w, i, j):
        """circulations of the previous step"""
        return T.app("GL", a, w, i, j)

    def wake_extra(self, k):
        cx, s = self.cx, self.s

        def f(a, w):
            N = self.wd.N(a, w)
            return dict(
                wake_ring_vortex_vertices=cx.tab((ite(eq(k, s), s + 1 if s.t else ZERO, ZERO), N + 1, num(3)), lambda r, j, c: T.app("WV", a, w, r, j, c)),
                wake_ring_vortices=cx.tab((ite(eq(k, s), s, ZERO), N), lambda r, j: self.vortex(a, w, r, j), dtype="obj"),
            )

        return f

    def legs(self, v):
        cx = self.cx
        d = {}
        for nm, o, t in (("front_leg", "fr", "fl"), ("left_leg", "fl", "bl"), ("back_leg", "bl", "br"), ("right_leg", "br", "fr")):
            d[nm] = (v[o], v[t])
        return d

    def vortex(self, a, w, r, j):
        cx = self.cx
        v = dict(fl=self.WV(a, w, r, j), fr=self.WV(a, w, r, j + 1), bl=self.WV(a, w, r + 1, j), br=self.WV(a, w, r + 1, j + 1))

        def vec(t):
            return cx.I.alloc(cx.st, (num(3),), lambda i: cx.I.lib.select(t, i[0]) if i[0].as_int() is None else t[i[0].as_int()], "real")

        s = self.WS(a, w, r, j)
        f = dict(front_left_vertex=vec(v["fl"]), front_right_vertex=vec(v["fr"]), back_left_vertex=vec(v["bl"]), back_right_vertex=vec(v["br"]),
                 strength=s, age=self.WA(a, w, r, j), center=vec(scale(Q, add(add(v["fl"], v["fr"]), add(v["bl"], v["br"])))))
        for nm, (o, t) in self.legs(v).items():
            f[nm] = cx.obj("aerodynamics.LineVortex", origin=vec(o), termination=vec(t), strength=s, center=vec(scale(H, add(o, t))), vector=vec(sub(t, o)))
        return cx.obj("aerodynamics.RingVortex", **f)

    def problem(self, k):
        return self.cx.obj("problems.SteadyProblem", airplanes=self.at(k).airplanes(wextra=self.wake_extra(k)), operating_point=op_point(self.cx, k))

    def let(self):
        cx = self.cx
        cx.ranges["WV"] = cx.ranges["WS"] = cx.ranges["GL"] = (-1.5, 1.5)
        cx.pos("WA", ZERO, lo=0.05, hi=1.0)
        wd = self.wd
        probs = cx.lst(self.n, self.problem)
        up = cx.obj("problems.UnsteadyProblem", num_steps=self.n, delta_time=self.dt, steady_problems=probs,
                    first_results_step=self.fr, first_averaging_step=self.cx.integer("fa", lo=0, hi=2), max_period=cx.pos("period"))
        GL = cx.lst(wd.A, lambda a: cx.lst(wd.W(a), lambda w: cx.arr("GL", (wd.M(a, w), wd.N(a, w)), a, w)))
        cx.let(up=up, s=self.s, dt=self.dt, GL=GL)

    STEP = """
    def havoc():
        if s > 0:
            last = up.steady_problems[s - 1].airplanes
            for a in range(len(last)):
                for w in range(len(last[a].wings)):
                    for i in range(last[a].wings[w].num_chordwise_panels):
                        for j in range(last[a].wings[w].num_spanwise_panels):
                            last[a].wings[w].panels[i, j].ring_vortex.update_strength(GL[a][w][i, j])
    solver = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(unsteady_problem=up)
    steps = verif_cut(solver.run, s, havoc, logging_level="Critical", prescribed_wake=%s, calculate_streamlines=False)
    airplanes = up.steady_problems[s].airplanes
    """


def stored_by(cx, *quals):
    """Constructors by their contract: every argument is stored under its own
    name (the object is otherwise C07's, C08's and C18's)."""

    def s(I, st, env):
        o = env["self"]
        for k, v in env.items():
            if k != "self":
                I.set_field(st, o, k, v)
        return None

    old = cx.conc_patch

    def patch(ns):
        import importlib
        import inspect

        undo = [old(ns)] if old else []
        for q in quals:
            m, c = q.split(".")
            C = getattr(importlib.import_module("pterasoftware." + m), c)
            saved = C.__init__

            def init(self, *a, _sig=inspect.signature(saved), **k):
                b = _sig.bind(self, *a, **k)
                b.apply_defaults()
                for n, v in b.arguments.items():
                    if n != "self":
                        setattr(self, n, v)

            C.__init__ = init
            undo.append(lambda C=C, saved=saved: setattr(C, "__init__", saved))

        def u():
            for f in reversed(undo):
                f and f()

        return u

    cx.conc_patch = patch
    for q in quals:
        cx.summary(q + ".__init__", s)


def fixed(cx, cls, **props):
    """Properties of a class by the contracts proved for them elsewhere:
    f(object) as a term (or a term)."""
    fs = {q: (f if callable(f) else (lambda I, st, o, f=f: f)) for q, f in props.items()}
    for q, f in fs.items():
        cx.summary(cls + "." + q, (lambda f: lambda I, st, env: f(I, st, env["self"]))(f))
    old = cx.conc_patch

    def patch(ns):
        u = old(ns) if old else None
        m, c = cls.split(".")
        C = getattr(getattr(ns["ps"], m), c)
        saved = {q: C.__dict__[q] for q in props}
        for q, f in props.items():
            if callable(f):
                raise TypeError("terms only")
            setattr(C, q, property(lambda self, f=f: float(cx.E.p(f))))

        def undo():
            for q, f in saved.items():
                setattr(C, q, f)
            u and u()

        return undo

    cx.conc_patch = patch
