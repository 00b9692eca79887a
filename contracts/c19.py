"""C19: constructors raise exactly when the documented conditions are violated."""
import math
from world import *


def is_str(s, *vals):
    return T.or_(*[eq(s.p, V.str_code(v)) for v in vals])


@contract("C19", "wing cross section")
def section(cx):
    chord, typ, sp = cx.real("chord"), cx.string("typ", pick=("symmetric", "asymmetric")), cx.string("sp", pick=("cosine", "uniform"))
    cx.let(x=cx.real("x"), y=cx.real("y"), z=cx.real("z"), chord=chord, typ=typ, sp=sp, un=cx.vec("un"), tw=cx.real("tw"),
           af=cx.obj("geometry.Airfoil", tag=cx.real("tag")), hp=cx.real("hp"), d=cx.real("d"), N=cx.dim("N"))
    cx.exec("""
    ok = True
    try:
        r = ps.geometry.WingCrossSection(airfoil=af, x_le=x, y_le=y, z_le=z, chord=chord, unit_normal_vector=un, twist=tw,
            control_surface_type=typ, control_surface_hinge_point=hp, control_surface_deflection=d, num_spanwise_panels=N, spanwise_spacing=sp)
    except Exception:
        ok = False
    """)
    cx.post("accepted exactly when usable", "ok", lambda: and_(lt(ZERO, chord), is_str(typ, "symmetric", "asymmetric"), is_str(sp, "cosine", "uniform")))


def no_mesh(cx):
    def mesh(I, st, env):
        return None

    cx.summary("meshing.mesh_wing", mesh)
    old = cx.conc_patch

    def patch(ns):
        u = old(ns) if old else None
        m = ns["ps"].meshing
        saved = m.mesh_wing
        m.mesh_wing = lambda w: None

        def undo():
            m.mesh_wing = saved
            u and u()

        return undo

    cx.conc_patch = patch


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def wing(X0):
    def c(cx):
        no_mesh(cx)
        X = cx.dim("X") + 1 if X0 is None else num(X0)
        sp = cx.string("sp", pick=("cosine", "uniform"))



        # concrete runs: usable wings with at most one thing wrong
        def un_(r, salt, i):
            t = 0.3 * (salt % 3)
            return (0.0, math.cos(t), math.sin(t))[int(i)]

        def off(which, f):
            def g(r, salt, *a):
                return f(r, salt, *a) + (0.25 if salt % 7 == which and r.random() < 0.4 else 0.0)

            return g

        cx.salted.update(un=un_, uc=off(1, lambda r, salt, i: float(i == 0)), us=off(2, lambda r, salt, x, i: un_(r, salt, i)),
                         le=off(3, lambda r, salt, x, i: 0.0 if x == 0 else r.uniform(-1, 1)))
        un = cx.vec("un")
        uc = cx.vec("uc")
        secs = cx.lst(X, lambda x: cx.obj("geometry.WingCrossSection", unit_normal_vector=cx.vec("us", x), leading_edge=cx.vec("le", x), num_spanwise_panels=cx.dim("N", x)))
        cx.let(secs=secs, un=un, uc=uc, sp=sp, sym=cx.boolean("sym"), M=cx.dim("M"), x=cx.real("x"), y=cx.real("y"), z=cx.real("z"))
        cx.exec("""
        ok = True
        try:
            r = ps.geometry.Wing(wing_cross_sections=secs, name="w", x_le=x, y_le=y, z_le=z, unit_normal_vector=un, symmetric=sym,
                unit_chordwise_vector=uc, num_chordwise_panels=M, chordwise_spacing=sp)
        except Exception:
            ok = False
        """)

        def usable():
            if X0 is not None and X0 < 2:
                return FALSE
            U = [T.app("un", num(i)) for i in range(3)]
            C = [T.app("uc", num(i)) for i in range(3)]
            k = fresh("q", "int", ZERO, X)
            s = [T.app("us", k, num(i)) for i in range(3)]
            par = T.forall(X, T.only_atom(k), and_(*[eq(v, ZERO) for v in cross(cross(U, s), C)]))
            return and_(is_str(sp, "cosine", "uniform"), *[eq(T.app("us", ZERO, num(i)), U[i]) for i in range(3)],
                        *[eq(T.app("le", ZERO, num(i)), ZERO) for i in range(3)], eq(sum((U[i] * C[i] for i in range(3)), ZERO), ZERO), par)

        cx.post("accepted exactly when usable", "ok", usable)

    return c


contract("C19", "wing")(wing(None))
for k in (0, 1):
    contract("C19", "wing of %d cross sections" % k)(wing(k))


def airplane(W0):
    def c(cx):
        W = cx.dim("W") if W0 is None else ZERO
        for q in ("projected_area", "span", "mean_aerodynamic_chord"):
            cx.summary("geometry.Wing." + q, lambda I, st, env: T.app("REF", ZERO))
        wl = cx.lst(W, lambda w: cx.obj("geometry.Wing", num_panels=cx.dim("np", w), num_chordwise_panels=ZERO, num_spanwise_panels=ZERO, symmetric=False,
                                        wing_cross_sections=cx.lst(num(2), lambda x: cx.obj("geometry.WingCrossSection", chord=cx.pos("ch", x), leading_edge=cx.vec("le", x))),
                                        unit_normal_vector=cx.vec("un"), unit_chordwise_vector=cx.vec("uc")))
        cx.let(wl=wl)
        cx.exec("""
        ok = True
        try:
            r = ps.geometry.Airplane(wings=wl)
        except Exception:
            ok = False
        """)
        cx.post("accepted exactly when it has a wing", "ok", lambda: FALSE if W0 == 0 else TRUE)

    return c


contract("C19", "airplane")(airplane(None))
contract("C19", "airplane without wings")(airplane(0))


NAMES = {"Debug": 10, "Info": 20, "Warning": 30, "Error": 40, "Critical": 50}


@contract("C19", "logging level")
def level(cx):
    s = cx.string("level", pick=tuple(NAMES) + ("debug", "INFO", "Warn"))
    cx.let(s=s)
    cx.exec("""
    ok = True
    v = None
    try:
        v = ps.functions.convert_logging_level_name_to_value(s)
    except Exception:
        ok = False
    """)
    cx.post("accepted exactly when known", "ok", lambda: is_str(s, *NAMES))
    for n, k in NAMES.items():
        cx.post("value of " + n, "(s != %r) or v == %d" % (n, k))


CT = ("num_steps", "num_cycles", "num_chords")


def counts(given, static):
    def c(cx):
        A = cx.dim("A")
        V = cx.pos("V", lo=1.0, hi=8.0)
        if not static:
            cx.pos("ap", ZERO, lo=0.3, hi=4.0)
            cx.pos("op", lo=0.3, hi=4.0)
        ams = cx.lst(A, lambda a: cx.obj("movement.AirplaneMovement", base_airplane=cx.obj("geometry.Airplane", c_ref=cx.pos("cref", a)),
                                         get_max_period=fun(lambda a: ZERO if static else T.app("ap", a), a),
                                         generate_airplanes=fun(lambda a, num_steps, delta_time: (num_steps, delta_time, a), a)))
        opm = cx.obj("movement.OperatingPointMovement", base_operating_point=cx.obj("operating_point.OperatingPoint", velocity=V),
                     get_max_period=fun(lambda: ZERO if static else T.app("op")),
                     generate_operating_points=fun(lambda num_steps, delta_time: (num_steps, delta_time)))
        cx.let(ams=ams, opm=opm, dt=cx.pos("dt"), **{k: cx.dim(k) for k in given})
        cx.exec("""
        ok = True
        try:
            mv = ps.movement.Movement(airplane_movements=ams, operating_point_movement=opm, delta_time=dt%s)
        except Exception:
            ok = False
        """ % "".join(", %s=%s" % (k, k) for k in given))
        good = len(given) <= 1 and not (static and "num_cycles" in given) and not (not static and "num_chords" in given)
        cx.post("accepted exactly when not contradictory", "ok", lambda: TRUE if good else FALSE)

    return c


for static in (True, False):
    for given in ((), CT[:1], CT[1:2], CT[2:], CT[:2], CT[1:], CT[::2], CT):
        contract("C19", "%s motion given %s" % ("static" if static else "periodic", ", ".join(given) or "no count"))(counts(given, static))


def spacing(cls, meth, q, words, obj):
    def c(cx):
        s = cx.string("s", pick=words)
        mv = obj(cx, **{q + "_spacing": s})
        cx.let(mv=mv, n=cx.dim("n"), dt=cx.pos("dt"))
        cx.exec("""
        ok = True
        try:
            r = mv.%s(num_steps=n, delta_time=dt)
        except Exception:
            ok = False
        """ % meth)
        cx.post("accepted exactly when known", "ok", lambda: is_str(s, *words))

    return c


def moving(cx, qs, **over):
    d = {}
    for q in qs:
        d.update({q + "_amplitude": cx.real(q + "_a"), q + "_period": cx.pos(q + "_p"), q + "_spacing": "sine", q + "_base": cx.real(q + "_b")})
    d.update(over)
    return d


def opm_obj(cx, **over):
    from world import op_point
    return cx.obj("movement.OperatingPointMovement", base_operating_point=op_point(cx), **moving(cx, ("velocity",), **over))


def am_obj(cx, **over):
    stored_by(cx, "geometry.Airplane")
    return cx.obj("movement.AirplaneMovement", base_airplane=cx.obj("geometry.Airplane", name=cx.string("name"), weight=cx.real("weight")),
                  wing_movements=cx.lst(cx.dim("W"), lambda w: cx.obj("movement.WingMovement", generate_wings=fun(lambda w, num_steps, delta_time: cx.get(cx.wl, w), w))),
                  **moving(cx, ("x_ref", "y_ref", "z_ref"), **over))


def am(cx, **over):
    n = cx.dim("n")
    cx.wl = cx.lst(cx.dim("W"), lambda w: cx.lst(n, lambda k: cx.obj("geometry.Wing", tag=cx.real("tag", w, k))))
    return am_obj(cx, **over)


contract("C19", "speed motion spacing")(spacing("movement.OperatingPointMovement", "generate_operating_points", "velocity", ("sine", "uniform"), opm_obj))
for q in ("x_ref", "y_ref", "z_ref"):
    contract("C19", "airplane motion spacing: " + q)(spacing("movement.AirplaneMovement", "generate_airplanes", q, ("sine", "uniform"), am))


def wm(cx, **over):
    import c12

    n, dt = cx.dim("n"), cx.pos("dt")
    kinds = ["sine", "uniform", "sine"]
    for k, q in enumerate(c12.KS):
        kinds[k] = over.get(q + "_spacing", kinds[k])
    return c12.wing_motion(cx, n, dt, kinds)[0]


for q in ("x_le", "y_le", "z_le"):
    contract("C19", "wing motion spacing: " + q)(spacing("movement.WingMovement", "generate_wings", q, ("sine", "uniform"), wm))


def section_spacing(q, given):
    def c(cx):
        import c12
        import c14

        n, dt = c12.frame(cx)
        stored_by(cx, "geometry.WingCrossSection")
        s = cx.string("s", pick=("sine", "uniform", "custom"))
        kinds = [s if x == q else "sine" for x in c14.QS]
        mv = c14.movement(cx, kinds)
        cx.setf(mv, c14.FNS[q], c12.custom(cx, c14.FNS[q]) if given else None)
        z = cx.real("z")
        cx.let(mv=mv, z=z, lx=cx.arr("lx", (n,)))
        cx.exec("""
        ok = True
        try:
            r = mv.generate_wing_cross_sections(num_steps=n, delta_time=dt, last_x_les=lx, last_y_les=lx, last_z_les=lx,
                wing_is_vertical=False, cross_section_span=1.0, cross_section_sweep=z, cross_section_heave=z)
        except Exception:
            ok = False
        """)
        cx.post("accepted exactly when known", "ok", lambda: is_str(s, "sine", "uniform", *(("custom",) if given else ())))

    return c


for q in ("sweeping", "pitching", "heaving"):
    for given in (False, True):
        contract("C19", "section motion spacing: %s %s a custom function" % (q, "with" if given else "without"))(section_spacing(q, given))


@contract("C19", "control surface deflection")
def deflection(cx):
    import c20

    af = c20.airfoil(cx)[0]
    d = cx.real("d", lo=-180, hi=180)
    cx.let(af=af, d=d, h=cx.real("h", lo=0.4, hi=0.6))
    cx.exec("""
    ok = True
    try:
        r = af.add_control_surface(deflection=d, hinge_point=h)
    except Exception:
        ok = False
    """)
    cx.post("accepted exactly when within 90 degrees", "ok", lambda: and_(le(d, num(90)), le(num(-90), d)))
