"""C13: snapshots keep everything that was not declared to move, and base
objects really hold what they were given."""
from world import *
import c12
import c14
import c15
import c19


def operating(kind):
    def c(cx):
        n, dt = c12.frame(cx)
        base = cx.obj("operating_point.OperatingPoint", **{k: cx.pos(k) for k in ("density", "velocity", "nu")}, **{k: cx.real(k) for k in ("alpha", "beta", "external_thrust")})
        mv = cx.obj("movement.OperatingPointMovement", base_operating_point=base, **c12.osc(cx, "o", {"velocity": kind}))
        cx.let(mv=mv, b=base)
        cx.exec("r = mv.generate_operating_points(num_steps=n, delta_time=dt)")
        cx.post("one per step", "len(r)", lambda: n)
        names = ("density", "alpha", "beta", "external_thrust", "nu")
        cx.post("everything but the speed is the base's", "(%s,)" % ", ".join("r[k]." + x for x in names), "(%s,)" % ", ".join("b." + x for x in names), over=[("k", n)])

    return c


for kind in ("sine", "uniform"):
    contract("C13", "operating points: " + kind)(operating(kind))


@contract("C13", "airplanes")
def airplanes(cx):
    n, dt = c12.frame(cx)
    stored_by(cx, "geometry.Airplane")
    W = cx.dim("W")
    wl = cx.lst(W, lambda w: cx.lst(n, lambda k: cx.obj("geometry.Wing", tag=cx.real("tag", w, k))))
    base = cx.obj("geometry.Airplane", name=cx.string("name"), weight=cx.real("weight"))
    mv = cx.obj("movement.AirplaneMovement", base_airplane=base, **c12.osc(cx, "a", dict(x_ref="sine", y_ref="uniform", z_ref="sine")),
                wing_movements=cx.lst(W, lambda w: cx.obj("movement.WingMovement", generate_wings=fun(c12.only(n, dt, lambda w: cx.get(wl, w)), w))))
    cx.let(mv=mv, base=base)
    cx.exec("r = mv.generate_airplanes(num_steps=n, delta_time=dt)")
    cx.post("one per step", "len(r)", lambda: n)
    cx.post("name and weight", "(r[k].name, r[k].weight)", "(base.name, base.weight)", over=[("k", n)])
    cx.post("number of wings", "len(r[k].wings)", lambda k: W, over=[("k", n)])
    cx.post("wings in order", "r[k].wings[w].tag", lambda k, w: T.app("tag", w, k), over=[("k", n), ("w", W)])


for kinds in (("sine", "uniform", "sine"), ("uniform", "sine", "uniform")):
    contract("C13", "wings: " + ", ".join(kinds))(c12.wings(kinds))
for kinds in (("sine", "uniform", "custom"), ("uniform", "custom", "sine"), ("custom", "sine", "uniform")):
    contract("C13", "sections: " + ", ".join(kinds))(c14.flap(kinds))
for static in (True, False):
    contract("C13", "steps of a %s problem" % ("static" if static else "periodic"))(c15.problem(static))
contract("C13", "steps of a movement")(c15.movement(False, 1, 0, 1))


# objects hold what they were given

@contract("C13", "wing cross section holds what it was given")
def section(cx):
    v = dict(x_le=cx.real("x"), y_le=cx.real("y"), z_le=cx.real("z"), chord=cx.pos("chord"), unit_normal_vector=cx.vec("un"), twist=cx.real("tw"),
             airfoil=cx.obj("geometry.Airfoil", tag=cx.real("tag")), control_surface_type=pick(cx, "ct", "symmetric", "asymmetric"),
             control_surface_hinge_point=cx.real("hp"), control_surface_deflection=cx.real("d"), num_spanwise_panels=cx.dim("N"), spanwise_spacing=pick(cx, "ss", "cosine", "uniform"))
    cx.let(**v)
    cx.exec("r = ps.geometry.WingCrossSection(%s)" % ", ".join("%s=%s" % (k, k) for k in v))
    holds(cx, v, airfoil="airfoil.tag")
    cx.post("leading edge", "r.leading_edge", "(x_le, y_le, z_le)")


def pick(cx, nm, a, b):
    s = cx.string(nm, pick=(a, b))
    cx.require(c19.is_str(s, a, b))
    return s


def holds(cx, v, **sub):
    for k in v:
        e = sub.get(k, k)
        cx.post(k, "r." + e, e)


@contract("C13", "wing holds what it was given")
def wing(cx):
    c19.no_mesh(cx)
    X = cx.dim("X") + 1
    un, uc = cx.vec("un"), cx.vec("uc")
    cx.salted.update(un=lambda r, salt, i: float(i == 1), uc=lambda r, salt, i: float(i == 0))
    cx.require(eq(sum((T.app("un", num(i)) * T.app("uc", num(i)) for i in range(3)), ZERO), ZERO))
    secs = cx.lst(X, lambda x: cx.obj("geometry.WingCrossSection", unit_normal_vector=un, leading_edge=cx.tab((num(3),), lambda i: ite(eq(x, ZERO), ZERO, cx.real("le", x, i))), num_spanwise_panels=cx.dim("N", x)))
    v = dict(x_le=cx.real("x"), y_le=cx.real("y"), z_le=cx.real("z"), name=cx.string("name"), unit_normal_vector=un, symmetric=cx.boolean("sym"),
             unit_chordwise_vector=uc, num_chordwise_panels=cx.dim("M"), chordwise_spacing=pick(cx, "cs", "cosine", "uniform"))
    cx.let(secs=secs, **v)
    cx.exec("r = ps.geometry.Wing(wing_cross_sections=secs, %s)" % ", ".join("%s=%s" % (k, k) for k in v))
    holds(cx, v)
    cx.post("leading edge", "r.leading_edge", "(x_le, y_le, z_le)")
    cx.post("sections in order", "r.wing_cross_sections[k].num_spanwise_panels", lambda k: T.app("N", k, sort="int"), over=[("k", X)])
    cx.post("number of sections", "len(r.wing_cross_sections)", lambda: X)
    cx.post("sections know the wing's chordwise direction", "r.wing_cross_sections[k].wing_unit_chordwise_vector", "unit_chordwise_vector", over=[("k", X)])
    total = lambda: cx.I.lib.red(cx.st, X - ONE, lambda x: T.app("N", x, sort="int")) * ite(cx.inp["symmetric"], num(2), ONE)
    cx.post("number of spanwise panels", "r.num_spanwise_panels", total)
    cx.post("number of panels", "r.num_panels", lambda: total() * T.app("M", sort="int"))


@contract("C13", "airplane holds what it was given")
def airplane(cx):
    W = cx.dim("W")
    ref = {"projected_area": "S", "span": "B", "mean_aerodynamic_chord": "C"}
    wl = cx.lst(W, lambda w: cx.obj("geometry.Wing", num_panels=cx.dim("np", w), tag=cx.real("tag", w)))
    for q, a in ref.items():
        cx.summary("geometry.Wing." + q, (lambda a: lambda I, st, env: T.app(a, I.get_field(st, env["self"], "tag")))(a))
    v = dict(name=cx.string("name"), x_ref=cx.real("x"), y_ref=cx.real("y"), z_ref=cx.real("z"), weight=cx.real("weight"))
    opt = dict(s_ref=cx.real("s"), c_ref=cx.real("c"), b_ref=cx.real("b"))
    for a in ref.values():
        cx.real(a, ZERO)
    old = cx.conc_patch

    def patch(ns):
        u = old(ns) if old else None
        C = ns["ps"].geometry.Wing
        saved = {q: C.__dict__[q] for q in ref}
        for q, a in ref.items():
            setattr(C, q, property(lambda self, a=a: float(cx.E.p(T.app(a, T.app("tag", ZERO))))))

        def undo():
            for q, f in saved.items():
                setattr(C, q, f)
            u and u()

        return undo

    cx.conc_patch = patch
    cx.let(wl=wl, **v, **opt)
    cx.exec("r = ps.geometry.Airplane(wings=wl, %s)" % ", ".join("%s=%s" % (k, k) for k in v))
    cx.exec("q = ps.geometry.Airplane(wings=wl, %s)" % ", ".join("%s=%s" % (k, k) for k in opt))
    for k in opt:
        cx.exec("q_%s = ps.geometry.Airplane(wings=wl, %s=%s)" % (k, k, k))
        want = [T.app(a, T.app("tag", ZERO)) if k[0] != a.lower() else T.app(k[0]) for a in "SCB"]
        cx.post("only %s given" % k, "(q_{0}.s_ref, q_{0}.c_ref, q_{0}.b_ref)".format(k), lambda want=want: tuple(want))
    holds(cx, v)
    cx.post("reference point", "r.xyz_ref", "(x_ref, y_ref, z_ref)")
    cx.post("reference dimensions of the first wing", "(r.s_ref, r.c_ref, r.b_ref)", lambda: tuple(T.app(a, T.app("tag", ZERO)) for a in "SCB"))
    cx.post("given reference dimensions", "(q.s_ref, q.c_ref, q.b_ref)", "(s_ref, c_ref, b_ref)")
    cx.post("number of wings", "len(r.wings)", lambda: W)
    cx.post("wings in order", "r.wings[w].tag", lambda w: T.app("tag", w), over=[("w", W)])
    cx.post("number of panels", "r.num_panels", lambda: cx.I.lib.red(cx.st, W, lambda w: T.app("np", w, sort="int")))


@contract("C13", "operating point holds what it was given")
def point(cx):
    v = {k: cx.real(k) for k in ("density", "velocity", "alpha", "beta", "external_thrust", "nu")}
    cx.let(**v)
    cx.exec("r = ps.operating_point.OperatingPoint(%s)" % ", ".join("%s=%s" % (k, k) for k in v))
    holds(cx, v)


def movement_holds(cls, base, base_cls, from_base, qs, fns, extra=()):
    """a movement object holds its amplitudes, periods and waveforms, and takes
    its base values from the base object"""

    def c(cx):
        b = cx.obj(base_cls, **{a: cx.real("b_" + a) for a in from_base.values()})
        v = {}
        for q in qs:
            v.update({q + "_amplitude": cx.real(q + "_a"), q + "_period": cx.real(q + "_p"), q + "_spacing": cx.string(q + "_s")})
        for f in fns:
            v[f] = cx.real(f)
        args = ["%s=%s" % (k, k) for k in v] + ["%s=%s" % (base, base)]
        args += ["%s=%s" % (k, w) for k, w in extra]
        cx.let(**{base: b}, **v, **({"xs": cx.lst(cx.dim("X"), lambda x: cx.obj("movement.WingMovement", tag=cx.real("tag", x)))} if extra else {}))
        cx.exec("r = ps.%s(%s)" % (cls, ", ".join(args)))
        holds(cx, v)
        for k, a in from_base.items():
            cx.post(k, "r." + k, "%s.%s" % (base, a))
        if from_base:
            a = next(iter(from_base.values()))
            cx.post("base object", "r.%s.%s" % (base, a), "%s.%s" % (base, a))
        for k, w in extra:
            nm = "wing_cross_section_movements" if k == "wing_cross_sections_movements" else k
            cx.post("movements in order", "r.%s[k].tag" % nm, lambda k: T.app("tag", k), over=[("k", T.app("X", sort="int"))])
            cx.post("number of movements", "len(r.%s)" % nm, lambda: T.app("X", sort="int"))

    return c


contract("C13", "motion of an operating point holds what it was given")(movement_holds(
    "movement.OperatingPointMovement", "base_operating_point", "operating_point.OperatingPoint", {"velocity_base": "velocity"}, ("velocity",), ()))
contract("C13", "motion of a section holds what it was given")(movement_holds(
    "movement.WingCrossSectionMovement", "base_wing_cross_section", "geometry.WingCrossSection",
    {"pitching_base": "twist", "twist_base": "twist", "x_le_base": "x_le", "y_le_base": "y_le", "z_le_base": "z_le", "control_surface_deflection_base": "control_surface_deflection"}, ("sweeping", "pitching", "heaving"),
    ("custom_sweep_function", "custom_pitch_function", "custom_heave_function")))
contract("C13", "motion of a wing holds what it was given")(movement_holds(
    "movement.WingMovement", "base_wing", "geometry.Wing", {a + "_base": a for a in ("x_le", "y_le", "z_le")}, ("x_le", "y_le", "z_le"), (),
    (("wing_cross_sections_movements", "xs"),)))
contract("C13", "motion of an airplane holds what it was given")(movement_holds(
    "movement.AirplaneMovement", "base_airplane", "geometry.Airplane", {a + "_base": a for a in ("x_ref", "y_ref", "z_ref")}, ("x_ref", "y_ref", "z_ref"), (),
    (("wing_movements", "xs"),)))
