"""C14: cross sections move rigidly about their inner neighbours."""
from world import *
from c12 import osc, value, frame, custom, deg_atan

QS = ("sweeping", "pitching", "heaving")


def movement(cx, kinds, still=False):
    f = osc(cx, "m", dict(zip(QS, kinds)))
    f["sweeping_base"] = f["heaving_base"] = ZERO
    if still:
        for q in QS:
            f[q + "_amplitude"] = ZERO
    for q, kind, nm in zip(QS, kinds, ("custom_sweep_function", "custom_pitch_function", "custom_heave_function")):
        f[nm] = custom(cx, nm) if kind == "custom" else None
    base = cx.obj("geometry.WingCrossSection", chord=cx.pos("chord"), airfoil=cx.obj("geometry.Airfoil", tag=cx.real("af")),
                  unit_normal_vector=cx.vec("un"), control_surface_type=cx.string("cst"), control_surface_hinge_point=cx.real("hinge"),
                  num_spanwise_panels=cx.dim("N"), spanwise_spacing=cx.string("ssp"), twist=cx.real("mpitching_b"),
                  control_surface_deflection=cx.real("defl"), x_le=cx.real("bx"), y_le=cx.real("by"), z_le=cx.real("bz"))
    return cx.obj("movement.WingCrossSectionMovement", base_wing_cross_section=base, twist_base=T.app("mpitching_b"),
                  control_surface_deflection_base=T.app("defl"), **f)


FNS = {"sweeping": "custom_sweep_function", "pitching": "custom_pitch_function", "heaving": "custom_heave_function"}


def run(cx, mv, n, span, sweep, heave, vert):
    cx.let(mv=mv, span=span, sweep=sweep, heave=heave, vert=vert, **{"l" + a: cx.arr("l" + a, (n,)) for a in "xyz"})
    cx.exec("""
    r = mv.generate_wing_cross_sections(num_steps=n, delta_time=dt, last_x_les=lx, last_y_les=ly, last_z_les=lz,
        wing_is_vertical=vert, cross_section_span=span, cross_section_sweep=sweep, cross_section_heave=heave)
    b = mv.base_wing_cross_section
    """)


def flap(kinds):
    def c(cx):
        n, dt = frame(cx)
        stored_by(cx, "geometry.WingCrossSection")
        mv = movement(cx, kinds)
        span, sweep, heave = cx.pos("span"), cx.real("sweep", lo=-60, hi=60), cx.real("heave", lo=-60, hi=60)
        vert = cx.boolean("vert")
        run(cx, mv, n, span, sweep, heave, vert)
        over = [("k", n)]

        def at(q, k, base):
            v = value("m", q, dict(zip(QS, kinds))[q], k, dt, base=base, fn=FNS[q])
            return ite(vert, base, v)

        def pos(k):
            s, h = deg(at("sweeping", k, sweep)), deg(at("heaving", k, heave))
            return (T.app("lx", k) + span * T.cos(s) * T.sin(h), T.app("ly", k) + span * T.cos(s) * T.cos(h), T.app("lz", k) + span * T.sin(s))

        cx.post("one section per step", "len(r)", lambda: n)
        cx.post("position: inner neighbour's plus the spacing turned by the current sweep and heave", "(r[k].x_le, r[k].y_le, r[k].z_le)", pos, over=over)
        cx.post("distance from the inner neighbour", "(r[k].x_le - lx[k]) ** 2 + (r[k].y_le - ly[k]) ** 2 + (r[k].z_le - lz[k]) ** 2", lambda k: span * span, over=over)
        cx.post("twist", "r[k].twist", lambda k: at("pitching", k, T.app("mpitching_b")), over=over)
        names = ("chord", "airfoil.tag", "unit_normal_vector", "control_surface_type", "control_surface_hinge_point", "control_surface_deflection",
                 "num_spanwise_panels", "spanwise_spacing")
        cx.post("everything else is the base section's", "(%s)" % ", ".join("r[k]." + x for x in names), "(%s)" % ", ".join("b." + x for x in names), over=over)

    return c


for kinds in (("sine", "uniform", "custom"), ("uniform", "custom", "sine"), ("custom", "sine", "uniform")):
    contract("C14", "section motion: " + ", ".join(kinds))(flap(kinds))


def rest(case):
    """zero amplitudes, with the span, sweep and heave that generate_wings
    passes for a spacing d: the base geometry is reproduced"""

    def c(cx):
        n, dt = frame(cx)
        stored_by(cx, "geometry.WingCrossSection")
        mv = movement(cx, ("sine", "uniform", "sine"), still=True)
        d = [cx.real("dx"), cx.pos("dy"), cx.real("dz")]
        if case == "vertical":
            d[1] = ZERO
            d[2] = cx.pos("dz")
        r2 = d[0] * d[0] + d[1] * d[1]
        if case == "straight up":
            d = [ZERO, ZERO, cx.pos("dz")]
            r2 = ZERO
        span = T.sqrt(r2 + d[2] * d[2])
        run(cx, mv, n, span, deg_atan(d[2], T.sqrt(r2)), deg_atan(d[0], d[1]), cx.boolean("vert"))
        cx.post("spacing of the base geometry", "(r[k].x_le - lx[k], r[k].y_le - ly[k], r[k].z_le - lz[k])", lambda k: tuple(d), over=[("k", n)])
        cx.post("twist of the base geometry", "r[k].twist", lambda k: T.app("mpitching_b"), over=[("k", n)])

    return c


for case in ("general", "straight up"):
    contract("C14", "no motion: " + case)(rest(case))


@contract("C14", "root section stays at the wing's leading edge")
def root(cx):
    n, dt = frame(cx)
    stored_by(cx, "geometry.WingCrossSection")
    mv = movement(cx, ("sine", "uniform", "sine"))
    run(cx, mv, n, ZERO, ZERO, ZERO, cx.boolean("vert"))
    cx.post("position", "(r[k].x_le, r[k].y_le, r[k].z_le)", lambda k: tuple(T.app("l" + a, k) for a in "xyz"), over=[("k", n)])
