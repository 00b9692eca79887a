"""C12: oscillating quantities at every time step, one contract per waveform
and per quantity."""
from world import *


def tri(x):
    """triangle wave of period 1: 0 at 0, rising to 1 at 1/4, -1 at 3/4"""
    y = x + Q
    m = y - T.floor(y)
    return ite(lt(m, H), 4 * m - 1, 3 - 4 * m)


def custom(cx, nm):
    """an arbitrary function of the user's, applied elementwise"""
    import numpy as np

    k = len(nm)
    cx.num_funs[nm] = lambda x: float(np.cos(1.3 * float(x) + k) + 0.2 * k)

    def f(I, st, x):
        return I.lib.elementwise(st, lambda v: T.app(nm, I.lib.n(v)), x, dtype="real")

    return fun(f, state=True, py=lambda x: np.cos(1.3 * x + k) + 0.2 * k)


def wave(kind, nm, amp, per, base, k, dt):
    """the documented value at step k"""
    if amp is ZERO or per is ZERO:
        return base
    if kind == "sine":
        u = T.sin(2 * T.PI * k * dt / per)
    elif kind == "uniform":
        u = tri(k * dt / per)
    else:
        u = T.app(nm, 2 * T.PI * k * dt / per)
    return ite(or_(eq(amp, ZERO), eq(per, ZERO)), base, base + amp * u)


FN = {"sine": "oscillating_sinspace", "uniform": "oscillating_linspace", "custom": "oscillating_customspace"}


def oscillation(kind, case):
    def c(cx):
        n = cx.dim("n", hi=6)
        dt = cx.pos("dt", lo=0.1, hi=0.9)
        amp = ZERO if case == "amp" else cx.real("amp")
        per = ZERO if case == "per" else cx.pos("per", lo=0.3, hi=2.0)
        base = cx.real("base")
        cx.let(n=n, dt=dt, amp=amp, per=per, base=base)
        kw = ""
        if kind == "custom":
            cx.let(cf=custom(cx, "cf"))
            kw = ", custom_function=cf"
        cx.exec("v = ps.movement.%s(amplitude=amp, period=per, base_value=base, num_steps=n, delta_time=dt%s)" % (FN[kind], kw))
        cx.post("one value per step", "v.shape", lambda: (n,))
        cx.post("value at every step", "v[k]", lambda k: wave(kind, "cf", amp, per, base, k, dt), over=[("k", n)])

    return c


for kind in FN:
    for case in ("", "amp", "per"):
        contract("C12", kind + (" waveform" if not case else ": zero amplitude" if case == "amp" else ": zero period"))(oscillation(kind, case))


def osc(cx, pre, kinds, base=True):
    """oscillating_* attributes with their own amplitude, period and base"""
    f = {}
    for q, kind in kinds.items():
        f[q + "_amplitude"] = cx.real(pre + q + "_a")
        f[q + "_period"] = cx.pos(pre + q + "_p", lo=0.3, hi=2.0)
        f[q + "_spacing"] = kind
        if base:
            f[q + "_base"] = cx.real(pre + q + "_b")
    return f


def value(pre, q, kind, k, dt, base=None, fn=None):
    return wave(kind, fn, T.app(pre + q + "_a"), T.app(pre + q + "_p"), T.app(pre + q + "_b") if base is None else base, k, dt)


def frame(cx):
    n = cx.dim("n", hi=5)
    dt = cx.pos("dt", lo=0.1, hi=0.9)
    cx.let(n=n, dt=dt)
    return n, dt


def operating(kind):
    def c(cx):
        n, dt = frame(cx)
        mv = cx.obj("movement.OperatingPointMovement", base_operating_point=op_point(cx), **osc(cx, "o", {"velocity": kind}))
        cx.let(mv=mv)
        cx.exec("r = mv.generate_operating_points(num_steps=n, delta_time=dt)")
        cx.post("one per step", "len(r)", lambda: n)
        cx.post("speed at every step", "r[k].velocity", lambda k: value("o", "velocity", kind, k, dt), over=[("k", n)])

    return c


def only(n, dt, val):
    """a callee that must be asked for exactly these time steps"""

    def f(*a):
        *idx, num_steps, delta_time = a
        return V.mk_choice(and_(eq(num_steps, n), eq(delta_time, dt)), val(*idx), None)

    def g(*idx, num_steps, delta_time):
        return f(*idx, num_steps, delta_time)

    return g


def planes(kinds):
    def c(cx):
        n, dt = frame(cx)
        stored_by(cx, "geometry.Airplane")
        W = cx.dim("W")
        wl = cx.lst(W, lambda w: cx.lst(n, lambda k: cx.obj("geometry.Wing", tag=cx.real("tag", w, k))))
        base = cx.obj("geometry.Airplane", name=cx.string("name"), weight=cx.real("weight"))
        mv = cx.obj("movement.AirplaneMovement", base_airplane=base, **osc(cx, "a", dict(zip(("x_ref", "y_ref", "z_ref"), kinds))),
                    wing_movements=cx.lst(W, lambda w: cx.obj("movement.WingMovement", generate_wings=fun(only(n, dt, lambda w: cx.get(wl, w)), w))))
        cx.let(mv=mv)
        cx.exec("r = mv.generate_airplanes(num_steps=n, delta_time=dt)")
        cx.post("one per step", "len(r)", lambda: n)
        for q, kind in zip(("x_ref", "y_ref", "z_ref"), kinds):
            cx.post(q + " at every step", "r[k]." + q, lambda k, q=q, kind=kind: value("a", q, kind, k, dt), over=[("k", n)])
        cx.post("every wing's snapshot of that step", "r[k].wings[w].tag", lambda k, w: T.app("tag", w, k), over=[("k", n), ("w", W)])

    return c


for kind in ("sine", "uniform"):
    contract("C12", "speed of the operating points: " + kind)(operating(kind))
for kinds in (("sine", "uniform", "sine"), ("uniform", "sine", "uniform")):
    contract("C12", "airplane positions: " + ", ".join(kinds))(planes(kinds))


def deg_atan(y, x):
    return T.arctan2(y, x) * 180 / T.PI


def section_places(cx, x):
    """base spacing of section x from its inner neighbour, as the movement of
    section x must be given it (all zero for the root)"""
    d = [T.app("b" + c, x) - T.app("b" + c, x - 1) for c in "xyz"]
    root = eq(x, ZERO)
    span = ite(root, ZERO, T.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]))
    sweep = ite(root, ZERO, deg_atan(d[2], T.sqrt(d[0] * d[0] + d[1] * d[1])))
    heave = ite(root, ZERO, deg_atan(d[0], d[1]))
    return span, sweep, heave, and_(not_(root), eq(d[1], ZERO))


KS = ("x_le", "y_le", "z_le")


def wing_motion(cx, n, dt, kinds):
    """a moving wing whose sections' own motions are summarised: they must be
    asked for the given steps, about the inner section's snapshots, with the
    base spacing (anything else yields None)"""
    stored_by(cx, "geometry.Wing")
    X = cx.dim("X") + 1
    cl = cx.lst(X, lambda x: cx.lst(n, lambda k: cx.obj("geometry.WingCrossSection", **{a + "_le": cx.real("s" + a, x, k) for a in "xyz"})))

    def gen(I, st, x, num_steps=None, delta_time=None, cross_section_span=None, cross_section_sweep=None, cross_section_heave=None,
            last_x_les=None, last_y_les=None, last_z_les=None, wing_is_vertical=None):
        span, sweep, heave, vert = section_places(cx, x)
        ok = [eq(num_steps, n), eq(delta_time, dt)]
        got = [I.lib.n(v) for v in (cross_section_span, cross_section_sweep, cross_section_heave)]
        ok += [eq(g, w) for g, w in zip(got, (span, sweep, heave))]
        wv = I.truth(st, wing_is_vertical)
        ok.append(T.or_(and_(wv, vert), and_(not_(wv), not_(vert))))
        k = fresh("k", "int", ZERO, n)
        for c, v in zip("xyz", (last_x_les, last_y_les, last_z_les)):
            nd = I.lib.nd(st, v)
            ok.append(eq(nd.shape[0], n))
            ok.append(eq(I.lib.n(nd.get((k,))), ite(eq(x, ZERO), ZERO, T.app("s" + c, x - 1, k))))
        cond = and_(*[TRUE if I.decide(st, o) is True else o for o in ok])
        return V.mk_choice(cond, cx.get(cl, x), None)

    def move(x):
        z = lambda q: ite(eq(x, ZERO), ZERO, cx.real(q, x))
        return cx.obj("movement.WingCrossSectionMovement", base_wing_cross_section=cx.obj("geometry.WingCrossSection", **{a + "_le": cx.real("b" + a, x) for a in "xyz"}),
                      sweeping_amplitude=z("sa"), sweeping_period=z("sp"), heaving_amplitude=z("ha"), heaving_period=z("hp"),
                      generate_wing_cross_sections=fun(gen, x, state=True, py=lambda x, **kw: PY[0](x, **kw)))

    PY = [None]
    base = cx.obj("geometry.Wing", name=cx.string("name"), symmetric=cx.boolean("sym"), unit_normal_vector=cx.vec("un"), unit_chordwise_vector=cx.vec("uc"),
                  num_chordwise_panels=cx.dim("M"), chordwise_spacing=cx.string("csp"))
    mv = cx.obj("movement.WingMovement", base_wing=base, wing_cross_section_movements=cx.lst(X, move), **osc(cx, "w", dict(zip(KS, kinds))))
    cx.let(mv=mv, cl=cl)
    old = cx.conc_patch

    def patch(ns):
        import numpy as np

        def py(x, num_steps, delta_time, cross_section_span, cross_section_sweep, cross_section_heave, last_x_les, last_y_les, last_z_les, wing_is_vertical):
            m = ns["mv"].wing_cross_section_movements
            assert num_steps == ns["n"] and abs(delta_time - ns["dt"]) < 1e-12
            b = m[x].base_wing_cross_section
            d = [0.0, 0.0, 0.0]
            last = np.zeros((3, num_steps))
            if x:
                p = m[x - 1].base_wing_cross_section
                d = [b.x_le - p.x_le, b.y_le - p.y_le, b.z_le - p.z_le]
                last = np.array([[getattr(s, a + "_le") for s in ns["cl"][x - 1]] for a in "xyz"])
            want = [np.linalg.norm(d), np.degrees(np.arctan2(d[2], np.hypot(d[0], d[1]))), np.degrees(np.arctan2(d[0], d[1]))]
            ok = np.allclose([cross_section_span, cross_section_sweep, cross_section_heave], want)
            ok = ok and np.allclose([last_x_les, last_y_les, last_z_les], last) and bool(wing_is_vertical) == bool(x and d[1] == 0)
            return ns["cl"][x] if ok else [None] * num_steps

        PY[0] = py
        return old(ns) if old else None

    cx.conc_patch = patch
    # loop invariant: before section x, the histories kept are section x - 1's
    cx.I.loop_inv["movement.WingMovement.generate_wings"] = lambda I, st, x: V.mk_choice(
        le(x, ZERO), None, I.alloc(st, (n,), lambda i: I.buf_get(st, cx.get(cl, x - 1).buf, cx.get(cl, x - 1).owner, (i[0],)), "obj"))
    return mv, X


def wings(kinds):
    def c(cx):
        n, dt = frame(cx)
        mv, X = wing_motion(cx, n, dt, kinds)
        cx.exec("r = mv.generate_wings(num_steps=n, delta_time=dt)")
        cx.post("one per step", "len(r)", lambda: n)
        for q, kind in zip(KS, kinds):
            cx.post(q + " at every step", "r[k]." + q, lambda k, q=q, kind=kind: value("w", q, kind, k, dt), over=[("k", n)])
        cx.post("every section's snapshot of that step, moved about its inner neighbour's",
                "(r[k].wing_cross_sections[x].x_le, r[k].wing_cross_sections[x].y_le, r[k].wing_cross_sections[x].z_le)",
                lambda k, x: tuple(T.app("s" + a, x, k) for a in "xyz"), over=[("k", n), ("x", X)])
        cx.post("sections of every step", "len(r[k].wing_cross_sections)", lambda k: X, over=[("k", n)])
        cx.post("everything else is the base wing's",
                "(r[k].name, r[k].symmetric, r[k].num_chordwise_panels, r[k].chordwise_spacing, r[k].unit_normal_vector, r[k].unit_chordwise_vector)",
                "(mv.base_wing.name, mv.base_wing.symmetric, mv.base_wing.num_chordwise_panels, mv.base_wing.chordwise_spacing, mv.base_wing.unit_normal_vector, mv.base_wing.unit_chordwise_vector)",
                over=[("k", n)])

    return c


for kinds in (("sine", "uniform", "sine"), ("uniform", "sine", "uniform")):
    contract("C12", "wing positions: " + ", ".join(kinds))(wings(kinds))
