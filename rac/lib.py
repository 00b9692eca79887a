"""Random configurations built through the public constructors, and oracles
written from the documentation (plain NumPy)."""
import io
import contextlib
import copy
import math
import os
import warnings

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np

warnings.simplefilter("ignore")
import pterasoftware as ps  # noqa: E402
import pterasoftware.trim  # noqa: E402,F401
import pterasoftware.convergence  # noqa: E402,F401
from racbase import Violation, Inconclusive  # noqa: E402,F401

HS = ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver
RV = ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver
UV = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
Airfoil = ps.geometry.Airfoil
COUNT = [0]


def rng(*k):
    return np.random.default_rng([abs(hash_(x)) for x in k])


def hash_(x):
    if isinstance(x, (int, np.integer)):
        return int(x)
    import zlib

    return zlib.crc32(str(x).encode())


def close(what, got, want, tol=1e-9, scale=None, msg=""):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    COUNT[0] += max(1, got.size)
    if got.shape != want.shape:
        raise Violation(what, "%s %s: shape %s, expected %s" % (what, msg, got.shape, want.shape))
    if got.size == 0:
        return
    if not np.all(np.isfinite(want)):
        raise Inconclusive("%s: expected value not finite" % what)
    s = scale if scale is not None else max(1e-12, float(np.max(np.abs(want))), float(np.max(np.abs(np.nan_to_num(got)))))
    d = np.abs(got - want)
    if not np.all(d <= tol * s):
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        raise Violation(what, "%s %s at %s: %r, expected %r (tolerance %g of %g)" % (
            what, msg, tuple(int(x) for x in i), float(got[i]), float(want[i]), tol, s))


def same(what, got, want, msg=""):
    COUNT[0] += 1
    if not (got is want or got == want):
        raise Violation(what, "%s %s: %r, expected %r" % (what, msg, got, want))


def true(what, cond, msg=""):
    COUNT[0] += 1
    if not cond:
        raise Violation(what, "%s %s" % (what, msg))


# ------------------------------------------------------------------ building
FOILS = ("naca2412", "naca0012", "naca4408", "naca6409")
_foils = {}


def foil(name):
    if name not in _foils:
        _foils[name] = Airfoil(name=name, n_points_per_side=60)
    return copy.deepcopy(_foils[name])


def section(r, x, y, z, chord, nspan, last=False, normal=(0.0, 1.0, 0.0), controls=False, **kw):
    d = dict(
        airfoil=foil(FOILS[r.integers(len(FOILS))]), x_le=x, y_le=y, z_le=z, chord=chord,
        unit_normal_vector=np.array(normal), twist=float(r.uniform(-4, 4)),
        num_spanwise_panels=int(nspan), spanwise_spacing=("cosine", "uniform")[r.integers(2)],
    )
    if controls:
        d.update(control_surface_type=("symmetric", "asymmetric")[r.integers(2)],
                 control_surface_hinge_point=float(r.uniform(0.5, 0.8)), control_surface_deflection=float(r.uniform(-15, 15)))
    d.update(kw)
    return ps.geometry.WingCrossSection(**d)


def wing(r, nsec=None, symmetric=None, nchord=None, controls=False, name="Wing", at=None, maxspan=3, vertical=False, tilt=False, dihedral=True, **kw):
    nsec = nsec or int(r.integers(2, 4))
    if symmetric is None:
        symmetric = bool(r.integers(2))
    secs = []
    x = y = z = 0.0
    c = float(r.uniform(0.8, 1.6))
    nrm = (0.0, 1.0, 0.0)
    if vertical:
        nrm = (0.0, 0.0, 1.0)
    for k in range(nsec):
        secs.append(section(r, x, y, z, c, r.integers(1, maxspan + 1), normal=nrm, controls=controls))
        x += float(r.uniform(0.05, 0.5))
        if vertical:
            z += float(r.uniform(0.8, 2.0))
        else:
            y += float(r.uniform(0.8, 2.0))
            if dihedral:
                z += float(r.uniform(-0.15, 0.3))
        c *= float(r.uniform(0.6, 1.0))
    d = dict(
        wing_cross_sections=secs, name=name, symmetric=symmetric, unit_normal_vector=np.array(nrm),
        num_chordwise_panels=int(nchord or r.integers(1, 4)), chordwise_spacing=("cosine", "uniform")[r.integers(2)],
    )
    at = at if at is not None else (float(r.uniform(-0.3, 0.3)), float(r.uniform(0, 0.2)), float(r.uniform(-0.3, 0.3)))
    d.update(x_le=at[0], y_le=at[1], z_le=at[2])
    d.update(kw)
    return ps.geometry.Wing(**d)


def airplane(r, nw=None, name="A", at=(0, 0, 0), refs=False, **kw):
    nw = nw or int(r.integers(1, 3))
    ws = []
    for k in range(nw):
        ws.append(wing(r, name="%s-wing-%d" % (name, k), vertical=(k == 2),
                       at=(at[0] + 4.0 * k + float(r.uniform(0, 0.4)), at[1], at[2] + 0.5 * k + float(r.uniform(0, 0.2))), **kw))
    d = dict(wings=ws, name=name, x_ref=float(r.uniform(-1, 2)), y_ref=float(r.uniform(-1, 1)), z_ref=float(r.uniform(-1, 1)),
             weight=float(r.uniform(1, 50)))
    if refs:
        d.update(s_ref=float(r.uniform(2, 5)), c_ref=float(r.uniform(0.5, 2)), b_ref=float(r.uniform(2, 8)))
    return ps.geometry.Airplane(**d)


def airplanes(r, na=None, **kw):
    na = na or int(r.integers(1, 3))
    return [airplane(r, name="plane-%d" % k, at=(12.0 * k, 1.0 * k, 3.0 * k), **kw) for k in range(na)]


def op(r, **kw):
    d = dict(density=float(r.uniform(0.5, 2)), velocity=float(r.uniform(5, 20)), alpha=float(r.uniform(-8, 12)), beta=float(r.uniform(-8, 8)),
             external_thrust=float(r.uniform(0, 3)), nu=float(r.uniform(1e-5, 3e-5)))
    d.update(kw)
    return ps.operating_point.OperatingPoint(**d)


def deg(x):
    return math.radians(x)


def freestream(o):
    a, b = deg(o.alpha), deg(o.beta)
    return o.velocity * np.array([math.cos(a) * math.cos(b), -math.sin(b), math.sin(a) * math.cos(b)])


def wind_rotation(o):
    """Columns: wind axes in geometry axes (x upstream, y right, z down)."""
    a, b = deg(o.alpha), deg(o.beta)
    ca, sa, cb, sb = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
    return np.array([[-ca * cb, ca * sb, sa], [sb, cb, 0.0], [-sa * cb, sa * sb, -ca]])


def panels_of(airplane_):
    for w in airplane_.wings:
        for i in range(w.panels.shape[0]):
            for j in range(w.panels.shape[1]):
                yield w, i, j, w.panels[i, j]


def all_panels(airplanes_):
    for k, a in enumerate(airplanes_):
        for w, i, j, p in panels_of(a):
            yield k, a, w, i, j, p


# ------------------------------------------------------------------ Biot-Savart
def segment(p, o, t, s, age=0.0, nu=0.0):
    """velocity at points p (n,3) of one straight segment"""
    p = np.atleast_2d(p)
    rc2 = 4 * 1.25643 * (nu + 1e-4 * abs(s)) * age
    r1, r2, r0 = o - p, t - p, t - o
    r3 = np.cross(r1, r2)
    n1, n2 = np.linalg.norm(r1, axis=1), np.linalg.norm(r2, axis=1)
    n33 = np.sum(r3 * r3, axis=1)
    e = np.finfo(float).eps
    ok = ~((n1 < e) | (n2 < e) | (n33 < e))
    with np.errstate(all="ignore"):
        c = s / (4 * math.pi) * (n1 + n2) * (n1 * n2 - np.sum(r1 * r2, axis=1)) / (n1 * n2 * (n33 + r0 @ r0 * rc2))
    return np.where(ok[:, None], np.where(ok, c, 0)[:, None] * r3, 0.0)


def ring(p, fl, fr, bl, br, s, age=0.0, nu=0.0):
    return (segment(p, br, fr, s, age, nu) + segment(p, fr, fl, s, age, nu) + segment(p, fl, bl, s, age, nu) + segment(p, bl, br, s, age, nu))


def ring_of(p, v, age=0.0, nu=0.0):
    return ring(p, v.front_left_vertex, v.front_right_vertex, v.back_left_vertex, v.back_right_vertex, v.strength, age, nu)


def shoe_of(p, v):
    s = v.strength
    return (segment(p, v.right_leg.origin, v.right_leg.termination, s) + segment(p, v.finite_leg.origin, v.finite_leg.termination, s)
            + segment(p, v.left_leg.origin, v.left_leg.termination, s))


def steady_velocity(p, kind, airplanes_, o):
    """freestream plus every vortex stored on every panel"""
    v = np.zeros((len(p), 3)) + freestream(o)
    for k, a, w, i, j, pn in all_panels(airplanes_):
        if kind == "ring":
            v = v + ring_of(p, pn.ring_vortex)
            if i == w.panels.shape[0] - 1:
                v = v + shoe_of(p, pn.horseshoe_vortex)
        else:
            v = v + shoe_of(p, pn.horseshoe_vortex)
    return v


def quarter(pn):
    fl = pn.front_left_vertex + 0.25 * (pn.back_left_vertex - pn.front_left_vertex)
    fr = pn.front_right_vertex + 0.25 * (pn.back_right_vertex - pn.front_right_vertex)
    return fl, fr


def collocation(pn):
    fl = pn.front_left_vertex + 0.75 * (pn.back_left_vertex - pn.front_left_vertex)
    fr = pn.front_right_vertex + 0.75 * (pn.back_right_vertex - pn.front_right_vertex)
    return 0.5 * (fl + fr)


def normal_area(pn):
    d1 = pn.front_right_vertex - pn.back_left_vertex
    d2 = pn.front_left_vertex - pn.back_right_vertex
    c = np.cross(d1, d2)
    n = np.linalg.norm(c)
    return c / n, n / 2


def steady(kind, airplanes_, o):
    problem = ps.problems.SteadyProblem(airplanes=airplanes_, operating_point=o)
    s = (RV if kind == "ring" else HS)(steady_problem=problem)
    s.run()
    return s


def quiet(f, *a, **kw):
    b = io.StringIO()
    with contextlib.redirect_stdout(b), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **kw)
    return r, b.getvalue()


# ------------------------------------------------------------------ unsteady
def cs_movement(r, cs, root, static):
    d = {}
    if not static:
        if not root:
            d.update(sweeping_amplitude=float(r.uniform(-12, 12)), sweeping_period=float(r.uniform(0.2, 0.6)), sweeping_spacing=("sine", "uniform")[r.integers(2)])
            d.update(heaving_amplitude=float(r.uniform(-4, 4)), heaving_period=float(r.uniform(0.2, 0.6)), heaving_spacing=("sine", "uniform")[r.integers(2)])
        d.update(pitching_amplitude=float(r.uniform(-5, 5)), pitching_period=float(r.uniform(0.2, 0.6)), pitching_spacing=("sine", "uniform")[r.integers(2)])
    return ps.movement.WingCrossSectionMovement(base_wing_cross_section=cs, **d)


def osc(r, names, static, amp=0.1):
    d = {}
    if not static:
        for n in names:
            if r.integers(2):
                d[n + "_amplitude"] = float(r.uniform(0.2, 1) * amp)
                d[n + "_period"] = float(r.uniform(0.2, 0.6))
                d[n + "_spacing"] = ("sine", "uniform")[r.integers(2)]
    return d


def wing_movement(r, w, static):
    secs = [cs_movement(r, cs, k == 0, static) for k, cs in enumerate(w.wing_cross_sections)]
    return ps.movement.WingMovement(base_wing=w, wing_cross_sections_movements=secs, **osc(r, ("x_le", "y_le", "z_le"), static))


def airplane_movement(r, a, static):
    return ps.movement.AirplaneMovement(base_airplane=a, wing_movements=[wing_movement(r, w, static) for w in a.wings], **osc(r, ("x_ref", "y_ref", "z_ref"), static))


def movement(r, A, o, static=False, steps=4, dt=0.03, **kw):
    return ps.movement.Movement(
        airplane_movements=[airplane_movement(r, a, static) for a in A],
        operating_point_movement=ps.movement.OperatingPointMovement(base_operating_point=o, **osc(r, ("velocity",), static, amp=1.0)),
        num_steps=steps, delta_time=dt, **kw)


def unsteady(r, static=None, na=None, steps=4, dt=None, prescribed=None, only_final=False, streamlines=False, **kw):
    """runs an unsteady simulation of a random problem"""
    static = bool(r.integers(2)) if static is None else static
    prescribed = bool(r.integers(2)) if prescribed is None else prescribed
    dt = dt or float(r.uniform(0.02, 0.05))
    kw.setdefault("maxspan", 2)
    kw.setdefault("nchord", int(r.integers(1, 3)))
    A = airplanes(r, na=na, **kw)
    o = op(r)
    m = movement(r, A, o, static=static, steps=steps, dt=dt)
    problem = ps.problems.UnsteadyProblem(movement=m, only_final_results=only_final)
    s = UV(unsteady_problem=problem)
    s.run(prescribed_wake=prescribed, calculate_streamlines=streamlines, logging_level="Critical")
    return s, problem, dict(static=static, prescribed=prescribed, dt=dt, steps=steps, airplanes=A, op=o)


def wing_rings_velocity(p, airplanes_):
    v = np.zeros((len(p), 3))
    for k, a, w, i, j, pn in all_panels(airplanes_):
        v = v + ring_of(p, pn.ring_vortex)
    return v


def wake_velocity(p, s, step, nu):
    """velocity of the wake the flow solver saw at a step"""
    v = np.zeros((len(p), 3))
    for n in range(s.num_wake_ring_vortices_list[step]):
        v = v + ring(p, s.wake_ring_vortex_front_left_vertices_list[step][n], s.wake_ring_vortex_front_right_vertices_list[step][n],
                     s.wake_ring_vortex_back_left_vertices_list[step][n], s.wake_ring_vortex_back_right_vertices_list[step][n],
                     s.wake_ring_vortex_strengths_list[step][n], s.wake_ring_vortex_ages_list[step][n], nu)
    return v


def unsteady_velocity(p, s, problem, step):
    sp = problem.steady_problems[step]
    return freestream(sp.operating_point) + wing_rings_velocity(p, sp.airplanes) + wake_velocity(p, s, step, sp.operating_point.nu)


def expected_rings(w, o, dt):
    """corners of every panel's bound ring: fl, fr, bl, br arrays (M, N, 3)"""
    M, N = w.panels.shape
    out = np.zeros((4, M, N, 3))
    for i in range(M):
        for j in range(N):
            pn = w.panels[i, j]
            out[0, i, j], out[1, i, j] = quarter(pn)
    for i in range(M):
        for j in range(N):
            pn = w.panels[i, j]
            if i + 1 < M:
                out[2, i, j], out[3, i, j] = out[0, i + 1, j], out[1, i + 1, j]
            else:
                sh = 0.25 * dt * freestream(o)
                out[2, i, j] = out[0, i, j] + pn.back_left_vertex - pn.front_left_vertex + sh
                out[3, i, j] = out[1, i, j] + pn.back_right_vertex - pn.front_right_vertex + sh
    return out


def rejected(what, f, msg=""):
    """f() must raise"""
    COUNT[0] += 1
    try:
        f()
    except Exception:
        return
    raise Violation(what, "%s: accepted %s" % (what, msg))


def accepted(what, f, msg=""):
    COUNT[0] += 1
    try:
        return f()
    except Exception as e:  # noqa
        raise Violation(what, "%s: rejected %s (%s: %s)" % (what, msg, type(e).__name__, str(e)[:150]))
