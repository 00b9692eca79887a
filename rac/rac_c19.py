"""Rejected and accepted inputs."""
from lib import *


def cases(tier, seed):
    n = 10 if tier == "quick" else 60
    return [dict(seed=seed * 1000 + i) for i in range(n)]


def S(r, **kw):
    d = dict(x_le=0.0, y_le=0.0, z_le=0.0, chord=1.0, num_spanwise_panels=1)
    d.update(kw)
    return ps.geometry.WingCrossSection(airfoil=foil("naca2412"), **d)


def run(case):
    COUNT[0] = 0
    r = rng("c19", case["seed"])
    G, M = ps.geometry, ps.movement
    # cross sections
    pos = float(10 ** r.uniform(-6, 3))
    for c in (0.0, -0.0, -pos, -1e-300):
        rejected("chord", lambda: S(r, chord=c), c)
    for c in (pos, 1, 1e-9):
        accepted("chord", lambda: S(r, chord=c), c)
    junk = ["", "Symmetric", "SYMMETRIC", "symmetrical", "asym", None, 0, " symmetric", "cosine", "uniform"]
    for t in junk:
        rejected("control surface type", lambda: S(r, control_surface_type=t), t)
    for t in ("symmetric", "asymmetric"):
        accepted("control surface type", lambda: S(r, control_surface_type=t), t)
    odd = ["", "Sine", "cosine", "linear", "Custom"]
    bad = ["", "Cosine", "sine", "uniformly", "cos", "linear", None, 1, "uniform ", "symmetric"]
    for t in bad:
        rejected("spanwise spacing", lambda: S(r, spanwise_spacing=t), t)
        rejected("chordwise spacing", lambda: G.Wing([S(r), S(r, y_le=1.0)], chordwise_spacing=t, num_chordwise_panels=1), t)
    for t in ("cosine", "uniform"):
        accepted("spacing", lambda: G.Wing([S(r, spanwise_spacing=t), S(r, y_le=1.0)], chordwise_spacing=t, num_chordwise_panels=1), t)
    # wings
    rejected("no cross sections", lambda: G.Wing([]))
    rejected("one cross section", lambda: G.Wing([S(r)]))
    for n in range(2, 5):
        accepted("cross sections", lambda: G.Wing([S(r, y_le=float(k)) for k in range(n)], num_chordwise_panels=1))
    for k in range(3):
        e = float(r.choice([-1, 1]) * 10 ** r.uniform(-8, 1))
        kw = {("x_le", "y_le", "z_le")[k]: e}
        rejected("root offset", lambda: G.Wing([S(r, **kw), S(r, y_le=20.0)], num_chordwise_panels=1), kw)
    t = float(r.uniform(0.05, 1.2)) * float(r.choice([-1, 1]))
    tilted = np.array([0.0, math.cos(t), math.sin(t)])
    yawed = np.array([math.sin(t), math.cos(t), 0.0])
    Y, Z, X = np.array([0.0, 1, 0]), np.array([0.0, 0, 1]), np.array([1.0, 0, 0])
    rejected("root plane mismatch", lambda: G.Wing([S(r, unit_normal_vector=tilted), S(r, y_le=1.0)], num_chordwise_panels=1))
    rejected("root plane mismatch", lambda: G.Wing([S(r), S(r, y_le=1.0)], unit_normal_vector=tilted, num_chordwise_panels=1))
    rejected("root plane mismatch", lambda: G.Wing([S(r), S(r, y_le=1.0)], unit_normal_vector=Z, num_chordwise_panels=1))
    accepted("tilted wing", lambda: G.Wing([S(r, unit_normal_vector=tilted), S(r, y_le=1.0, unit_normal_vector=tilted)], unit_normal_vector=tilted, num_chordwise_panels=1))
    accepted("tilted outer section", lambda: G.Wing([S(r), S(r, y_le=1.0), S(r, y_le=2.0, unit_normal_vector=tilted)], num_chordwise_panels=1))
    rejected("yawed outer section", lambda: G.Wing([S(r), S(r, y_le=1.0, unit_normal_vector=yawed)], num_chordwise_panels=1))
    rejected("yawed middle section", lambda: G.Wing([S(r), S(r, y_le=1.0, unit_normal_vector=yawed), S(r, y_le=2.0)], num_chordwise_panels=1))
    rejected("chordwise direction out of the plane", lambda: G.Wing([S(r), S(r, y_le=1.0)], unit_chordwise_vector=yawed, num_chordwise_panels=1))
    rejected("chordwise direction out of the plane", lambda: G.Wing([S(r, unit_normal_vector=tilted), S(r, y_le=1.0, unit_normal_vector=tilted)], unit_normal_vector=tilted, unit_chordwise_vector=Z, num_chordwise_panels=1))
    accepted("chordwise direction", lambda: G.Wing([S(r), S(r, y_le=1.0)], unit_chordwise_vector=np.array([math.cos(t), 0.0, math.sin(t)]), num_chordwise_panels=1))
    rejected("section not parallel to the chordwise direction", lambda: G.Wing([S(r), S(r, y_le=1.0, unit_normal_vector=tilted)],
                                                                               unit_chordwise_vector=np.array([math.cos(t), 0.0, math.sin(t)]), num_chordwise_panels=1))
    # airplanes
    rejected("no wing", lambda: G.Airplane([]))
    w = G.Wing([S(r), S(r, y_le=1.0)], num_chordwise_panels=1)
    a = accepted("airplane", lambda: G.Airplane([w]))
    # deflections
    f = foil("naca2412")
    for d in (90.0 + 10 ** float(r.uniform(-9, 3)), -90.0 - 10 ** float(r.uniform(-9, 3)), 91, -91):
        rejected("deflection", lambda: f.add_control_surface(d, 0.7), d)
        s = accepted("section", lambda: S(r, control_surface_deflection=d))
        rejected("deflection on a wing", lambda: G.Wing([s, S(r, y_le=1.0)], num_chordwise_panels=1), d)
        s2 = accepted("section", lambda: S(r, control_surface_deflection=d, y_le=1.0))
        rejected("deflection on a later section", lambda: G.Wing([S(r), s2, S(r, y_le=2.0)], num_chordwise_panels=1), d)
    for d in (90, -90, 90.0, -90.0, float(r.uniform(-90, 90)), 0):
        accepted("deflection", lambda: f.add_control_surface(d, 0.7), d)
    # movements
    def AM(moving):
        d = dict(sweeping_amplitude=5.0, sweeping_period=float(r.uniform(0.5, 1))) if moving else {}
        wm = M.WingMovement(base_wing=w, wing_cross_sections_movements=[M.WingCrossSectionMovement(w.wing_cross_sections[0]), M.WingCrossSectionMovement(w.wing_cross_sections[1], **d)])
        return M.AirplaneMovement(base_airplane=a, wing_movements=[wm])

    om = M.OperatingPointMovement(base_operating_point=op(r))

    def mk(moving, **kw):
        return lambda: M.Movement(airplane_movements=[AM(moving)], operating_point_movement=om, **kw)

    n = int(r.integers(1, 4))
    for moving in (False, True):
        accepted("no counts", mk(moving, delta_time=0.2))
        accepted("steps", mk(moving, num_steps=n))
        rejected("steps and cycles", mk(moving, num_steps=n, num_cycles=n))
        rejected("steps and chords", mk(moving, num_steps=n, num_chords=n))
        rejected("cycles and chords", mk(moving, num_cycles=n, num_chords=n))
        rejected("all three", mk(moving, num_steps=n, num_cycles=n, num_chords=n))
    accepted("cycles of a periodic motion", mk(True, num_cycles=n, delta_time=0.2))
    rejected("chords of a periodic motion", mk(True, num_chords=n))
    accepted("chords of a static motion", mk(False, num_chords=n))
    rejected("cycles of a static motion", mk(False, num_cycles=n))
    om2 = M.OperatingPointMovement(base_operating_point=op(r), velocity_amplitude=0.5, velocity_period=1.0)
    rejected("chords with an oscillating speed", lambda: M.Movement(airplane_movements=[AM(False)], operating_point_movement=om2, num_chords=n))
    accepted("cycles with an oscillating speed", lambda: M.Movement(airplane_movements=[AM(False)], operating_point_movement=om2, num_cycles=n, delta_time=0.2))
    for nm in ("x_ref", "y_ref", "z_ref"):
        rejected("airplane spacing", lambda: M.AirplaneMovement(base_airplane=a, wing_movements=AM(False).wing_movements, **{nm + "_amplitude": 1.0, nm + "_period": 1.0, nm + "_spacing": odd[r.integers(5)]}).generate_airplanes(2, 0.1))
    for nm in ("x_le", "y_le", "z_le"):
        rejected("wing motion spacing", lambda: M.WingMovement(base_wing=w, wing_cross_sections_movements=AM(False).wing_movements[0].wing_cross_section_movements, **{nm + "_amplitude": 1.0, nm + "_period": 1.0, nm + "_spacing": odd[r.integers(5)]}).generate_wings(2, 0.1))
    for nm, c in (("sweeping", "sweep"), ("pitching", "pitch"), ("heaving", "heave")):
        for sp in (odd[r.integers(5)], "custom"):
            rejected("section motion spacing", lambda: M.WingMovement(base_wing=w, wing_cross_sections_movements=[
                M.WingCrossSectionMovement(w.wing_cross_sections[0]), M.WingCrossSectionMovement(w.wing_cross_sections[1], **{nm + "_amplitude": 1.0, nm + "_period": 1.0, nm + "_spacing": sp})]).generate_wings(2, 0.1))
    rejected("speed spacing", lambda: M.OperatingPointMovement(base_operating_point=op(r), velocity_amplitude=1.0, velocity_period=1.0, velocity_spacing=odd[r.integers(5)]).generate_operating_points(2, 0.1))
    # logging levels and airfoils
    import logging
    conv = ps.functions.convert_logging_level_name_to_value
    for nm in ("Debug", "Info", "Warning", "Error", "Critical"):
        same("logging level " + nm, accepted("logging level", lambda: conv(nm), nm), getattr(logging, nm.upper()))
    for nm in ("debug", "CRITICAL", "", "Warn", "Verbose", None, 10, "Info "):
        rejected("logging level", lambda: conv(nm), nm)
    p = ps.problems.SteadyProblem(airplanes=[a], operating_point=op(r))
    for s in (HS, RV):
        rejected("logging level of a solver", lambda: s(steady_problem=p).run(logging_level="verbose"))
    up = ps.problems.UnsteadyProblem(movement=mk(False, num_steps=1)())
    rejected("logging level of the unsteady solver", lambda: UV(unsteady_problem=up).run(logging_level="verbose"))
    rejected("unknown airfoil", lambda: Airfoil(name="no such airfoil"))
    rejected("solver type", lambda: quiet(ps.convergence.analyze_steady_convergence, p, "steady", (1, 1), (1, 1)))
    return COUNT[0]
