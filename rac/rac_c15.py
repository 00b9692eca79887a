"""Time stepping, first averaging step, final results."""
from lib import *


def cases(tier, seed):
    n = 8 if tier == "quick" else 40
    return [dict(kind="step", seed=seed * 1000 + i) for i in range(n)] + [dict(kind="final", seed=seed * 1000 + i) for i in range(n)]


def periods(m):
    out = []
    for am in m.airplane_movements:
        out += [am.x_ref_period, am.y_ref_period, am.z_ref_period]
        for wm in am.wing_movements:
            out += [wm.x_le_period, wm.y_le_period, wm.z_le_period]
            for cm in wm.wing_cross_section_movements:
                out += [cm.sweeping_period, cm.pitching_period, cm.heaving_period]
    out.append(m.operating_point_movement.velocity_period)
    return max(out)


def final(s, pr, per, dt, T):
    first = T - 1 if per == 0 else max(0, math.floor(T - per / dt))
    same("first averaging step", pr.first_averaging_step, first)
    na = len(pr.steady_problems[0].airplanes)
    names = [("total_near_field_force_wind_axes", "near_field_forces_wind_axes"),
             ("total_near_field_force_coefficients_wind_axes", "near_field_force_coefficients_wind_axes"),
             ("total_near_field_moment_wind_axes", "near_field_moments_wind_axes"),
             ("total_near_field_moment_coefficients_wind_axes", "near_field_moment_coefficients_wind_axes")]
    for a, b in names:
        X = [[getattr(pr.steady_problems[k].airplanes[i], a) for i in range(na)] for k in range(first, T)]
        if per == 0:
            close("final results", getattr(pr, "final_" + b), X[-1])
        else:
            X = np.array(X)
            close("mean results", getattr(pr, "final_mean_" + b), X.sum(0) / len(X))
            close("rms results", getattr(pr, "final_rms_" + b), np.sqrt((X * X).sum(0) / len(X)))


def run(case):
    COUNT[0] = 0
    r = rng("c15", case["kind"], case["seed"])
    if case["kind"] == "final":
        static = case["seed"] % 3 == 0
        only = bool(r.integers(2))
        T = int(r.integers(1, 8))
        s, pr, inf = unsteady(r, static=static, na=int(r.integers(1, 3)), nw=1, steps=T, dt=float(r.uniform(0.05, 0.2)), only_final=only, nchord=1, maxspan=1)
        final(s, pr, periods(pr.movement), inf["dt"], T)
        return COUNT[0]
    na = int(r.integers(1, 4))
    A = [airplane(r, nw=int(r.integers(1, 3)), refs=bool(r.integers(2)), maxspan=1, nchord=int(r.integers(1, 4)), nsec=2) for k in range(na)]
    o = op(r)
    static = bool(r.integers(2))
    am = [airplane_movement(r, a, static) for a in A]
    om = ps.movement.OperatingPointMovement(base_operating_point=o, **({} if static else osc(r, ("velocity",), static)))
    kw = {}
    dt = None
    if r.integers(2):
        dt = kw["delta_time"] = float(r.uniform(0.01, 0.1))
    z = r.integers(3)
    T = None
    count = 10 if static else 3
    if z == 0:
        T = kw["num_steps"] = int(r.integers(1, 20))
    elif z == 1:
        count = kw["num_chords" if static else "num_cycles"] = int(r.integers(1, 6))
    m = ps.movement.Movement(airplane_movements=am, operating_point_movement=om, **kw)
    if dt is None:
        dt = sum(a.c_ref / a.wings[0].num_chordwise_panels / o.velocity for a in A) / na
    per = periods(m)
    close("time step", m.delta_time, dt)
    close("longest period", m.get_max_period(), per)
    if T is None:
        x = count * max(a.c_ref for a in A) / (dt * o.velocity) if per == 0 else count * per / dt
        if abs(x - round(x)) < 1e-6:
            true("steps", m.num_steps in (round(x), round(x) + 1))
        else:
            same("steps", m.num_steps, math.ceil(x))
    else:
        same("steps", m.num_steps, T)
    pr = ps.problems.UnsteadyProblem(movement=m, only_final_results=bool(r.integers(2)))
    x = m.num_steps - per / m.delta_time
    if abs(x - round(x)) > 1e-6:
        same("first averaging step", pr.first_averaging_step, m.num_steps - 1 if per == 0 else max(0, math.floor(x)))
    same("first results step", pr.first_results_step, pr.first_averaging_step if pr.only_final_results else 0)
    return COUNT[0]
