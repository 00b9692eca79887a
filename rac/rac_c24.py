"""Repeatability and frame."""
from lib import *


def cases(tier, seed):
    n = 5 if tier == "quick" else 25
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("steady", "unsteady")]


GEO = ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex", "is_leading_edge", "is_trailing_edge", "is_left_edge", "is_right_edge",
       "local_chordwise_position", "local_spanwise_position")


def value(x):
    if isinstance(x, np.ndarray):
        return (x.shape, tuple(x.ravel().tolist()))
    return x


def given(A, o):
    """geometry and operating point"""
    out = [tuple(sorted((k, value(v)) for k, v in vars(o).items()))]
    for a in A:
        out.append((a.name, a.x_ref, a.y_ref, a.z_ref, value(a.xyz_ref), a.weight, a.s_ref, a.c_ref, a.b_ref, a.num_panels, tuple(id(w) for w in a.wings)))
        for w in a.wings:
            out.append(tuple((k, value(v)) for k, v in sorted(vars(w).items()) if k not in ("panels", "wing_cross_sections", "wake_ring_vortex_vertices", "wake_ring_vortices")))
            for c in w.wing_cross_sections:
                out.append(tuple((k, value(v)) for k, v in sorted(vars(c).items()) if k != "airfoil"))
                out.append(value(c.airfoil.coordinates))
            for p in w.panels.ravel():
                out.append(tuple(value(getattr(p, g)) for g in GEO))
    return out


def outcome(s, A):
    out = []
    for k, a, w, i, j, p in all_panels(A):
        for v in (p.ring_vortex, p.horseshoe_vortex):
            out.append(v.strength if v is not None and v.strength is not None else np.nan)
        out += [p.near_field_force_geometry_axes, p.near_field_moment_geometry_axes, p.near_field_force_wind_axes, p.near_field_moment_wind_axes,
                p.induced_drag_coefficient, p.side_force_coefficient, p.lift_coefficient]
    for a in A:
        out += [a.total_near_field_force_wind_axes, a.total_near_field_moment_wind_axes, a.total_near_field_force_coefficients_wind_axes, a.total_near_field_moment_coefficients_wind_axes]
        for w in a.wings:
            out.append(w.wake_ring_vortex_vertices)
            out += [np.append(g.front_left_vertex, [g.strength, g.age]) for g in np.ravel(w.wake_ring_vortices)]
    return [np.asarray(x, dtype=float) for x in out if x is not None]


FIN = [p + k for p in ("final_", "final_mean_", "final_rms_") for k in
       ("near_field_forces_wind_axes", "near_field_force_coefficients_wind_axes", "near_field_moments_wind_axes", "near_field_moment_coefficients_wind_axes")]


def equal(what, x, y, tol=1e-9):
    same(what + " (how many)", len(x), len(y))
    for a, b in zip(x, y):
        na, nb = np.isnan(a), np.isnan(b)
        true(what, a.shape == b.shape and np.array_equal(na, nb), "shapes %s %s" % (a.shape, b.shape))
        if a.size:
            close(what, np.nan_to_num(a), np.nan_to_num(b), tol=tol)


def solve(kind, A, o, streams=True):
    problem = ps.problems.SteadyProblem(airplanes=A, operating_point=o)
    s = (RV if kind == "ring" else HS)(steady_problem=problem)
    s.run()
    return s


def own(kind, A):
    """results of the solver that ran last (the other solver's vortices may remain)"""
    out = []
    for k, a, w, i, j, p in all_panels(A):
        if kind == "ring":
            out.append(p.ring_vortex.strength)
            if i == w.panels.shape[0] - 1:
                out.append(p.horseshoe_vortex.strength)
        else:
            out.append(p.horseshoe_vortex.strength)
        out += [p.near_field_force_geometry_axes, p.near_field_moment_geometry_axes, p.near_field_force_wind_axes, p.near_field_moment_wind_axes,
                p.induced_drag_coefficient, p.side_force_coefficient, p.lift_coefficient]
    for a in A:
        out += [a.total_near_field_force_wind_axes, a.total_near_field_moment_wind_axes, a.total_near_field_force_coefficients_wind_axes, a.total_near_field_moment_coefficients_wind_axes]
    return [np.asarray(x, dtype=float) for x in out]


def run(case):
    COUNT[0] = 0
    r = rng("c24", case["kind"], case["seed"])
    if case["kind"] == "steady":
        A = airplanes(r, maxspan=2, controls=True)
        o, o2 = op(r), op(r)
        ref = {}
        for k in ("ring", "horseshoe"):
            B = copy.deepcopy(A)
            s = solve(k, B, copy.deepcopy(o))
            ref[k] = own(k, B) + [np.asarray(s.streamline_points)]
        g = given(A, o)
        seq = [("ring", "horseshoe")[r.integers(2)] for _ in range(5)]
        objs = {}
        for n, k in enumerate(seq):
            mode = r.integers(3)
            if mode == 0 and k in objs:
                s = objs[k]
                s.run()
            elif mode == 1:
                solve(("ring", "horseshoe")[r.integers(2)], A, o2)
                s = solve(k, A, o)
            else:
                s = objs[k] = solve(k, A, o)
            equal("results of run %d (%s)" % (n, k), own(k, A) + [np.asarray(s.streamline_points)], ref[k])
            same("geometry and operating point", given(A, o), g)
        return COUNT[0]
    static = bool(r.integers(2))
    na = int(r.integers(1, 3))
    A = airplanes(r, na=na, nw=1, maxspan=2, nchord=int(r.integers(1, 3)))
    m = movement(r, A, op(r), static=static, steps=int(r.integers(1, 4)), dt=float(r.uniform(0.02, 0.05)))
    only = bool(r.integers(2))

    def go(s, pw):
        s.run(prescribed_wake=pw, calculate_streamlines=True, logging_level="Critical")

    def res(s, pr):
        out = []
        for k, sp in enumerate(pr.steady_problems):
            if k >= pr.first_results_step:
                out += outcome(s, sp.airplanes)
        for f in FIN:
            out.append(np.asarray(getattr(pr, f), dtype=float))
        for k in range(pr.num_steps):
            for l in (s.wake_ring_vortex_strengths_list, s.wake_ring_vortex_ages_list, s.wake_ring_vortex_front_left_vertices_list, s.wake_ring_vortex_back_right_vertices_list):
                same("wake lists", len(l), pr.num_steps)
                out.append(np.asarray(l[k], dtype=float))
        out.append(np.asarray(s.streamline_points))
        return out

    fresh = {}
    for pw in (True, False):
        pr = ps.problems.UnsteadyProblem(movement=copy.deepcopy(m), only_final_results=only)
        s = UV(unsteady_problem=pr)
        go(s, pw)
        fresh[pw] = res(s, pr)
    pr = ps.problems.UnsteadyProblem(movement=m, only_final_results=only)
    g = [given(sp.airplanes, sp.operating_point) for sp in pr.steady_problems]
    s = UV(unsteady_problem=pr)
    for n in range(3):
        pw = bool(r.integers(2))
        if r.integers(2):
            # another solver uses the airplanes of one step in between
            sp = pr.steady_problems[r.integers(pr.num_steps)]
            (RV, HS)[r.integers(2)](steady_problem=sp).run()
        if r.integers(3) == 0:
            pr = ps.problems.UnsteadyProblem(movement=m, only_final_results=only)
            s = UV(unsteady_problem=pr)
        elif r.integers(2):
            s = UV(unsteady_problem=pr)
        go(s, pw)
        a, b = res(s, pr), fresh[pw]
        equal("results of unsteady run %d" % n, [x for x in a], [x for x in b]) if False else compare(n, a, b)
        same("geometry and operating points", [given(sp.airplanes, sp.operating_point) for sp in pr.steady_problems], g)
    # and a steady solver after the unsteady one
    sp = pr.steady_problems[0]
    k = ("ring", "horseshoe")[r.integers(2)]
    B = copy.deepcopy(movement_airplanes(m, 0))
    solve(k, B, copy.deepcopy(sp.operating_point))
    solve(k, sp.airplanes, sp.operating_point)
    equal("steady run after the unsteady one", own(k, sp.airplanes), own(k, B))
    return COUNT[0]


def movement_airplanes(m, step):
    return [x[step] for x in m.airplanes]


def compare(n, a, b):
    # horseshoe vortices left by a steady solver are not results of the unsteady one
    same("results of run %d (how many)" % n, len(a), len(b))
    for x, y in zip(a, b):
        if x.shape == () and (np.isnan(x) != np.isnan(y)):
            continue
        true("results of unsteady run %d" % n, x.shape == y.shape, "shapes %s %s" % (x.shape, y.shape))
        if x.size:
            close("results of unsteady run %d" % n, np.nan_to_num(x), np.nan_to_num(y), tol=1e-9)
