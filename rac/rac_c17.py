"""Convergence analyses: trials and reported parameters."""
from lib import *
from rac_c16 import patched


def cases(tier, seed):
    n = 8 if tier == "quick" else 40
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("steady", "unsteady")] + [dict(kind="real", seed=seed * 1000 + i) for i in range(2)]


def same_wing(w, v, panels):
    for nm in ("name", "symmetric", "chordwise_spacing"):
        same("trial wing " + nm, getattr(w, nm), getattr(v, nm))
    close("trial wing", [w.x_le, w.y_le, w.z_le], [v.x_le, v.y_le, v.z_le], scale=1.0)
    close("trial wing plane", w.unit_normal_vector, v.unit_normal_vector)
    close("trial wing direction", w.unit_chordwise_vector, v.unit_chordwise_vector)
    same("trial sections", len(w.wing_cross_sections), len(v.wing_cross_sections))
    for k, (c, d) in enumerate(zip(w.wing_cross_sections, v.wing_cross_sections)):
        same_section(c, d)
        if k < len(w.wing_cross_sections) - 1:
            true("a spanwise panel per section", c.num_spanwise_panels >= 1)
    same("trial chordwise panels", w.num_chordwise_panels, panels)


def same_section(c, d):
    for nm in ("control_surface_type", "spanwise_spacing"):
        same("trial section " + nm, getattr(c, nm), getattr(d, nm))
    close("trial section", [c.x_le, c.y_le, c.z_le, c.chord, c.twist, c.control_surface_hinge_point, c.control_surface_deflection],
          [d.x_le, d.y_le, d.z_le, d.chord, d.twist, d.control_surface_hinge_point, d.control_surface_deflection], scale=1.0)
    close("trial section plane", c.unit_normal_vector, d.unit_normal_vector)
    close("trial airfoil", c.airfoil.coordinates, d.airfoil.coordinates)
    same("trial airfoil name", c.airfoil.name, d.airfoil.name)


def same_airplane(a, b, panels):
    same("trial name", a.name, b.name)
    close("trial airplane", [a.x_ref, a.y_ref, a.z_ref, a.weight], [b.x_ref, b.y_ref, b.z_ref, b.weight], scale=1.0)
    same("trial wings", len(a.wings), len(b.wings))
    for w, v in zip(a.wings, b.wings):
        same_wing(w, v, panels)


def same_motion(x, y, names):
    for n in names:
        for s in ("amplitude", "period", "spacing"):
            same("trial motion %s_%s" % (n, s), getattr(x, n + "_" + s), getattr(y, n + "_" + s))


def fingerprint(A):
    out = []
    for a in A:
        out.append([a.name, a.weight, a.x_ref, a.y_ref, a.z_ref, a.s_ref, a.c_ref, a.b_ref, len(a.wings), a.num_panels])
        for w in a.wings:
            out.append([w.name, w.x_le, w.num_chordwise_panels, w.num_spanwise_panels, list(w.unit_normal_vector), w.chordwise_spacing])
            for c in w.wing_cross_sections:
                out.append([c.x_le, c.y_le, c.z_le, c.chord, c.twist, c.num_spanwise_panels, c.spanwise_spacing, c.control_surface_deflection, id(c.airfoil), c.airfoil.coordinates.tolist()])
            for p in w.panels.ravel():
                out.append([list(p.front_left_vertex), list(p.back_right_vertex), p.local_chordwise_position, p.local_spanwise_position])
    return out


def change(x, y):
    """largest percentage change from y to x"""
    return float(np.max(100 * np.abs((np.asarray(x) - np.asarray(y)) / np.asarray(y))))


def expected(lists, coef, crit, saturated):
    """Accepted trials in order; the parameters each would report."""
    import itertools

    out = []
    for idx in itertools.product(*[range(len(l)) for l in lists]):
        if idx not in coef:
            continue
        rep = []
        ok = True
        for d, l in enumerate(lists):
            if len(l) == 1:
                rep.append(l[0])
                continue
            conv = False
            if idx[d] > 0:
                prev = idx[:d] + (idx[d] - 1,) + idx[d + 1:]
                conv = change(coef[idx], coef[prev]) < crit
            if conv:
                rep.append(l[idx[d] - 1])
            elif saturated(d, l[idx[d]]):
                rep.append(l[idx[d]])
            else:
                ok = False
        if ok:
            out.append((idx, rep))
    return out


def verdict(res, lists, coef, crit, saturated):
    exp = expected(lists, coef, crit, saturated)
    res = list(res)
    if any(x is None for x in res):
        true("all entries None", all(x is None for x in res), repr(res))
        same("trials that met the criterion but were not reported", exp, [])
        import itertools
        same("trials run", len(coef), len(list(itertools.product(*lists))))
    else:
        for x, l in zip(res, lists):
            true("within the bounds", x in l, repr(res))
        true("the criterion is met by the reported mesh", any(rep == res for _, rep in exp), "%r, trials meeting it report %r" % (res, exp))


def run(case):
    COUNT[0] = 0
    r = rng("c17", case["kind"], case["seed"])
    na = int(r.integers(1, 3))
    A = [airplane(r, nw=int(r.integers(1, 4)) if case["kind"] != "real" else 1, name="p%d" % k, controls=True, maxspan=2, nchord=2) for k in range(na)]
    if r.integers(2) and case["kind"] != "real":
        # a section with hardly any span
        c = A[0].wings[0].wing_cross_sections
        e = copy.deepcopy(c[-1])
        e.y_le += 0.02
        e.leading_edge = np.array([e.x_le, e.y_le, e.z_le])
        w = A[0].wings[0]
        A[0] = ps.geometry.Airplane(wings=[ps.geometry.Wing(wing_cross_sections=list(c) + [e], name=w.name, symmetric=w.symmetric, x_le=w.x_le,
                                                            num_chordwise_panels=2)] + list(A[0].wings[1:]), name=A[0].name, weight=A[0].weight)
        for k, s in enumerate(A[0].wings[0].wing_cross_sections[:-1]):
            s.num_spanwise_panels = max(1, s.num_spanwise_panels)
    o = op(r)
    crit = float(r.uniform(1, 12))
    hi = int(r.integers(1, 5))
    lo = int(r.integers(1, hi + 1))
    arb = (hi, lo)
    cl = int(r.integers(1, 4))
    cb = (cl, cl + int(r.integers(0, 4)))
    ars, chs = list(range(hi, lo - 1, -1)), list(range(cb[0], cb[1] + 1))
    noise = float(r.choice([0.005, 0.03, 0.1]))
    trials = []
    g = np.random.default_rng(case["seed"])
    base = g.uniform(0.5, 2, (na, 6)) * g.choice([-1, 1], (na, 6))

    def values():
        return base * (1 + noise * g.uniform(-1, 1, (na, 6)))

    real = case["kind"] == "real"
    if real:
        arb, cb, ars, chs = (2, 1), (1, 3), [2, 1], [1, 2, 3]
    if case["kind"] == "steady" or (real and case["seed"] % 2 == 0):
        kind = ("steady horseshoe vortex lattice method", "steady ring vortex lattice method")[r.integers(2)]
        cls = HS if "horse" in kind else RV
        problem = ps.problems.SteadyProblem(airplanes=A, operating_point=o)
        fp = fingerprint(A)

        def run1(self, *a, **k):
            q = self.operating_point
            close("trial operating point", [q.density, q.velocity, q.alpha, q.beta, q.nu, q.external_thrust], [o.density, o.velocity, o.alpha, o.beta, o.nu, o.external_thrust], scale=1.0)
            n = chs[len(trials) % len(chs)]
            same("trial airplanes", len(self.airplanes), na)
            if real:
                old(self, *a, **k)
                v = np.array([list(x.total_near_field_force_coefficients_wind_axes) + list(x.total_near_field_moment_coefficients_wind_axes) for x in self.airplanes])
            else:
                v = values()
            for x, y, z in zip(self.airplanes, A, v):
                true("trial airplane is a copy", x is not y)
                same_airplane(x, y, n)
                x.total_near_field_force_coefficients_wind_axes, x.total_near_field_moment_coefficients_wind_axes = z[:3], z[3:]
            trials.append(np.concatenate([np.linalg.norm(v[:, :3], axis=1), np.linalg.norm(v[:, 3:], axis=1)]))
        with patched(cls, run1) as old:
            res, _ = quiet(ps.convergence.analyze_steady_convergence, problem, kind, panel_aspect_ratio_bounds=arb, num_chordwise_panels_bounds=cb, convergence_criteria=crit)
        lists = [ars, chs]
        sat = lambda d, x: d == 0 and x == 1
    else:
        static = bool(r.integers(2))
        mov = movement(r, A, o, static=static, steps=2, dt=0.05)
        problem = ps.problems.UnsteadyProblem(movement=mov)
        fp = fingerprint(A)
        pw, fw = [(True, True), (True, False), (False, True)][r.integers(3)]
        wakes = [True] * pw + [False] * fw
        lb = int(r.integers(1, 3))
        lens = list(range(lb, lb + int(r.integers(1, 4))))
        mask = [bool(x) for x in r.integers(0, 2, 6)]
        if real:
            mask, lens = [True, False, True, False, True, False], [1, 2]
            crit = 40.0
        if not any(mask):
            mask = [True] * 6
        default = bool(r.integers(2)) and not real
        use = [True] * 6 if default else mask
        seen = []
        orders = [(a, b, c, d) for a in range(len(wakes)) for b in range(len(lens)) for c in range(len(ars)) for d in range(len(chs))]

        def run2(self, *a, **k):
            pr = self.unsteady_problem
            i = orders[len(trials)]
            true("only final results", pr.only_final_results)
            n = chs[i[3]]
            m = pr.movement
            if static:
                same("trial wake length", m.num_chords, lens[i[1]])
            else:
                same("trial cycles", m.num_cycles, lens[i[1]])
            same("trial wake kind", k.get("prescribed_wake", a[1] if len(a) > 1 else True), wakes[i[0]])
            same_motion(m.operating_point_movement, mov.operating_point_movement, ("velocity",))
            q = m.operating_point_movement.base_operating_point
            close("trial operating point", [q.density, q.velocity, q.alpha, q.beta, q.nu, q.external_thrust], [o.density, o.velocity, o.alpha, o.beta, o.nu, o.external_thrust], scale=1.0)
            same("trial airplanes", len(m.airplane_movements), na)
            for x, y in zip(m.airplane_movements, mov.airplane_movements):
                same_airplane(x.base_airplane, y.base_airplane, n)
                same_motion(x, y, ("x_ref", "y_ref", "z_ref"))
                for p, q in zip(x.wing_movements, y.wing_movements):
                    true("own base wing", p.base_wing in x.base_airplane.wings)
                    same_motion(p, q, ("x_le", "y_le", "z_le"))
                    same("motions", len(p.wing_cross_section_movements), len(q.wing_cross_section_movements))
                    for u, v in zip(p.wing_cross_section_movements, q.wing_cross_section_movements):
                        same_motion(u, v, ("sweeping", "pitching", "heaving"))
                        for nm in ("custom_sweep_function", "custom_pitch_function", "custom_heave_function"):
                            same("trial motion " + nm, getattr(u, nm), getattr(v, nm))
            pre = "final_" if static else "final_rms_"
            if real:
                old(self, *a, **k)
                z = np.hstack([np.array(getattr(pr, pre + "near_field_force_coefficients_wind_axes")), np.array(getattr(pr, pre + "near_field_moment_coefficients_wind_axes"))])
            else:
                z = values()
                setattr(pr, pre + "near_field_force_coefficients_wind_axes", [q[:3] for q in z])
                setattr(pr, pre + "near_field_moment_coefficients_wind_axes", [q[3:] for q in z])
            trials.append(z[:, use])
        with patched(UV, run2) as old:
            res, _ = quiet(ps.convergence.analyze_unsteady_convergence, problem, prescribed_wake=pw, free_wake=fw, num_cycles_bounds=(lens[0], lens[-1]),
                           num_chords_bounds=(lens[0], lens[-1]), panel_aspect_ratio_bounds=arb, num_chordwise_panels_bounds=cb,
                           coefficient_mask=None if default else mask, convergence_criteria=crit)
        lists = [wakes, lens, ars, chs]
        sat = lambda d, x: (d == 0 and x is False) or (d == 2 and x == 1)
    import itertools
    idx = list(itertools.product(*[range(len(l)) for l in lists]))
    verdict(res, lists, dict(zip(idx, trials)), crit, sat)
    same("user's airplanes", fingerprint(A), fp)
    return COUNT[0]
