"""Snapshots keep everything that was not asked to move."""
from lib import *


def cases(tier, seed):
    n = 12 if tier == "quick" else 40
    return [dict(seed=seed * 1000 + i, static=bool(i % 4 == 0), vertical=bool(i % 3 == 0)) for i in range(n)]


def run(case):
    COUNT[0] = 0
    r = rng("c13", case["seed"])
    A = [airplane(r, nw=3 if case["vertical"] and k == 0 else None, name="plane-%d" % k, controls=True, maxspan=2) for k in range(int(r.integers(1, 3)))]
    if case["vertical"]:
        # another chordwise direction
        w = A[0].wings[0]
        ch = np.array([math.cos(0.1), 0.0, math.sin(0.1)])
        A[0] = ps.geometry.Airplane(wings=[ps.geometry.Wing(
            wing_cross_sections=w.wing_cross_sections, name=w.name, x_le=w.x_le, y_le=w.y_le, z_le=w.z_le, symmetric=w.symmetric,
            unit_chordwise_vector=ch, num_chordwise_panels=w.num_chordwise_panels, chordwise_spacing=w.chordwise_spacing)] + list(A[0].wings[1:]),
            name=A[0].name, x_ref=A[0].x_ref, y_ref=A[0].y_ref, z_ref=A[0].z_ref, weight=A[0].weight)
    o = op(r)
    T = int(r.integers(1, 5))
    m = movement(r, A, o, static=case["static"], steps=T, dt=0.05)
    pr = ps.problems.UnsteadyProblem(movement=m)
    same("problems", len(pr.steady_problems), T)
    same("steps", pr.num_steps, T)
    close("time step", pr.delta_time, 0.05)
    for k, sp in enumerate(pr.steady_problems):
        q = sp.operating_point
        close("operating point", [q.density, q.alpha, q.beta, q.nu, q.external_thrust], [o.density, o.alpha, o.beta, o.nu, o.external_thrust], tol=1e-12)
        true("operating point snapshots are distinct", q is not o)
        same("airplanes", len(sp.airplanes), len(A))
        for a, b in zip(sp.airplanes, A):
            true("airplane order", a is m.airplanes[[x is b for x in A].index(True)][k])
            same("name", a.name, b.name)
            close("weight", a.weight, b.weight)
            same("wings", len(a.wings), len(b.wings))
            same("panels", a.num_panels, b.num_panels)
            for w, v in zip(a.wings, b.wings):
                for nm in ("name", "symmetric", "num_chordwise_panels", "num_spanwise_panels", "chordwise_spacing", "num_panels"):
                    same("wing " + nm, getattr(w, nm), getattr(v, nm))
                close("wing plane", w.unit_normal_vector, v.unit_normal_vector)
                close("wing direction", w.unit_chordwise_vector, v.unit_chordwise_vector)
                same("cross sections", len(w.wing_cross_sections), len(v.wing_cross_sections))
                for c, d in zip(w.wing_cross_sections, v.wing_cross_sections):
                    for nm in ("control_surface_type", "num_spanwise_panels", "spanwise_spacing"):
                        same("section " + nm, getattr(c, nm), getattr(d, nm))
                    close("section", [c.chord, c.control_surface_hinge_point, c.control_surface_deflection], [d.chord, d.control_surface_hinge_point, d.control_surface_deflection])
                    close("section plane", c.unit_normal_vector, d.unit_normal_vector)
                    same("airfoil", c.airfoil.name, d.airfoil.name)
                    close("airfoil outline", c.airfoil.coordinates, d.airfoil.coordinates)
    if case["static"]:
        for sp in pr.steady_problems:
            for a, b in zip(sp.airplanes, A):
                close("static reference", a.xyz_ref, b.xyz_ref)
                for (w, i, j, p), (v, i2, j2, q) in zip(panels_of(a), panels_of(b)):
                    close("static corners", [p.front_left_vertex, p.back_right_vertex], [q.front_left_vertex, q.back_right_vertex], scale=1.0)
    return COUNT[0]
