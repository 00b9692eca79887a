"""Totals and coefficients against the panel loads, steady and unsteady."""
from lib import *


def cases(tier, seed):
    n = 5 if tier == "quick" else 20
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("ring", "horseshoe", "unsteady")]


def verify(A, o):
    R = wind_rotation(o).T
    q = 0.5 * o.density * o.velocity ** 2
    for a in A:
        F, Mo = np.zeros(3), np.zeros(3)
        for w, i, j, pn in panels_of(a):
            f, m = pn.near_field_force_geometry_axes, pn.near_field_moment_geometry_axes
            F = F + f
            Mo = Mo + m
            fw = R @ f
            close("panel force in wind axes", pn.near_field_force_wind_axes, fw)
            close("panel moment in wind axes", pn.near_field_moment_wind_axes, R @ m)
            ar = normal_area(pn)[1]
            close("panel coefficients", [pn.induced_drag_coefficient, pn.side_force_coefficient, pn.lift_coefficient], np.array([-fw[0], fw[1], -fw[2]]) / q / ar)
        F, Mo = R @ F, R @ Mo
        close("total force", a.total_near_field_force_wind_axes, F)
        close("total moment", a.total_near_field_moment_wind_axes, Mo)
        close("force coefficients", a.total_near_field_force_coefficients_wind_axes, np.array([-F[0], F[1], -F[2]]) / q / a.s_ref)
        close("moment coefficients", a.total_near_field_moment_coefficients_wind_axes, Mo / q / a.s_ref / np.array([a.b_ref, a.c_ref, a.b_ref]))


def run(case):
    COUNT[0] = 0
    r = rng("c06", case["seed"])
    if case["kind"] == "unsteady":
        s, pr, inf = unsteady(r, steps=3, na=2)
        for k in range(3):
            verify(pr.steady_problems[k].airplanes, pr.steady_problems[k].operating_point)
    else:
        A = airplanes(r, na=2, refs=bool(r.integers(2)))
        o = op(r)
        steady(case["kind"], A, o)
        verify(A, o)
    return COUNT[0]
