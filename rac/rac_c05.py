"""Unsteady loads at every step."""
from lib import *
from rac_c04 import legs_of


def cases(tier, seed):
    n = 7 if tier == "quick" else 24
    return [dict(seed=seed * 1000 + i, static=bool(i % 3 == 0), prescribed=bool(i % 2)) for i in range(n)]


def run(case):
    COUNT[0] = 0
    r = rng("c05", case["seed"])
    s, pr, inf = unsteady(r, static=case["static"], prescribed=case["prescribed"], steps=3, controls=True)
    dt = inf["dt"]
    for k in range(3):
        sp = pr.steady_problems[k]
        o = sp.operating_point
        rows = list(all_panels(sp.airplanes))
        last = list(all_panels(pr.steady_problems[k - 1].airplanes)) if k else None
        for n, (_, a, w, i, j, pn) in enumerate(rows):
            ref = np.array([a.x_ref, a.y_ref, a.z_ref])
            segs = legs_of(w, pn, i, j)
            C = np.array([0.5 * (x[1] + x[2]) for x in segs])
            v = unsteady_velocity(C, s, pr, k)
            if k:
                lp = last[n]
                C0 = np.array([0.5 * (x[1] + x[2]) for x in legs_of(lp[2], lp[5], lp[3], lp[4])])
                v = v - (C - C0) / dt
            F, Mo = np.zeros(3), np.zeros(3)
            for q, (sh, p0, p1, g) in enumerate(segs):
                f = o.density * sh * g * np.cross(v[q], p1 - p0)
                F += f
                Mo += np.cross(C[q] - ref, f)
            un, ar = normal_area(pn)
            g0 = last[n][5].ring_vortex.strength if k else 0.0
            f = o.density * (pn.ring_vortex.strength - g0) * ar * un / dt
            F += f
            Mo += np.cross(collocation(pn) - ref, f)
            sc = max(1e-6, np.abs(F).max(), np.abs(f).max())
            close("panel force", pn.near_field_force_geometry_axes, F, tol=1e-6, scale=sc, msg="step %d panel %d,%d" % (k, i, j))
            close("panel moment", pn.near_field_moment_geometry_axes, Mo, tol=1e-6, scale=max(sc, np.abs(Mo).max()), msg="step %d panel %d,%d" % (k, i, j))
    return COUNT[0]
