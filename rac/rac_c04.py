"""Steady Kutta-Joukowski loads."""
from lib import *


def cases(tier, seed):
    n = 5 if tier == "quick" else 20
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("ring", "horseshoe")]


def legs_of(w, pn, i, j):
    """segments whose force the panel carries: (share, from, to, circulation)"""
    M, N = w.panels.shape
    v = pn.ring_vortex
    g = v.strength
    fl, fr, bl, br = v.front_left_vertex, v.front_right_vertex, v.back_left_vertex, v.back_right_vertex
    front = g - (w.panels[i - 1, j].ring_vortex.strength if i else 0.0)
    right = g - w.panels[i, j + 1].ring_vortex.strength if j + 1 < N else g
    left = g - w.panels[i, j - 1].ring_vortex.strength if j else g
    return [(1.0, fr, fl, front), (0.5 if j + 1 < N else 1.0, br, fr, right), (0.5 if j else 1.0, fl, bl, left)]


def run(case):
    COUNT[0] = 0
    r = rng("c04", case["seed"])
    A = airplanes(r, controls=False)
    o = op(r)
    s = steady(case["kind"], A, o)
    for a in A:
        ref = np.array([a.x_ref, a.y_ref, a.z_ref])
        for w in a.wings:
            tot = np.zeros(3)
            once = np.zeros(3)
            M, N = w.panels.shape
            for i in range(M):
                for j in range(N):
                    pn = w.panels[i, j]
                    F, Mo = np.zeros(3), np.zeros(3)
                    if case["kind"] == "horseshoe":
                        fl, fr = quarter(pn)
                        segs = [(1.0, fr, fl, pn.horseshoe_vortex.strength)]
                    else:
                        segs = legs_of(w, pn, i, j)
                    for q, (sh, p0, p1, g) in enumerate(segs):
                        c = 0.5 * (p0 + p1)
                        v = s.calculate_solution_velocity(points=c[None, :])[0]
                        f = o.density * g * np.cross(v, p1 - p0)
                        F += sh * f
                        Mo += sh * np.cross(c - ref, f)
                        if q != 2 or j == 0:  # every segment once: left legs only at the left edge
                            once += f
                    close("panel force", pn.near_field_force_geometry_axes, F, tol=1e-7, scale=max(1e-6, np.abs(F).max()), msg="%d,%d" % (i, j))
                    close("panel moment", pn.near_field_moment_geometry_axes, Mo, tol=1e-7, scale=max(1e-6, np.abs(Mo).max(), np.abs(F).max()), msg="%d,%d" % (i, j))
                    tot = tot + pn.near_field_force_geometry_axes
            close("each segment once", tot, once, tol=1e-7, scale=max(1e-6, np.abs(once).max()))
    return COUNT[0]
