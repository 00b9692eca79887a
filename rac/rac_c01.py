"""Steady flow tangency on constructed airplanes."""
from lib import *


def cases(tier, seed):
    n = 6 if tier == "quick" else 24
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("ring", "horseshoe")]


def run(case):
    COUNT[0] = 0
    r = rng("c01", case["seed"])
    A = airplanes(r, controls=True)
    o = op(r)
    s = steady(case["kind"], A, o)
    pts, nrm = [], []
    for k, a, w, i, j, pn in all_panels(A):
        pts.append(collocation(pn))
        nrm.append(normal_area(pn)[0])
    pts, nrm = np.array(pts), np.array(nrm)
    v = s.calculate_solution_velocity(points=pts)
    close("tangency", np.sum(v * nrm, axis=1), np.zeros(len(pts)), tol=1e-8, scale=o.velocity)
    # the reported velocity is that of the vortices stored on the panels, here
    # evaluated with the documented Biot-Savart law
    far = r.uniform(-3, 6, size=(6, 3))
    q = np.concatenate([pts, far])
    close("velocity of the stored vortices", s.calculate_solution_velocity(points=q), steady_velocity(q, case["kind"], A, o), tol=1e-7, scale=o.velocity)
    for k, a, w, i, j, pn in all_panels(A):
        fl, fr = quarter(pn)
        if case["kind"] == "ring":
            v_ = pn.ring_vortex
            close("bound vortex", [v_.front_left_vertex, v_.front_right_vertex], [fl, fr])
            if i == w.panels.shape[0] - 1:
                close("trailing horseshoe strength", pn.horseshoe_vortex.strength, pn.ring_vortex.strength)
        else:
            v_ = pn.horseshoe_vortex.finite_leg
            close("bound vortex", [v_.termination, v_.origin], [fl, fr])
    return COUNT[0]
