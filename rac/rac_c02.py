"""Unsteady flow tangency at every step, from the circulations and the wake
stored by the run."""
from lib import *


def cases(tier, seed):
    n = 7 if tier == "quick" else 24
    return [dict(seed=seed * 1000 + i, static=bool(i % 3 == 0), prescribed=bool(i % 2)) for i in range(n)]


def run(case):
    COUNT[0] = 0
    r = rng("c02", case["seed"])
    s, pr, inf = unsteady(r, static=case["static"], prescribed=case["prescribed"], steps=4, only_final=bool(r.integers(2)), controls=True)
    for k in range(4):
        sp = pr.steady_problems[k]
        P, N = [], []
        for _, a, w, i, j, pn in all_panels(sp.airplanes):
            P.append(collocation(pn))
            N.append(normal_area(pn)[0])
        P, N = np.array(P), np.array(N)
        v = unsteady_velocity(P, s, pr, k)
        if k:
            L = np.array([collocation(pn) for *_, pn in all_panels(pr.steady_problems[k - 1].airplanes)])
            v = v - (P - L) / inf["dt"]
        close("tangency", np.sum(v * N, axis=1), np.zeros(len(P)), tol=1e-7, scale=sp.operating_point.velocity, msg="step %d" % k)
        for _, a, w, i, j, pn in all_panels(sp.airplanes):
            if i == 0 and j == 0:
                e = expected_rings(w, sp.operating_point, inf["dt"])
            g = pn.ring_vortex
            close("bound ring", [g.front_left_vertex, g.front_right_vertex, g.back_left_vertex, g.back_right_vertex], e[:, i, j], msg="step %d" % k)
    q = np.concatenate([P[:3], r.uniform(-2, 5, size=(5, 3))])
    close("solution velocity", s.calculate_solution_velocity(points=q), unsteady_velocity(q, s, pr, 3), tol=1e-7, scale=5.0)
    return COUNT[0]
