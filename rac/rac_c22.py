"""Streamlines."""
from lib import *


def cases(tier, seed):
    n = 4 if tier == "quick" else 20
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("ring", "horseshoe", "unsteady")]


def run(case):
    COUNT[0] = 0
    r = rng("c22", case["kind"], case["seed"])
    if case["kind"] == "unsteady":
        T = int(r.integers(1, 4))
        s, pr, inf = unsteady(r, steps=T, na=int(r.integers(1, 3)), nw=1, maxspan=2, nchord=1, streamlines=True)
        A = pr.steady_problems[-1].airplanes
        vel = lambda p: unsteady_velocity(p, s, pr, T - 1)
    else:
        A = airplanes(r, maxspan=2)
        o = op(r)
        s = steady(case["kind"], A, o)
        vel = lambda p: steady_velocity(p, case["kind"], A, o)
    seeds = [0.5 * (p.back_left_vertex + p.back_right_vertex) for k, a, w, i, j, p in all_panels(A) if i == w.panels.shape[0] - 1]
    close("one seed per trailing panel", s.streamline_points[0], seeds)

    def verify(n, dt):
        P = s.streamline_points
        same("steps", P.shape, (n + 1, len(seeds), 3))
        close("seeds", P[0], seeds)
        for k in range(n):
            close("displacement", P[k + 1] - P[k], vel(P[k]) * dt, tol=1e-7)

    verify(25, 0.02)
    n, dt = int(r.integers(1, 6)), float(r.uniform(0.005, 0.1))
    ps.functions.calculate_streamlines(s, num_steps=n, delta_time=dt)
    verify(n, dt)
    return COUNT[0]
