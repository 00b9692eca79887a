"""Wake geometry at every step."""
from lib import *


def cases(tier, seed):
    n = 8 if tier == "quick" else 24
    return [dict(seed=seed * 1000 + i, static=bool(i % 3 == 0), prescribed=bool(i % 2)) for i in range(n)]


def run(case):
    COUNT[0] = 0
    r = rng("c11", case["seed"])
    T = 4
    s, pr, inf = unsteady(r, static=case["static"], prescribed=case["prescribed"], steps=T)
    dt = inf["dt"]
    for k in range(1, T):
        o = pr.steady_problems[k - 1].operating_point
        for ai, a in enumerate(pr.steady_problems[k].airplanes):
            for wi, w in enumerate(a.wings):
                V = w.wake_ring_vortex_vertices
                N = w.panels.shape[1]
                same("rows", V.shape, (k + 1, N + 1, 3))
                row = [w.panels[-1, j].ring_vortex.back_left_vertex for j in range(N)] + [w.panels[-1, N - 1].ring_vortex.back_right_vertex]
                close("first row at the trailing rings", V[0], row)
                old = V[0] if k == 1 else pr.steady_problems[k - 1].airplanes[ai].wings[wi].wake_ring_vortex_vertices
                pts = np.reshape(old, (-1, 3))
                if case["prescribed"]:
                    v = np.zeros_like(pts) + freestream(o)
                else:
                    v = unsteady_velocity(pts, s, pr, k - 1)
                close("convected rows", np.reshape(V[1:], (-1, 3)), pts + v * dt, tol=1e-8, msg="step %d" % k)
                for i in range(k):
                    for j in range(N):
                        g = w.wake_ring_vortices[i, j]
                        if k == T - 1:
                            close("ring corners", [g.front_left_vertex, g.front_right_vertex, g.back_left_vertex, g.back_right_vertex],
                                  [V[i, j], V[i, j + 1], V[i + 1, j], V[i + 1, j + 1]])
                            close("leg ends", [g.front_leg.origin, g.front_leg.termination, g.left_leg.origin, g.left_leg.termination,
                                               g.back_leg.origin, g.back_leg.termination, g.right_leg.origin, g.right_leg.termination],
                                  [V[i, j + 1], V[i, j], V[i, j], V[i + 1, j], V[i + 1, j], V[i + 1, j + 1], V[i + 1, j + 1], V[i, j + 1]])
    return COUNT[0]
