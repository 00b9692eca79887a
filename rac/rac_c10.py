"""Wake circulation and ages at every step."""
from lib import *


def cases(tier, seed):
    n = 8 if tier == "quick" else 24
    return [dict(seed=seed * 1000 + i, static=bool(i % 3 == 0), prescribed=bool(i % 2)) for i in range(n)]


def run(case):
    COUNT[0] = 0
    r = rng("c10", case["seed"])
    T = 5
    s, pr, inf = unsteady(r, static=case["static"], prescribed=case["prescribed"], steps=T, only_final=bool(r.integers(2)), streamlines=True)
    dt = inf["dt"]
    # circulation of the trailing edge row at every step
    def te(k):
        return [[[w.panels[-1, j].ring_vortex.strength for j in range(w.panels.shape[1])] for w in a.wings] for a in pr.steady_problems[k].airplanes]

    for k in range(T):
        want, ages = [], []
        A = pr.steady_problems[k].airplanes
        for ai, a in enumerate(A):
            for wi, w in enumerate(a.wings):
                for row in range(k):
                    want += te(k - 1 - row)[ai][wi]
                    ages += [(row + 0.0) * dt] * w.panels.shape[1]
        close("wake circulations", s.wake_ring_vortex_strengths_list[k], np.array(want), msg="step %d" % k, scale=1.0)
        close("wake ages", s.wake_ring_vortex_ages_list[k], np.array(ages), msg="step %d" % k, scale=1.0)
        same("number of wake rings", int(s.num_wake_ring_vortices_list[k]), len(want))
        corners = []
        for ai, a in enumerate(A):
            for w in a.wings:
                same("wake rows", w.wake_ring_vortices.shape, (k, w.panels.shape[1]))
                if k:
                    same("wake vertex rows", w.wake_ring_vortex_vertices.shape, (k + 1, w.panels.shape[1] + 1, 3))
                    V = w.wake_ring_vortex_vertices
                    for i in range(k):
                        for j in range(w.panels.shape[1]):
                            corners.append([V[i, j], V[i, j + 1], V[i + 1, j], V[i + 1, j + 1]])
        if k:
            c = np.array(corners)
            close("wake rings seen by the flow solver", [s.wake_ring_vortex_front_left_vertices_list[k], s.wake_ring_vortex_front_right_vertices_list[k],
                                                         s.wake_ring_vortex_back_left_vertices_list[k], s.wake_ring_vortex_back_right_vertices_list[k]],
                  np.moveaxis(c, 1, 0), msg="step %d" % k)
    # the rings stored on the last step's wings
    for ai, a in enumerate(pr.steady_problems[T - 1].airplanes):
        for wi, w in enumerate(a.wings):
            for i in range(T - 1):
                for j in range(w.panels.shape[1]):
                    g = w.wake_ring_vortices[i, j]
                    close("stored ring", [g.strength, g.age], [te(T - 2 - i)[ai][wi][j], i * dt], scale=1.0)
                    for leg in (g.front_leg, g.left_leg, g.back_leg, g.right_leg):
                        close("stored leg strength", leg.strength, g.strength)
    return COUNT[0]
