"""Printed results, drawn surfaces, plotted histories."""
from lib import *

out = ps.output


def cases(tier, seed):
    n = 4 if tier == "quick" else 20
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("ring", "horseshoe", "static", "periodic")]


LABELS = [("Induced Drag", 0, 0), ("Side Force", 0, 1), ("Lift", 0, 2), ("Rolling Moment", 1, 0), ("Pitching Moment", 1, 1), ("Yawing Moment", 1, 2),
          ("CDi", 2, 0), ("CY", 2, 1), ("CL", 2, 2), ("Cl", 3, 0), ("Cm", 3, 1), ("Cn", 3, 2)]


def printed(text, names):
    """[{label: value}] per airplane heading"""
    blocks = []
    for line in text.splitlines():
        st = line.strip()
        if not st:
            continue
        if not line.startswith("\t"):
            true("heading", st.endswith(":"), st)
            blocks.append((st, {}))
            continue
        lab, _, val = st.partition(":")
        val = val.strip()
        if val:
            blocks[-1][1].setdefault(lab.strip(), []).append(float(val.split()[0]))
    same("airplanes printed", len(blocks), len(names))
    for (h, _), n in zip(blocks, names):
        true("name printed", n in h and not any(m in h for m in names if m != n and n not in m), "%s for %s" % (h, n))
    return [b for _, b in blocks]


class Plotter:
    def __init__(self, *a, **k):
        self.frames = [[]]
        Plotter.last = self

    def add_mesh(self, mesh, **k):
        self.frames[-1].append((mesh, k))

    def clear(self):
        self.frames.append([])

    def screenshot(self, *a, **k):
        return np.zeros((2, 2, 4), dtype=np.uint8)

    def __getattr__(self, nm):
        return lambda *a, **k: None


class Dummy:
    def __getattr__(self, nm):
        return self

    def __call__(self, *a, **k):
        return self


class recorded:
    def __enter__(self):
        self.old = (out.pv.Plotter, out.pv.close_all, out.time.sleep, out.webp)
        out.pv.Plotter, out.pv.close_all, out.time.sleep, out.webp = Plotter, lambda *a, **k: None, lambda *a: None, Dummy()

    def __exit__(self, *a):
        out.pv.Plotter, out.pv.close_all, out.time.sleep, out.webp = self.old


def faces(mesh):
    f = np.asarray(mesh.faces).reshape(-1)
    res = []
    i = 0
    while i < len(f):
        k = int(f[i])
        res.append([np.asarray(mesh.points[x]) for x in f[i + 1:i + 1 + k]])
        i += k + 1
    return res


def quads(what, mesh, want):
    F = faces(mesh)
    same(what + " count", len(F), len(want))
    for q, w in zip(F, want):
        same(what + " corners", len(q), 4)
        q, w = np.array(q), np.array(w)
        sc = max(1e-9, float(np.max(np.abs(w))))
        ok = any(np.allclose(np.roll(x, k, axis=0), w, atol=2e-6 * sc, rtol=0) for x in (q, q[::-1]) for k in range(4))
        true(what, ok, "corners %s, expected %s in circumferential order" % (q.tolist(), w.tolist()))


def around(p):
    return [p.front_left_vertex, p.front_right_vertex, p.back_right_vertex, p.back_left_vertex]


def frame(fr, A, want_scalars, s=None, step=None, wake=False):
    """one drawn frame: panels, scalars, wake"""
    meshes = [(m, k) for m, k in fr if getattr(m, "faces", None) is not None and len(faces(m)) > 0 and len(faces(m)[0]) == 4]
    P = [p for k, a, w, i, j, p in all_panels(A)]
    pan = [x for x in meshes if x[1].get("scalars") is not None] if want_scalars is not None else [x for x in meshes if x[0].n_cells == len(P)]
    true("panels drawn once", len(pan) >= 1)
    quads("panel quadrilateral", pan[-1][0], [around(p) for p in P])
    if want_scalars is not None:
        same("surfaces with scalars", len(pan), 1)
        close("coloured scalar", pan[0][1]["scalars"], [getattr(p, want_scalars) for p in P])
    if wake and step:
        rest = [x for x in meshes if x is not pan[-1]]
        same("wake surfaces", len(rest), 1)
        W = []
        for n in range(s.num_wake_ring_vortices_list[step]):
            W.append([s.wake_ring_vortex_front_left_vertices_list[step][n], s.wake_ring_vortex_front_right_vertices_list[step][n],
                      s.wake_ring_vortex_back_right_vertices_list[step][n], s.wake_ring_vortex_back_left_vertices_list[step][n]])
        quads("wake quadrilateral", rest[0][0], W)


SC = [(None, None), ("induced drag", "induced_drag_coefficient"), ("side force", "side_force_coefficient"), ("lift", "lift_coefficient")]


def run(case):
    COUNT[0] = 0
    r = rng("c23", case["kind"], case["seed"])
    na = int(r.integers(1, 4))
    ATTR = ("total_near_field_force_wind_axes", "total_near_field_moment_wind_axes", "total_near_field_force_coefficients_wind_axes", "total_near_field_moment_coefficients_wind_axes")
    if case["kind"] in ("ring", "horseshoe"):
        A = airplanes(r, na=na, maxspan=2)
        s = steady(case["kind"], A, op(r))
        # results of recognisable sizes
        for a in A:
            for t in ATTR:
                setattr(a, t, r.uniform(-900, 900, 3))
        _, text = quiet(out.print_steady_results, s)
        want = [[getattr(a, t) for t in ATTR] for a in A]
        names = [a.name for a in A]
        with recorded():
            for sc, attr in SC:
                quiet(out.draw, s, scalar_type=sc, show_streamlines=bool(r.integers(2)) and s.streamline_points is not None, testing=True)
                frame(Plotter.last.frames[0], A, attr)
    else:
        T = int(r.integers(2, 5))
        only = bool(r.integers(2))
        s, pr, inf = unsteady(r, static=case["kind"] == "static", na=na, nw=1, steps=T, maxspan=2, nchord=1, only_final=only)
        pre = "final_" if case["kind"] == "static" else "final_mean_"
        KEYS = ("near_field_forces_wind_axes", "near_field_moments_wind_axes", "near_field_force_coefficients_wind_axes", "near_field_moment_coefficients_wind_axes")
        for p in ("final_", "final_mean_", "final_rms_"):
            for k in KEYS:
                if len(getattr(pr, p + k)):
                    setattr(pr, p + k, [r.uniform(-900, 900, 3) for _ in range(na)])
        _, text = quiet(out.print_unsteady_results, s)
        want = [[getattr(pr, pre + k)[i] for k in KEYS] for i in range(na)]
        names = [a.name for a in pr.steady_problems[0].airplanes]
        A = pr.steady_problems[-1].airplanes
        with recorded():
            for sc, attr in SC:
                wk = bool(r.integers(2))
                quiet(out.draw, s, scalar_type=sc, show_wake_vortices=wk, testing=True)
                frame(Plotter.last.frames[0], A, attr, s, T - 1, wk)
            if not only:
                sc, attr = SC[r.integers(4)]
                wk = bool(r.integers(2))
                quiet(out.animate, s, scalar_type=sc, show_wake_vortices=wk, testing=True)
                same("frames", len(Plotter.last.frames), T)
                for k in range(T):
                    frame(Plotter.last.frames[k], pr.steady_problems[k].airplanes, attr, s, k, wk)
        histories(s, pr, inf, names, ATTR)
    blocks = printed(text, names)
    for b, w in zip(blocks, want):
        for lab, i, j in LABELS:
            same("lines for " + lab, len(b.get(lab, [])), 1)
            close("printed " + lab, b[lab][0], w[i][j], tol=1.0, scale=0.00051)
    return COUNT[0]


def histories(s, pr, inf, names, ATTR):
    plt = out.plt
    plt.close("all")
    old = plt.Figure.show if hasattr(plt, "Figure") else None
    import matplotlib.figure

    old = matplotlib.figure.Figure.show
    matplotlib.figure.Figure.show = lambda *a, **k: None
    try:
        quiet(out.plot_results_versus_time, s, show=True, save=False)
        first = pr.first_results_step
        T = pr.num_steps
        titles = [("Forces", 0, ("Induced Drag", "Side Force", "Lift")), ("Force Coefficients", 2, ("Induced Drag", "Side Force", "Lift")),
                  ("Moments", 1, ("Roll", "Pitch", "Yaw")), ("Moment Coefficients", 3, ("Roll", "Pitch", "Yaw"))]
        axes = {}
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                axes[ax.get_title()] = ax
        for i, nm in enumerate(names):
            for t, a, labs in titles:
                key = "%s %s vs. Time" % (nm, t)
                if key not in axes:
                    raise Inconclusive("figures are titled differently")
                lines = {l.get_label(): l for l in axes[key].get_lines()}
                for j, lab in enumerate(labs):
                    true("history of " + lab, lab in lines)
                    close("history times", lines[lab].get_xdata(), [inf["dt"] * k for k in range(first, T)])
                    close("history of " + lab, lines[lab].get_ydata(), [getattr(pr.steady_problems[k].airplanes[i], ATTR[a])[j] for k in range(first, T)])
    finally:
        matplotlib.figure.Figure.show = old
        plt.close("all")
