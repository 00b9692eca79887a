"""Wing meshes against the surface the sections define."""
from lib import *


def cases(tier, seed):
    n = 24 if tier == "quick" else 120
    return [dict(seed=seed * 1000 + i) for i in range(n)]


def spacing(kind, n):
    if kind == "uniform":
        return np.array([k / n for k in range(n + 1)])
    return np.array([0.5 - 0.5 * math.cos(math.pi * k / n) for k in range(n + 1)])


def turned(v, axis, angle):
    """Rodrigues"""
    return v * math.cos(angle) + np.cross(axis, v) * math.sin(angle) + axis * np.dot(axis, v) * (1 - math.cos(angle))


def placed(w, c, af, at):
    """placed mean camber line of a section at fractions of its arc length"""
    lo = int(np.argmin(af.coordinates[:, 0]))
    up, low = af.coordinates[: lo + 1][::-1], af.coordinates[lo:]
    m = 0.5 * (up + low)
    d = np.concatenate([[0], np.cumsum(np.hypot(*(m[1:] - m[:-1]).T))])
    d = d / d[-1]
    back = turned(np.asarray(w.unit_chordwise_vector, float), np.asarray(c.unit_normal_vector, float), deg(c.twist))
    up_ = np.cross(back, c.unit_normal_vector)
    le = np.array([w.x_le + c.x_le, w.y_le + c.y_le, w.z_le + c.z_le])
    x, y = np.interp(at, d, m[:, 0]), np.interp(at, d, m[:, 1])
    return le + c.chord * (np.outer(x, back) + np.outer(y, up_))


def half(w, sgn):
    out = []
    cw = spacing(w.chordwise_spacing, w.num_chordwise_panels)
    for a, b in zip(w.wing_cross_sections, w.wing_cross_sections[1:]):
        d = a.control_surface_deflection * (sgn if a.control_surface_type == "asymmetric" else 1)
        P = placed(w, a, a.airfoil.add_control_surface(d, a.control_surface_hinge_point), cw)
        Q = placed(w, b, b.airfoil.add_control_surface(d, a.control_surface_hinge_point), cw)
        sw = spacing(a.spanwise_spacing, a.num_spanwise_panels)
        out.append(P[:, None, :] + sw[None, :, None] * (Q - P)[:, None, :])
    return out


def verify(w):
    nrm = np.asarray(w.unit_normal_vector, float)
    le = np.array([w.x_le, w.y_le, w.z_le])
    M = w.num_chordwise_panels
    blocks = []  # grids left to right
    right = half(w, 1)
    if w.symmetric:
        for g in half(w, -1)[::-1]:
            g = g[:, ::-1, :]
            blocks.append(g - 2 * ((g - le) @ nrm)[..., None] * nrm)
    blocks += right
    N = sum(g.shape[1] - 1 for g in blocks)
    same("grid", w.panels.shape, (M, N))
    same("spanwise panels", w.num_spanwise_panels, N)
    same("panel count", w.num_panels, M * N)
    sc = max(float(np.max(np.abs(g - le))) for g in blocks)
    j = 0
    for g in blocks:
        for k in range(g.shape[1] - 1):
            for i in range(M):
                p = w.panels[i, j]
                close("corners", [p.front_left_vertex, p.front_right_vertex, p.back_left_vertex, p.back_right_vertex],
                      [g[i, k], g[i, k + 1], g[i + 1, k], g[i + 1, k + 1]], scale=sc, tol=1e-9, msg="panel %d,%d" % (i, j))
                same("position", (p.local_chordwise_position, p.local_spanwise_position), (i, j))
                same("markers", (bool(p.is_leading_edge), bool(p.is_trailing_edge), bool(p.is_left_edge), bool(p.is_right_edge)),
                     (i == 0, i == M - 1, j == 0, j == N - 1))
                if i:
                    q = w.panels[i - 1, j]
                    true("shared corners", np.array_equal(p.front_left_vertex, q.back_left_vertex) and np.array_equal(p.front_right_vertex, q.back_right_vertex))
                if k:
                    q = w.panels[i, j - 1]
                    true("shared corners", np.array_equal(p.front_left_vertex, q.front_right_vertex) and np.array_equal(p.back_left_vertex, q.back_right_vertex))
            j += 1


def run(case):
    COUNT[0] = 0
    r = rng("c07", case["seed"])
    kind = int(r.integers(4))
    if kind == 0:
        w = wing(r, controls=True, nsec=int(r.integers(2, 5)), maxspan=4, nchord=int(r.integers(1, 6)))
    elif kind == 1:
        w = wing(r, controls=True, vertical=True, maxspan=4, nchord=int(r.integers(1, 6)))
    else:
        # a general orthogonal pair of plane and chordwise direction; sections turned about the chordwise direction
        import itertools
        ax = list(itertools.permutations(range(3), 2))[r.integers(6)]
        n, c = np.eye(3)[ax[0]] * (1, -1)[r.integers(2)], np.eye(3)[ax[1]] * (1, -1)[r.integers(2)]
        up = np.cross(c, n)
        secs = []
        pos = np.zeros(3)
        for k in range(int(r.integers(2, 5))):
            t = 0.0 if k == 0 else float(r.uniform(-0.6, 0.6))
            secs.append(section(r, *[float(x) for x in pos], float(r.uniform(0.5, 2)), r.integers(1, 5), controls=True,
                                normal=n if k == 0 else n * math.cos(t) + up * math.sin(t)))
            pos = pos + c * r.uniform(-0.5, 0.5) + n * r.uniform(0.5, 1.5) + up * r.uniform(-0.4, 0.4)
        w = ps.geometry.Wing(wing_cross_sections=secs, symmetric=bool(r.integers(2)), unit_normal_vector=n, unit_chordwise_vector=c,
                             num_chordwise_panels=int(r.integers(1, 6)), chordwise_spacing=("cosine", "uniform")[r.integers(2)],
                             x_le=float(r.uniform(-3, 3)), y_le=float(r.uniform(-3, 3)), z_le=float(r.uniform(-3, 3)))
    verify(w)
    return COUNT[0]
