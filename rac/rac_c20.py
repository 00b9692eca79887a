"""Control surfaces and cosine spacing."""
from lib import *


def cases(tier, seed):
    n = 20 if tier == "quick" else 100
    return [dict(seed=seed * 1000 + i) for i in range(n)]


def mcl(P):
    le = int(np.argmin(P[:, 0]))
    return 0.5 * (P[: le + 1][::-1] + P[le:])


def run(case):
    COUNT[0] = 0
    r = rng("c20", case["seed"])
    nm = ("naca2412", "naca0012", "naca6409", "naca4415", "naca8318", "e63", "ag03")[r.integers(7)]
    try:
        f = Airfoil(name=nm, n_points_per_side=int(r.integers(15, 120)))
    except Exception:
        f = Airfoil(name="naca2412", n_points_per_side=30)
    P = np.array(f.coordinates)
    h = float(r.uniform(0.05, 0.95))
    d = float(r.choice([r.uniform(-90, 90), r.uniform(-20, 20), 90, -90, 0]))
    g = f.add_control_surface(deflection=d, hinge_point=h)
    true("original untouched", np.array_equal(P, f.coordinates))
    Q = g.coordinates
    same("number of points", Q.shape, P.shape)
    m = mcl(P)
    n = len(m)
    hinge = np.array([h, np.interp(h, m[:, 0], m[:, 1])])
    t = deg(-d)
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    up, lo = P[:n][::-1], P[n - 1:]
    gu, gl = Q[:n][::-1], Q[n - 1:]
    # outline points are paired with the camber point of the same index
    for k in range(n):
        behind = m[k, 0] > h
        wu = hinge + R @ (up[k] - hinge) if behind else up[k]
        wl = hinge + R @ (lo[k] - hinge) if behind else lo[k]
        close("upper outline", gu[k], wu, scale=1.0)
        if k:
            close("lower outline", gl[k], wl, scale=1.0)
    wm = np.array([hinge + R @ (x - hinge) if x[0] > h else x for x in m])
    close("camber line", g.mcl_coordinates, wm, scale=1.0)
    if d == 0:
        close("zero deflection", Q, P, scale=1.0)
    # cosine spacing
    a, b, n = float(r.uniform(-3, 3)), float(r.uniform(-3, 3)), int(r.integers(2, 60))
    c = ps.functions.cosspace(a, b, n)
    same("points", c.shape, (n,))
    close("ends", [c[0], c[-1]], [a, b], tol=1e-13, scale=1.0)
    true("monotonic", np.all((np.diff(c) if b >= a else -np.diff(c)) >= 0))
    close("cosine spacing", c, [0.5 * (a + b) - 0.5 * (b - a) * math.cos(math.pi * k / (n - 1)) for k in range(n)], scale=1.0)
    same("default endpoints", ps.functions.cosspace(0, 1, n)[0], 0.0)
    return COUNT[0]
