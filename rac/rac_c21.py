"""Scaling of speed and density."""
from lib import *


def cases(tier, seed):
    n = 6 if tier == "quick" else 30
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("ring", "horseshoe")]


def results(kind, A, o):
    steady(kind, A, o)
    g, f, m = [], [], []
    for k, a, w, i, j, p in all_panels(A):
        g.append([v.strength for v in (p.ring_vortex, p.horseshoe_vortex) if v is not None])
        f.append(p.near_field_force_geometry_axes)
        m.append(p.near_field_moment_geometry_axes)
    F = np.array([a.total_near_field_force_wind_axes for a in A])
    M = np.array([a.total_near_field_moment_wind_axes for a in A])
    CF = np.array([a.total_near_field_force_coefficients_wind_axes for a in A])
    CM = np.array([a.total_near_field_moment_coefficients_wind_axes for a in A])
    return np.concatenate([np.ravel(x) for x in g]), np.array(f), np.array(m), F, M, CF, CM


def run(case):
    COUNT[0] = 0
    r = rng("c21", case["kind"], case["seed"])
    A = airplanes(r, maxspan=2, refs=bool(r.integers(2)))
    o = op(r)
    base = results(case["kind"], copy.deepcopy(A), o)
    k = float(10 ** r.uniform(-2, 2))
    d = float(10 ** r.uniform(-2, 2))
    for what, q, sg, sf in (("speed", op(r, density=o.density, velocity=o.velocity * k, alpha=o.alpha, beta=o.beta, nu=o.nu), k, k * k),
                            ("density", op(r, density=o.density * d, velocity=o.velocity, alpha=o.alpha, beta=o.beta, nu=o.nu), 1, d),
                            ("both", op(r, density=o.density * d, velocity=o.velocity * k, alpha=o.alpha, beta=o.beta, nu=o.nu), k, k * k * d)):
        x = results(case["kind"], copy.deepcopy(A), q)
        close("circulations scale with " + what, x[0], base[0] * sg, tol=1e-7)
        for nm, i in (("panel forces", 1), ("panel moments", 2), ("forces", 3), ("moments", 4)):
            close("%s scale with %s" % (nm, what), x[i], base[i] * sf, tol=1e-7)
        close("force coefficients do not depend on " + what, x[5], base[5], tol=1e-7)
        close("moment coefficients do not depend on " + what, x[6], base[6], tol=1e-7)
    return COUNT[0]
