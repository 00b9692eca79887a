"""Flapping kinematics."""
from lib import *


def cases(tier, seed):
    n = 14 if tier == "quick" else 60
    return [dict(seed=seed * 1000 + i) for i in range(n)]


def run(case):
    COUNT[0] = 0
    r = rng("c14", case["seed"])
    w = wing(r, nsec=int(r.integers(2, 5)), symmetric=False, maxspan=1, nchord=1)
    secs = list(w.wing_cross_sections)
    # general base spacings: sweep and dihedral together, one inboard step, one vertical step
    pos = np.zeros(3)
    for k, c in enumerate(secs):
        if k:
            d = np.array([r.uniform(-0.8, 0.8), r.uniform(0.5, 1.5), r.uniform(-0.8, 0.8)])
            z = r.integers(6)
            if z == 0:
                d[1] = 0.0
            elif z == 1 and k > 1:
                d[1] = -0.3
            elif z == 2:
                d[0] = 0.0
            elif z == 3:
                d[2] = 0.0
            pos = pos + d
        c.x_le, c.y_le, c.z_le = (float(x) for x in pos)
        c.leading_edge = np.array(pos)
    n, dt = int(r.integers(2, 9)), float(r.uniform(0.02, 0.2))
    mv = []
    still = bool(r.integers(2))
    fn = lambda x: np.sin(x) + 0.4 * np.cos(2 * x)
    for k, c in enumerate(secs):
        d = dict()
        if k:
            for nm in ("sweeping", "heaving"):
                d[nm + "_amplitude"] = 0.0 if still else float(r.uniform(-25, 25))
                d[nm + "_period"] = float(r.uniform(0.1, 1.0))
                d[nm + "_spacing"] = ("sine", "uniform", "custom")[r.integers(3)]
        d["pitching_amplitude"] = 0.0 if still else float(r.uniform(-25, 25))
        d["pitching_period"] = float(r.uniform(0.1, 1.0))
        d["pitching_spacing"] = ("sine", "uniform")[r.integers(2)]
        mv.append(ps.movement.WingCrossSectionMovement(base_wing_cross_section=c, custom_sweep_function=fn, custom_heave_function=fn, **d))
    m = ps.movement.WingMovement(base_wing=w, wing_cross_sections_movements=mv)
    ws = m.generate_wings(num_steps=n, delta_time=dt)
    same("snapshots", len(ws), n)
    base = np.array([[c.x_le, c.y_le, c.z_le] for c in secs])
    P = np.array([[[c.x_le, c.y_le, c.z_le] for c in v.wing_cross_sections] for v in ws])
    close("leading edges", [[c.leading_edge for c in v.wing_cross_sections] for v in ws], P)
    close("root stays", P[:, 0], np.zeros((n, 3)), scale=1.0)
    D = np.linalg.norm(base[1:] - base[:-1], axis=1)
    close("distance of neighbours", np.linalg.norm(P[:, 1:] - P[:, :-1], axis=2), np.tile(D, (n, 1)), scale=1.0)
    from rac_c12 import want

    for k in range(1, len(secs)):
        d = base[k] - base[k - 1]
        S = math.degrees(math.atan2(d[2], math.hypot(d[0], d[1])))
        Hv = math.degrees(math.atan2(d[0], d[1]))
        if d[1] == 0:
            sw, he = np.full(n, S), np.full(n, Hv)
        else:
            q = mv[k]
            sw = want(S, q.sweeping_amplitude, q.sweeping_period, q.sweeping_spacing, n, dt, fn)
            he = want(Hv, q.heaving_amplitude, q.heaving_period, q.heaving_spacing, n, dt, fn)
        sw, he = np.radians(sw), np.radians(he)
        off = D[k - 1] * np.stack([np.cos(sw) * np.sin(he), np.cos(sw) * np.cos(he), np.sin(sw)], 1)
        close("position relative to the neighbour", P[:, k] - P[:, k - 1], off, scale=1.0, msg="section %d" % k)
    if still:
        close("base geometry", P, np.tile(base, (n, 1, 1)), scale=1.0)
        close("base twist", [[c.twist for c in v.wing_cross_sections] for v in ws], [[c.twist for c in secs]] * n, scale=1.0)
    elif all(q.sweeping_spacing != "custom" and q.heaving_spacing != "custom" for q in mv[1:]):
        close("base geometry at the start", P[0], base, scale=1.0)
    # a root that flaps is refused
    for nm in ("sweeping", "heaving"):
        bad = ps.movement.WingCrossSectionMovement(base_wing_cross_section=secs[0], **{nm + "_amplitude": 3.0, nm + "_period": 1.0})
        rejected("moving root", lambda: ps.movement.WingMovement(base_wing=w, wing_cross_sections_movements=[bad] + mv[1:]).generate_wings(2, 0.1))
    return COUNT[0]
