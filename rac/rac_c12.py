"""Oscillations at every step, through the public movement classes."""
from lib import *


def cases(tier, seed):
    n = 12 if tier == "quick" else 60
    return [dict(seed=seed * 1000 + i) for i in range(n)]


def wave(kind, ph, fn=None):
    if kind == "sine":
        return np.sin(ph)
    if kind == "uniform":
        # triangle: zero at phase zero and rising, period 2 pi, amplitude one
        x = np.mod(ph / (2 * np.pi) + 0.25, 1.0)
        return 1 - 4 * np.abs(x - 0.5)
    return fn(ph)


def want(base, amp, per, kind, n, dt, fn=None):
    if amp == 0 or per == 0:
        return np.full(n, float(base))
    return base + amp * wave(kind, 2 * np.pi * np.arange(n) * dt / per, fn)


def pick(r):
    z = r.integers(6)
    amp = 0.0 if z == 0 else float(r.uniform(-0.6, 0.6))
    per = 0.0 if z == 1 else float(r.uniform(0.1, 3.0))
    return amp, per, ("sine", "uniform")[r.integers(2)]


def run(case):
    COUNT[0] = 0
    r = rng("c12", case["seed"])
    n = int(r.integers(1, 14))
    dt = float(r.uniform(0.01, 0.4))
    MV = ps.movement
    base, (amp, per, kind) = float(r.uniform(-2, 2)), pick(r)
    f = lambda x: np.cos(3 * x) + 0.3 * x
    close("sine", MV.oscillating_sinspace(amp, per, base, n, dt), want(base, amp, per, "sine", n, dt), scale=1.0)
    close("triangle", MV.oscillating_linspace(amp, per, base, n, dt), want(base, amp, per, "uniform", n, dt), scale=1.0, tol=1e-8)
    close("custom", MV.oscillating_customspace(amp, per, base, n, dt, f), want(base, amp, per, "custom", n, dt, f), scale=1.0, tol=1e-8)
    # operating point
    o = op(r)
    a_, p_, k_ = pick(r)
    ops = MV.OperatingPointMovement(base_operating_point=o, velocity_amplitude=a_, velocity_period=p_, velocity_spacing=k_).generate_operating_points(num_steps=n, delta_time=dt)
    close("speed", [x.velocity for x in ops], want(o.velocity, a_, p_, k_, n, dt), scale=1.0, tol=1e-8)
    # airplane and wing positions
    A = airplane(r, nw=2, maxspan=1, nchord=1)
    wm, specs = [], []
    for w in A.wings:
        d, q = {}, {}
        for nm in ("x_le", "y_le", "z_le"):
            a_, p_, k_ = pick(r)
            d[nm + "_amplitude"], d[nm + "_period"], d[nm + "_spacing"] = a_, p_, k_
            q[nm] = want(getattr(w, nm), a_, p_, k_, n, dt)
        specs.append(q)
        secs, sq = [], []
        for ci, cs in enumerate(w.wing_cross_sections):
            a_, p_, k_ = float(r.uniform(-9, 9)), float(r.uniform(0.1, 2)), ("sine", "uniform", "custom")[r.integers(3)]
            secs.append(MV.WingCrossSectionMovement(base_wing_cross_section=cs, pitching_amplitude=a_, pitching_period=p_, pitching_spacing=k_, custom_pitch_function=f))
            sq.append(want(cs.twist, a_, p_, k_, n, dt, f))
        q["twist"] = sq
        wm.append(MV.WingMovement(base_wing=w, wing_cross_sections_movements=secs, **d))
    d, q = {}, {}
    for nm in ("x_ref", "y_ref", "z_ref"):
        a_, p_, k_ = pick(r)
        d[nm + "_amplitude"], d[nm + "_period"], d[nm + "_spacing"] = a_, p_, k_
        q[nm] = want(getattr(A, nm), a_, p_, k_, n, dt)
    am = MV.AirplaneMovement(base_airplane=A, wing_movements=wm, **d)
    out = am.generate_airplanes(num_steps=n, delta_time=dt)
    same("snapshots", len(out), n)
    for nm in q:
        close(nm, [getattr(x, nm) for x in out], q[nm], scale=1.0, tol=1e-8)
    close("reference point", [x.xyz_ref for x in out], np.stack([q["x_ref"], q["y_ref"], q["z_ref"]], 1), scale=1.0, tol=1e-8)
    for wi, sp in enumerate(specs):
        for nm in ("x_le", "y_le", "z_le"):
            close(nm, [getattr(x.wings[wi], nm) for x in out], sp[nm], scale=1.0, tol=1e-8)
        close("leading edge", [x.wings[wi].leading_edge for x in out], np.stack([sp["x_le"], sp["y_le"], sp["z_le"]], 1), scale=1.0, tol=1e-8)
        for ci, tw in enumerate(sp["twist"]):
            close("twist", [x.wings[wi].wing_cross_sections[ci].twist for x in out], tw, scale=10.0, tol=1e-8)
    # the longest period
    per = [0.0]
    for w_ in wm:
        per += [w_.x_le_period, w_.y_le_period, w_.z_le_period] + [c.pitching_period for c in w_.wing_cross_section_movements]
    per += [am.x_ref_period, am.y_ref_period, am.z_ref_period]
    close("longest period", am.get_max_period(), max(per))
    # unknown waveforms
    for build in (lambda: MV.OperatingPointMovement(base_operating_point=o, velocity_spacing="saw").generate_operating_points(num_steps=2, delta_time=0.1),
                  lambda: MV.AirplaneMovement(base_airplane=A, wing_movements=wm, **{("x_ref", "y_ref", "z_ref")[r.integers(3)] + "_spacing": "Sine"}).generate_airplanes(2, 0.1),
                  lambda: MV.WingMovement(base_wing=A.wings[0], wing_cross_sections_movements=wm[0].wing_cross_section_movements, **{("x_le", "y_le", "z_le")[r.integers(3)] + "_spacing": ""}).generate_wings(2, 0.1),
                  lambda: MV.WingMovement(base_wing=A.wings[0], wing_cross_sections_movements=[MV.WingCrossSectionMovement(base_wing_cross_section=c, **{("sweeping", "pitching", "heaving")[r.integers(3)] + "_spacing": "cosine"}) for c in A.wings[0].wing_cross_sections]).generate_wings(2, 0.1)):
        rejected("unknown waveform", build)
    return COUNT[0]
