"""Reference dimensions."""
from lib import *


def cases(tier, seed):
    n = 20 if tier == "quick" else 100
    return [dict(seed=seed * 1000 + i) for i in range(n)]


def run(case):
    COUNT[0] = 0
    r = rng("c18", case["seed"])
    ws = [wing(r, nsec=int(r.integers(2, 5)), maxspan=3, controls=True, vertical=bool(r.integers(4) == 0), name="w%d" % k, at=(4.0 * k, 0.0, 0.3 * k)) for k in range(int(r.integers(1, 4)))]
    if r.integers(2):
        # spans along another direction, swept leading edges running inboard too
        n, c = np.array([0.0, math.cos(0.5), math.sin(0.5)]), np.array([1.0, 0, 0])
        pos, secs = np.zeros(3), []
        for k in range(int(r.integers(2, 5))):
            secs.append(section(r, *[float(x) for x in pos], float(r.uniform(0.5, 2)), r.integers(1, 3), normal=n))
            pos = pos + c * r.uniform(-0.5, 0.5) + n * r.uniform(0.5, 1.5) + np.cross(c, n) * r.uniform(-0.4, 0.4)
        ws[0] = ps.geometry.Wing(wing_cross_sections=secs, symmetric=bool(r.integers(2)), unit_normal_vector=n, num_chordwise_panels=int(r.integers(1, 4)))
    for w in ws:
        n = np.asarray(w.unit_normal_vector, float)
        up = np.cross(w.unit_chordwise_vector, n)
        wet = proj = 0.0
        for p in w.panels.ravel():
            m, a = normal_area(p)
            wet += a
            proj += a * abs(float(m @ up))
        close("wetted area", w.wetted_area, wet)
        close("projected area", w.projected_area, proj)
        le = [np.array([c.x_le, c.y_le, c.z_le]) for c in w.wing_cross_sections]
        k = 2 if w.symmetric else 1
        close("span", w.span, k * abs(float((le[-1] - le[0]) @ n)))
        close("standard mean chord", w.standard_mean_chord, proj / (k * abs(float((le[-1] - le[0]) @ n))))
        tot = 0.0
        for a, b, ca, cb in zip(le, le[1:], w.wing_cross_sections, w.wing_cross_sections[1:]):
            t = (np.arange(400) + 0.5) / 400
            ch = ca.chord + t * (cb.chord - ca.chord)
            tot += abs(float((b - a) @ n)) * float(np.mean(ch * ch))
        close("mean aerodynamic chord", w.mean_aerodynamic_chord, k * tot / proj, tol=1e-5)
    refs = {}
    for nm in ("s_ref", "c_ref", "b_ref"):
        if r.integers(2):
            refs[nm] = float(r.uniform(0.5, 9))
    a = ps.geometry.Airplane(wings=ws, **refs)
    close("reference area", a.s_ref, refs.get("s_ref", ws[0].projected_area))
    close("reference chord", a.c_ref, refs.get("c_ref", ws[0].mean_aerodynamic_chord))
    close("reference span", a.b_ref, refs.get("b_ref", ws[0].span))
    same("panel count", a.num_panels, sum(w.panels.size for w in ws))
    return COUNT[0]
