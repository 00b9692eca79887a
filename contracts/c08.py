"""C08 panel geometry."""
from spec import *

CODE = """
p = ps.panel.Panel(front_left_vertex=fl, front_right_vertex=fr, back_left_vertex=bl, back_right_vertex=br,
                   is_leading_edge=True, is_trailing_edge=False)
"""


def corners(cx):
    v = {k: cx.vec(k) for k in ("fl", "fr", "bl", "br")}
    cx.let(**v)
    return {k: cx.v3(x) for k, x in v.items()}


@contract("C08", "legs and vortex points")
def legs(cx):
    c = corners(cx)
    FL, FR, BL, BR = c["fl"], c["fr"], c["bl"], c["br"]
    cx.exec(CODE)
    cx.post("corners kept", "(p.front_left_vertex, p.front_right_vertex, p.back_left_vertex, p.back_right_vertex)", lambda: FL + FR + BL + BR)
    cx.post("right leg", "p.right_leg", lambda: sub(FR, BR))
    cx.post("left leg", "p.left_leg", lambda: sub(BL, FL))
    cx.post("front leg", "p.front_leg", lambda: sub(FL, FR))
    cx.post("back leg", "p.back_leg", lambda: sub(BR, BL))
    cx.post("front right bound vertex", "p.front_right_vortex_vertex", lambda: add(FR, scale(Q, sub(BR, FR))))
    cx.post("front left bound vertex", "p.front_left_vortex_vertex", lambda: add(FL, scale(Q, sub(BL, FL))))
    cx.post("collocation point", "p.collocation_point",
            lambda: scale(H, add(add(FR, scale(3 * Q, sub(BR, FR))), add(FL, scale(3 * Q, sub(BL, FL))))))
    cx.post("average chord", "p.average_chord", lambda: (norm(sub(FR, BR)) + norm(sub(FL, BL))) * H)
    cx.post("average span", "p.average_span", lambda: (norm(sub(FR, FL)) + norm(sub(BR, BL))) * H)
    cx.post("area", "p.area", lambda: norm(cross(sub(FR, BL), sub(FL, BR))) * H)


@contract("C08", "normal")
def normal(cx):
    c = corners(cx)
    FL, FR, BL, BR = c["fl"], c["fr"], c["bl"], c["br"]
    d1, d2 = sub(FR, BL), sub(FL, BR)
    n = cross(d1, d2)
    cx.require(gt(dot(n, n), ZERO))
    cx.exec(CODE)
    cx.post("normal", "p.unit_normal", lambda: tuple(x / norm(n) for x in n))
    cx.post("unit length", "np.dot(p.unit_normal, p.unit_normal)", lambda: ONE)
    cx.post("perpendicular to the first diagonal", "np.dot(p.unit_normal, fr - bl)", lambda: ZERO)
    cx.post("perpendicular to the second diagonal", "np.dot(p.unit_normal, fl - br)", lambda: ZERO)
    cx.post("right-hand rule", "np.dot(p.unit_normal, np.cross(fr - bl, fl - br)) > 0", lambda: TRUE)
    # the unit normal of the projection plane is m / |m| for any non-zero m


@contract("C08", "projected area")
def proj(cx):
    c = corners(cx)
    FL, FR, BL, BR = c["fl"], c["fr"], c["bl"], c["br"]
    n = cross(sub(FR, BL), sub(FL, BR))
    m = cx.vec("m")
    M_ = cx.v3(m)
    cx.require(gt(dot(M_, M_), ZERO))
    cx.let(m=m)
    cx.exec(CODE + "a = p.calculate_projected_area(m / np.linalg.norm(m))\nb = p.calculate_projected_area(n_hat=-m / np.linalg.norm(m))")
    # area * |cos| = |n/2 . m| / |m|
    cx.post("area times absolute cosine (squared)", "a * a", lambda: dot(n, M_) * dot(n, M_) / dot(M_, M_) * Q)
    cx.post("not negative", "a >= 0", lambda: TRUE)
    cx.post("either side of the plane", "a - b", lambda: ZERO)


@contract("C08", "unit vectors")
def units(cx):
    c = corners(cx)
    FL, FR, BL, BR = c["fl"], c["fr"], c["bl"], c["br"]
    ch = scale(H, add(sub(BR, FR), sub(BL, FL)))
    sp = scale(H, add(sub(FR, FL), sub(BR, BL)))
    cx.require(gt(dot(ch, ch), ZERO))
    cx.require(gt(dot(sp, sp), ZERO))
    cx.exec(CODE)
    cx.post("unit chordwise", "p.unit_chordwise", lambda: tuple(x / norm(ch) for x in ch))
    cx.post("unit spanwise", "p.unit_spanwise", lambda: tuple(x / norm(sp) for x in sp))
    cx.post("unit length", "(np.dot(p.unit_chordwise, p.unit_chordwise), np.dot(p.unit_spanwise, p.unit_spanwise))", lambda: (ONE, ONE))
