"""C04: the loads of the steady solvers (C06 stores them on the panels)."""
import c05
from c05 import record_loads, ROW
from world import *

CONTRACTS[:] = [c for c in CONTRACTS if c["prop"] != "C05"]

COMMON = """
    def cross(u, v):
        return np.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]])
    def segment(o, t, g, ref):
        m = o + (t - o) / 2
        v = solver.calculate_solution_velocity(points=np.array([m]))[0]
        f = op.density * g * cross(v, t - o)
        return f, cross(m - ref, f)
"""
SPEC = {
    "horseshoe": COMMON + """
    def loads(a, w, i, j):
        p = airplanes[a].wings[w].panels[i, j]
        fl = p.front_left_vertex + 0.25 * (p.back_left_vertex - p.front_left_vertex)
        fr = p.front_right_vertex + 0.25 * (p.back_right_vertex - p.front_right_vertex)
        return segment(fr, fl, p.horseshoe_vortex.strength, airplanes[a].xyz_ref)
    """,
    "ring": COMMON + """
    def loads(a, w, i, j):
        wing = airplanes[a].wings[w]
        panels = wing.panels
        p = panels[i, j]
        v = p.ring_vortex
        ref = airplanes[a].xyz_ref
        g = v.strength
        gf = g if i == 0 else g - panels[i - 1, j].ring_vortex.strength
        gl = g if j == 0 else (g - panels[i, j - 1].ring_vortex.strength) / 2
        gr = g if j == wing.num_spanwise_panels - 1 else (g - panels[i, j + 1].ring_vortex.strength) / 2
        ff, mf = segment(v.front_right_vertex, v.front_left_vertex, gf, ref)
        fl, ml = segment(v.front_left_vertex, v.back_left_vertex, gl, ref)
        fr, mr = segment(v.back_right_vertex, v.front_right_vertex, gr, ref)
        return ff + fl + fr, mf + ml + mr
    """,
}


def steady(kind):
    def c(cx):
        wd = World(cx)
        kernel_contracts(cx)
        frame_contracts(cx)
        no_streamlines(cx)
        velocity_contract(cx, kind)
        record_loads(cx, "steady")
        cx.let(airplanes=wd.airplanes(), op=op_point(cx))
        cx.exec("""
    problem = ps.problems.SteadyProblem(airplanes=airplanes, operating_point=op)
    solver = ps.%s(steady_problem=problem)
    solver.run(logging_level="Critical")
    """ % STEADY[kind] + SPEC[kind])
        cx.post("panel force", "solver.verif_F[%s]" % ROW, "loads(a, w, i, j)[0]", over=wd.over(), tol=1e-6)
        cx.post("panel moment", "solver.verif_M[%s]" % ROW, "loads(a, w, i, j)[1]", over=wd.over(), tol=1e-6)

    return c


contract("C04", "horseshoe solver: panel loads")(steady("horseshoe"))
contract("C04", "ring solver: panel loads")(steady("ring"))
