"""C05: the loads one step of the unsteady loop computes, at any step, from any
wake and any previous circulations (C06 stores them on the panels)."""
from world import *

SPEC = """
    def vel(p):
        return solver.calculate_solution_velocity(points=np.array([p]))[0]
    def leg(panel, last, a, b):
        ring = panel.ring_vortex
        o = getattr(ring, a)
        t = getattr(ring, b)
        m = o + (t - o) / 2
        v = vel(m)
        if s > 0:
            lo = getattr(last.ring_vortex, a)
            lt = getattr(last.ring_vortex, b)
            v = v - (m - (lo + (lt - lo) / 2)) / dt
        return m, t - o, v
    def cross(u, v):
        return np.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]])
    def loads(a, w, i, j):
        wing = up.steady_problems[s].airplanes[a].wings[w]
        panels = wing.panels
        p = panels[i, j]
        last = up.steady_problems[s - 1].airplanes[a].wings[w].panels[i, j] if s > 0 else p
        rho = up.steady_problems[s].operating_point.density
        ref = up.steady_problems[s].airplanes[a].xyz_ref
        g = p.ring_vortex.strength
        gf = g if i == 0 else g - panels[i - 1, j].ring_vortex.strength
        gl = g if j == 0 else (g - panels[i, j - 1].ring_vortex.strength) / 2
        gr = g if j == wing.num_spanwise_panels - 1 else (g - panels[i, j + 1].ring_vortex.strength) / 2
        mf, lf, vf = leg(p, last, "front_right_vertex", "front_left_vertex")
        ml, ll, vl = leg(p, last, "front_left_vertex", "back_left_vertex")
        mr, lr, vr = leg(p, last, "back_right_vertex", "front_right_vertex")
        ff = rho * gf * cross(vf, lf)
        fl = rho * gl * cross(vl, ll)
        fr = rho * gr * cross(vr, lr)
        gd = (g - GL[a][w][i, j]) if s > 0 else g
        fu = rho * gd * p.area * p.unit_normal / dt
        force = ff + fl + fr + fu
        moment = cross(mf - ref, ff) + cross(ml - ref, fl) + cross(mr - ref, fr) + cross(p.collocation_point - ref, fu)
        return force, moment
"""
ROW = ("Sum(a, lambda k: Sum(len(airplanes[k].wings), lambda l: airplanes[k].wings[l].num_chordwise_panels * airplanes[k].wings[l].num_spanwise_panels))"
       " + Sum(w, lambda l: airplanes[a].wings[l].num_chordwise_panels * airplanes[a].wings[l].num_spanwise_panels) + i * airplanes[a].wings[w].num_spanwise_panels + j")


def record_loads(cx, which):
    """process_*_solver_forces by its C06 contract (it stores row k of both
    arrays on panel k and sums them per airplane); the arrays it receives are
    kept for the posts."""
    q = "process_%s_solver_forces" % which

    def s(I, st, env):
        I.set_field(st, env[which + "_solver"], "verif_F", env["near_field_forces_geometry_axes"])
        I.set_field(st, env[which + "_solver"], "verif_M", env["near_field_moments_geometry_axes"])
        return None

    cx.summary("functions." + q, s)
    old = cx.conc_patch

    def patch(ns):
        undo = old(ns) if old else None
        F = ns["ps"].functions
        saved = getattr(F, q)

        def rec(*a, **k):
            import inspect

            b = inspect.signature(saved).bind(*a, **k).arguments
            o = b[which + "_solver"]
            o.verif_F, o.verif_M = b["near_field_forces_geometry_axes"], b["near_field_moments_geometry_axes"]

        setattr(F, q, rec)

        def u():
            setattr(F, q, saved)
            if undo:
                undo()

        return u

    cx.conc_patch = patch


def unsteady(s):
    def c(cx):
        st = num(0) if s == 0 else cx.integer("s", lo=1, hi=2)
        if s:
            T.POS_APPS.add("s")
            T.NONNEG_APPS.add("s")
        fl = Flight(cx, st, first_results=ZERO)
        kernel_contracts(cx)
        frame_contracts(cx)
        velocity_contract(cx)
        record_loads(cx, "unsteady")
        cx.summary("unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver.populate_next_airplanes_wake", lambda I, st, env: None)
        fl.let()
        cx.exec(Flight.STEP % "True" + SPEC)
        wd = fl.at(st)
        cx.post("panel force", "solver.verif_F[%s]" % ROW, "loads(a, w, i, j)[0]", over=wd.over(), tol=1e-6)
        cx.post("panel moment", "solver.verif_M[%s]" % ROW, "loads(a, w, i, j)[1]", over=wd.over(), tol=1e-6)

    return c


contract("C05", "first step: panel loads")(unsteady(0))
contract("C05", "later steps: panel loads", per=200, budget=300, mem=12)(unsteady(1))
