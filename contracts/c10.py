"""C10 / C11: shedding at any step, from any wake.  One iteration of the real
run() loop, from a state with a wake of s rows of any vertices, circulations
and ages; the posts give the state the next step starts from (so the induction
over the steps is closed) and what this step recorded."""
from world import *

WN = "up.steady_problems[s + 1].airplanes[a].wings[w]"
RV = WN + ".wake_ring_vortices[r, j]"

WROW = ("Sum(a, lambda k: Sum(len(airplanes[k].wings), lambda l: s * airplanes[k].wings[l].num_spanwise_panels))"
        " + Sum(w, lambda l: s * airplanes[a].wings[l].num_spanwise_panels) + r * airplanes[a].wings[w].num_spanwise_panels + j")


def setup(cx, s, free, loads=True):
    st = num(0) if s == 0 else cx.integer("s", lo=1, hi=2)
    if s:
        T.POS_APPS.add("s")
        T.NONNEG_APPS.add("s")
    fl = Flight(cx, st, more=1)
    kernel_contracts(cx)
    frame_contracts(cx)
    no_loads(cx)
    cx.summary("unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver.calculate_near_field_forces_and_moments", lambda I, st, env: None)
    if free:
        velocity_contract(cx)
    fl.let()
    cx.exec(Flight.STEP % ("False" if free else "True"))
    return fl


def wover(fl, rows, cols=0):
    wd = fl.wd
    return [("a", wd.A), ("w", lambda a: wd.W(a)), ("r", rows), ("j", lambda a, w, r: wd.N(a, w) + cols)]


def circulation(s, free):
    def c(cx):
        fl = setup(cx, s, free)
        wd = fl.wd
        st = fl.s
        over2 = [("a", wd.A), ("w", lambda a: wd.W(a))]
        cx.post("one more row of wake vortices", WN + ".wake_ring_vortices.shape", lambda a, w: (st + 1, wd.N(a, w)), over=over2)
        first = [("a", wd.A), ("w", lambda a: wd.W(a)), ("j", lambda a, w: wd.N(a, w))]
        R0 = RV.replace("[r,", "[0,")
        cx.post("new row: circulation of the trailing edge panel", R0 + ".strength",
                "up.steady_problems[s].airplanes[a].wings[w].panels[up.steady_problems[s].airplanes[a].wings[w].num_chordwise_panels - 1, j].ring_vortex.strength", over=first)
        cx.post("new row: age zero", R0 + ".age", lambda a, w, j: ZERO, over=first)
        legs = ("front_leg", "left_leg", "back_leg", "right_leg")
        cx.post("new row: legs", "(%s)" % ", ".join("%s.%s.strength - %s.strength" % (R0, l, R0) for l in legs), lambda a, w, j: (ZERO,) * 4, over=first)
        if s:
            sh = RV.replace("[r,", "[r + 1,")
            ov = wover(fl, st)
            cx.post("older rows keep their circulation", sh + ".strength", lambda a, w, r, j: fl.WS(a, w, r, j), over=ov)
            cx.post("older rows: legs keep their circulation", "(%s)" % ", ".join("%s.%s.strength" % (sh, l) for l in legs),
                    lambda a, w, r, j: (fl.WS(a, w, r, j),) * 4, over=ov)
            cx.post("older rows age by one step", sh + ".age", lambda a, w, r, j: fl.WA(a, w, r, j) + fl.dt, over=ov)

            for nm, f in (("strengths", fl.WS), ("ages", fl.WA)):
                for e in ("solver.wake_ring_vortex_%s_list[s]" % nm, "solver.current_wake_ring_vortex_%s" % nm):
                    cx.post("recorded %s (%s)" % (nm, e.split(".")[1].split("_")[0]), "%s[%s]" % (e, WROW), f, over=ov)
        cx.post("vortices recorded", "solver.num_wake_ring_vortices_list[s]",
                lambda: cx.I.lib.red(cx.st, wd.A, lambda a: cx.I.lib.red(cx.st, wd.W(a), lambda w: st * wd.N(a, w))), over=[])

    return c


contract("C10", "first step: wake circulation")(circulation(0, False))
contract("C10", "later steps: wake circulation")(circulation(1, False))
