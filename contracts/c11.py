"""C11: wake geometry (see c10.py for the set-up)."""
from c10 import setup, wover, WN, RV, WROW
from world import *

CONTRACTS[:] = [c for c in CONTRACTS if c["prop"] != "C10"]


def geometry(s, free):
    def c(cx):
        fl = setup(cx, s, free)
        wd = fl.wd
        st = fl.s
        nxt = fl.at(st + 1)
        V = lambda k: scale(T.app("V", k), FD(T.app("alpha", k), T.app("beta", k)))
        over2 = [("a", wd.A), ("w", lambda a: wd.W(a))]
        grid = WN + ".wake_ring_vortex_vertices"
        cx.post("vertex grid", grid + ".shape", lambda a, w: (st + 2, wd.N(a, w) + 1, num(3)), over=over2)

        def te(k, r):
            def f(a, w, j):
                jj = j - 1 if r else j
                i = wd.M(a, w) - 1
                c_ = k.corners(a, w, i, jj)
                front = (k.fr if r else k.fl)(a, w, i, jj)
                return add(add(front, sub(c_[3 if r else 2], c_[1 if r else 0])), scale(Q * fl.dt, V(st + 1)))

            return f

        left = [("a", wd.A), ("w", lambda a: wd.W(a)), ("j", lambda a, w: wd.N(a, w))]
        cx.post("first row is the trailing edge rings' back edge (left corners)", grid + "[0, j]", te(nxt, False), over=left)
        cx.post("first row is the trailing edge rings' back edge (last right corner)", grid + "[0, len(%s[0]) - 1]" % grid,
                lambda a, w: te(nxt, True)(a, w, wd.N(a, w)), over=over2)
        vel = "solver.calculate_solution_velocity(points=np.array([%s]))[0]"
        if not s:
            ov = [("a", wd.A), ("w", lambda a: wd.W(a)), ("j", lambda a, w: wd.N(a, w) + 1)]
            if free:
                cx.post("second row: convected by the flow", grid + "[1, j]", "%s[0, j] + dt * %s" % (grid, vel % (grid + "[0, j]")), over=ov)
            else:
                cx.post("second row: convected by the freestream", "%s[1, j] - %s[0, j]" % (grid, grid), lambda a, w, j: scale(fl.dt, V(st)), over=ov)
        else:
            ov = wover(fl, st + 1, 1)
            old = "up.steady_problems[s].airplanes[a].wings[w].wake_ring_vortex_vertices[r, j]"
            if free:
                cx.post("older rows: convected by the flow", grid + "[r + 1, j]", "%s + dt * %s" % (old, vel % old), over=ov)
            else:
                cx.post("older rows: convected by the freestream", grid + "[r + 1, j]", lambda a, w, r, j: add(fl.WV(a, w, r, j), scale(fl.dt, V(st))), over=ov)
            cx.post("this step's grid is untouched", old, lambda a, w, r, j: fl.WV(a, w, r, j), over=ov)
            nm = dict(front_right=(0, 1), front_left=(0, 0), back_left=(1, 0), back_right=(1, 1))
            for k, (dr, dj) in nm.items():
                for e in ("solver.wake_ring_vortex_%s_vertices_list[s]" % k, "solver.current_wake_ring_vortex_%s_vertices" % k):
                    cx.post("recorded %s corners (%s)" % (k, e.split(".")[1].split("_")[0]), "%s[%s]" % (e, WROW),
                            lambda a, w, r, j, dr=dr, dj=dj: fl.WV(a, w, r + dr, j + dj), over=wover(fl, st))
        G = lambda dr, dj: "%s[r + %d, j + %d]" % (grid, dr, dj)
        ov = wover(fl, st + 1)
        cx.post("ring corners are the grid vertices", "(%s)" % ", ".join(RV + "." + x + "_vertex" for x in ("front_left", "front_right", "back_left", "back_right")),
                "(%s)" % ", ".join((G(0, 0), G(0, 1), G(1, 0), G(1, 1))), over=ov)
        cx.post("ring legs join the grid vertices",
                "(%s)" % ", ".join(RV + "." + x for x in ("front_leg.origin", "front_leg.termination", "left_leg.origin", "left_leg.termination",
                                                          "back_leg.origin", "back_leg.termination", "right_leg.origin", "right_leg.termination")),
                "(%s)" % ", ".join((G(0, 1), G(0, 0), G(0, 0), G(1, 0), G(1, 0), G(1, 1), G(1, 1), G(0, 1))), over=ov)

    return c


contract("C11", "first step, prescribed wake")(geometry(0, False))
contract("C11", "later steps, prescribed wake")(geometry(1, False))
contract("C11", "first step, free wake")(geometry(0, True))
contract("C11", "later steps, free wake")(geometry(1, True))
