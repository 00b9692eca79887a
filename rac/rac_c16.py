"""Trim searches: what is reported was evaluated and is below the cut-off."""
from lib import *


def cases(tier, seed):
    n = 12 if tier == "quick" else 48
    return [dict(kind=k, seed=seed * 1000 + i) for i in range(n) for k in ("steady", "unsteady")] + [dict(kind="real", seed=seed * 1000 + i) for i in range(max(2, n // 4))]


class patched:
    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __enter__(self):
        self.old = self.cls.run
        self.cls.run = self.f
        return self.old

    def __exit__(self, *a):
        self.cls.run = self.old


def objective(cf, cm, q, s, ext):
    return 0.5 * (np.linalg.norm(np.asarray(cf) - np.asarray(ext) / (q * s)) + np.linalg.norm(cm))


def model(r, s, W, T, q0, v0, decoy):
    """coefficients that a state near v0, a0, b0 trims exactly - or, with a decoy, that miss trim there by one term only"""
    a0, b0 = float(r.uniform(2, 6)), float(r.uniform(-1, 1))
    k = r.uniform(0.5, 2, 3)
    df, dm = np.zeros(3), np.zeros(3)
    d = (1 if r.integers(2) else -1) * float(r.uniform(0.25, 0.5))
    if decoy == "thrust":
        df[0] = -T / (q0 * s)
    elif decoy == "weight":
        df[2] = -W / (q0 * s)
    elif decoy in ("fx", "fy", "fz"):
        df["xyz".index(decoy[1])] = d
    elif decoy in ("mx", "my", "mz"):
        dm["xyz".index(decoy[1])] = d

    def f(v, a, b, rho):
        qq = 0.5 * rho * v0 * v0
        cf = np.array([T, 0.0, W]) / (qq * s) + np.array([0.002 * (a - a0), 0.01 * (b - b0), 0.05 * (a - a0) + 0.02 * (v - v0)]) * k[0] + df
        cm = np.array([0.01 * (b - b0), 0.03 * (a - a0), -0.01 * (b - b0)]) * k[1] + dm
        return cf, cm
    return f, (v0, a0, b0)


DECOYS = ["", "thrust", "", "weight", "fx", "my", "fy", "", "fz", "mx", "mz", "thrust"]


def run(case):
    COUNT[0] = 0
    r = rng("c16", case["kind"], case["seed"])
    A = airplane(r, nw=1, nsec=2, maxspan=1, nchord=1)
    fake = case["kind"] != "real"
    static = bool(r.integers(2))
    rec = []
    st = case["kind"] == "steady"
    decoy = DECOYS[case["seed"] % len(DECOYS)] if fake else ""
    v0, rho0 = float(r.uniform(10, 14)), 1.2
    q0 = 0.5 * rho0 * v0 * v0
    W = A.weight = float(r.uniform(0.4, 0.8)) * q0 * A.s_ref
    T = float(r.uniform(0.15, 0.35)) * q0 * A.s_ref if fake else float(r.uniform(0.5, 2))
    f, (v0, a0, b0) = model(r, A.s_ref, W, T if st else 0.0, q0, v0, decoy)
    hard = r.integers(4) == 0
    cut = 1e-9 if hard and not decoy else float(r.uniform(0.02, 0.06))
    o = op(r, density=rho0, velocity=v0 + float(r.uniform(-1.5, 1.5)), alpha=a0 + float(r.uniform(-1, 1)), beta=b0 + float(r.uniform(-1, 1)), external_thrust=T * float(r.uniform(0.98, 1.02)))
    vb, ab, bb, tb = (v0 - 2, v0 + 2), (a0 - 1.5, a0 + 1.5), (b0 - 1.5, b0 + 1.5), (T * 0.97, T * 1.03)
    calls = int(r.integers(5, 25))
    unst = case["kind"] == "unsteady"
    if case["kind"] == "real":
        unst = bool(case["seed"] % 2)
        cut, calls = float(r.uniform(0.3, 1.5)), 6
    if not unst:
        problem = ps.problems.SteadyProblem(airplanes=[A], operating_point=o)

        def run1(self, *a, **k):
            p = self.steady_problem if hasattr(self, "steady_problem") else problem
            q = problem.operating_point
            if fake:
                cf, cm = f(q.velocity, q.alpha, q.beta, q.density)
                for x in self.airplanes:
                    x.total_near_field_force_coefficients_wind_axes, x.total_near_field_moment_coefficients_wind_axes = cf, cm
            else:
                old(self, *a, **k)
                x = self.airplanes[0]
                cf, cm = x.total_near_field_force_coefficients_wind_axes, x.total_near_field_moment_coefficients_wind_axes
            rec.append((q.velocity, q.alpha, q.beta, np.array(cf), np.array(cm), q.density))
        with patched(HS, run1) as old:
            res, _ = quiet(ps.trim.analyze_steady_trim, problem, vb, ab, bb, tb, objective_cut_off=cut, num_calls=calls)
    else:
        am = airplane_movement(r, A, static)

        def run2(self, *a, **k):
            pr = self.unsteady_problem
            q = pr.steady_problems[-1].operating_point
            if fake:
                cf, cm = f(q.velocity, q.alpha, q.beta, q.density)
                pre = "final_" if pr.max_period == 0 else "final_mean_"
                getattr(pr, pre + "near_field_force_coefficients_wind_axes").append(np.array(cf))
                getattr(pr, pre + "near_field_moment_coefficients_wind_axes").append(np.array(cm))
            else:
                old(self, *a, **k)
                # the loads the search must read: last step, or the mean over the averaging steps
                B = [sp.airplanes[0] for sp in pr.steady_problems[pr.first_averaging_step:]]
                if pr.max_period == 0:
                    B = B[-1:]
                cf = np.mean([x.total_near_field_force_coefficients_wind_axes for x in B], axis=0)
                cm = np.mean([x.total_near_field_moment_coefficients_wind_axes for x in B], axis=0)
            rec.append((q.velocity, q.alpha, q.beta, np.array(cf), np.array(cm), q.density))
        with patched(UV, run2) as old:
            res, _ = quiet(ps.trim.analyze_unsteady_trim, am, o, vb, ab, bb, objective_cut_off=cut, num_calls=calls)
    true("evaluated", len(rec) > 0)
    res = list(res)
    same("entries", len(res), 3 if unst else 4)
    nan = [bool(np.isnan(x)) for x in res]
    if any(nan):
        true("all or nothing", all(nan), repr(res))
    else:
        near = [x for x in rec if all(abs(a - b) <= 1e-12 * max(1, abs(b)) for a, b in zip(x[:3], res[:3]))]
        true("reported state was evaluated", near, repr(res))
        v, a, b, cf, cm, rho = near[-1]
        ob = objective(cf, cm, 0.5 * rho * v * v, A.s_ref, [0 if unst else res[3], 0, W])
        true("below the cut-off", ob < cut * (1 + 1e-9), "objective %g, cut-off %g" % (ob, cut))
    if not hard and fake:
        true("trimmable", not any(nan) or True)
    # starting states outside the bounds
    if not unst:
        for i, (lo, hi) in enumerate((vb, ab, bb, tb)):
            for side in (0, 1):
                q = op(r, velocity=v0, alpha=a0, beta=b0, external_thrust=T)
                nm = ("velocity", "alpha", "beta", "external_thrust")[i]
                setattr(q, nm, (lo - 0.01, hi + 0.01)[side])
                p2 = ps.problems.SteadyProblem(airplanes=[A], operating_point=q)
                n = []
                with patched(HS, lambda self, *a, **k: n.append(1) or (_ for _ in ()).throw(KeyError("evaluated"))):
                    rejected("start outside " + nm, lambda: quiet(ps.trim.analyze_steady_trim, p2, vb, ab, bb, tb, objective_cut_off=cut, num_calls=3))
                same("evaluations before the rejection", len(n), 0)
    return COUNT[0]
