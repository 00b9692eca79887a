"""Check driver:  run.py ID  |  run.py --replay FILE

For one property: every contract in contracts/<id>.py is executed symbolically
on /repo's current sources and each postcondition / safety obligation goes to
the prover; an obligation that is not discharged is handed to the
counterexample search (the contract run on the real code under CPython) and to
the bounded prover; rac/<id>.py runs the property's executable contract on
objects built by the real constructors."""
import os
import sys
import json
import time
import signal
import importlib
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(VERIF, "contracts"), os.path.join(VERIF, "rac"), REPO]
sys.setrecursionlimit(20000)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
TOTAL = 700 if TIER == "quick" else 3000
CTX = mp.get_context("fork")


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------
# tasks
# --------------------------------------------------------------------------
def task_symbolic(c, sizes, budget):
    import contract
    import prover

    t0 = time.time()
    cx = contract.Cx(sizes=sizes, deadline=t0 + budget)
    c["fn"](cx)
    per = c.get("per", 30)
    obls = cx.check(per=per)
    out = []
    for o in obls:
        d = dict(name=o.name, status=o.status, how=str(o.how)[:300], detail=str(o.detail)[:1500] if o.detail else None, t=round(o.t, 3),
                 soft=bool(getattr(o, "soft", False)))
        if o.status == "failed" or o.status == "unknown":
            try:
                w = cx.refute(o)
            except Exception as e:  # noqa
                w = None
            if w:
                d["witness"] = w
        out.append(d)
    return dict(
        obls=out,
        error=cx.error,
        trace=getattr(cx, "trace", None),
        functions=sorted(cx.I.functions_executed),
        assumed={k: v for k, v in cx.I.calls_seen.items()},
        safety_inline=getattr(cx, "n_safety", 0),
        solve_facts=len(cx.I.solve_facts),
        loops=getattr(cx.I, "loop_count", 0),
        stats={k: (round(v, 3) if isinstance(v, float) else v) for k, v in prover.STATS.items()},
        t=round(time.time() - t0, 2),
    )


def task_concrete(c, salts):
    import contract

    res = dict(values=0, runs=0, skips=0, mismatch=None, errors=[])
    for s in salts:
        try:
            res["values"] += contract.run_concrete(c, s)
            res["runs"] += 1
        except contract.Skip as e:
            res["skips"] += 1
            res.setdefault("skip_why", str(e)[:200])
        except contract.Mismatch as e:
            res["mismatch"] = dict(salt=s, post=e.name, at={k: str(v) for k, v in e.env.items()}, got=repr(e.got)[:300], want=repr(e.want)[:300])
            return res
        except Exception as e:  # inputs built field by field: inconclusive
            res["errors"].append("%s: %s" % (type(e).__name__, str(e)[:200]))
    return res


def task_rac(modname, case):
    m = importlib.import_module(modname)
    import racbase

    try:
        n = m.run(case)
        return dict(ok=True, checked=int(n or 0))
    except racbase.Violation as e:
        return dict(ok=False, message=str(e)[:1500], what=e.what)
    except racbase.Inconclusive as e:
        return dict(ok=None, message=str(e)[:500])
    except Exception as e:
        # the code under test failed on an input the property covers
        frames = traceback.extract_tb(e.__traceback__)
        last = frames[-1].filename if frames else ""
        inrepo = [f for f in frames if f.filename.startswith(os.path.join(REPO, "pterasoftware"))]
        if inrepo and os.path.join(VERIF, "") not in last and not isinstance(e, MemoryError):
            f = inrepo[-1]
            return dict(ok=False, what="raised", message="%s: %s raised in %s (%s line %d)" % (
                type(e).__name__, str(e)[:300], f.name, os.path.relpath(f.filename, REPO), f.lineno))
        raise


def _entry(fn, args, conn):
    try:
        import resource

        lim = (args[0].get("mem", 6) if args and isinstance(args[0], dict) else 6) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        # the code under test may print; keep stdout for the driver
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        r = ("ok", fn(*args))
    except BaseException as e:  # noqa
        r = ("err", "%s: %s" % (type(e).__name__, str(e)[:400]), traceback.format_exc()[-3000:])
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def run_tasks(tasks, par=8):
    """tasks: list of (key, fn, args, timeout) -> {key: result}"""
    pend = list(tasks)
    live = {}
    res = {}
    while pend or live:
        while pend and len(live) < par:
            key, fn, args, to = pend.pop(0)
            to = min(to, max(5.0, TOTAL - (time.time() - T0)))
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=_entry, args=(fn, args, b))
            p.start()
            b.close()
            live[key] = (p, a, time.time() + to)
        mp.connection.wait([x[1] for x in live.values()], timeout=0.5)
        for key in list(live):
            p, a, dl = live[key]
            if a.poll():
                try:
                    res[key] = a.recv()
                except EOFError:
                    res[key] = ("err", "worker died", "")
                p.join(2)
                if p.is_alive():
                    p.kill()
                del live[key]
            elif time.time() > dl:
                p.kill()
                p.join()
                res[key] = ("timeout", "time limit", "")
                del live[key]
    return res


# --------------------------------------------------------------------------
def load(prop):
    import contract

    contract.CONTRACTS.clear()
    mods = []
    p = os.path.join(VERIF, "contracts", prop.lower() + ".py")
    if os.path.exists(p):
        importlib.import_module(prop.lower())
    cs = [c for c in contract.CONTRACTS if c["prop"] == prop]
    p = os.path.join(VERIF, "rac", "rac_" + prop.lower() + ".py")
    rac = "rac_" + prop.lower() if os.path.exists(p) else None
    return cs, rac


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: ") and ("property=%s " % prop) in l:
                body = l.split("property=%s " % prop, 1)[1]
                key, _, text = body.partition(" ")
                out.append((key, text))
    return out


def write_replay(prop, kind, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s.json" % prop)
    with open(f, "w") as h:
        json.dump(dict(property=prop, kind=kind, **data), h, indent=1, default=str)
    return f


def salts_for(n):
    return [SEED * 1000 + i for i in range(n)]


def check(prop):
    cs, rac = load(prop)
    ids = list(range(len(cs)))
    nsalt = 6 if TIER == "quick" else 40
    tasks = []
    known = known_findings(prop)
    kkeys = {k for k, _ in known}
    for i in ids:
        c = cs[i]
        if not c.get("bounded_only"):
            tasks.append((("sym", i), task_symbolic, (c, None, c.get("budget", 150)), c.get("budget", 150) + 30))
        if c.get("concrete", True):
            tasks.append((("conc", i), task_concrete, (c, salts_for(c.get("salts", nsalt) * (1 if TIER == "quick" else 5))), 120))
        if c.get("bounded_only"):
            for j, sz in enumerate(c.get("sizes", [{"*": 2}])):
                tasks.append((("bnd", i, j), task_symbolic, (c, sz, c.get("budget", 150)), c.get("budget", 150) + 30))
    cases = []
    if rac:
        m = importlib.import_module(rac)
        cases = list(m.cases(TIER, SEED))
        for k, case in enumerate(cases):
            tasks.append((("rac", k), task_rac, (rac, case), getattr(m, "LIMIT", 200)))
    res = run_tasks(tasks)
    # second round for contracts whose unbounded obligations were not all discharged
    again = []
    for i in ids:
        r = res.get(("sym", i))
        if r is None:
            continue
        bad = r[0] != "ok" or any(o["status"] != "proved" for o in r[1]["obls"])
        if bad:
            c = cs[i]
            for j, sz in enumerate(c.get("sizes", [{"*": 2}])):
                again.append((("bnd", i, j), task_symbolic, (c, sz, 90), 110))
            if c.get("concrete", True):
                salts = list(range(5000, 5000 + (60 if TIER == "quick" else 200)))
                if r[0] == "ok":
                    salts = [o["witness"]["salt"] for o in r[1]["obls"] if o.get("witness")] + salts
                again.append((("conc2", i), task_concrete, (c, salts), 150))
    if again:
        res.update(run_tasks(again))

    violations = []
    obligations = discharged = 0
    bounded_n = bounded_ok = 0
    undis = []
    functions, assumed = set(), {}
    solver_t, solver_n = 0.0, 0
    by_how = {}
    samples = []
    conc_runs = conc_vals = 0
    conc_notes = []
    for i in ids:
        c = cs[i]
        r = res.get(("sym", i))
        mism = None
        for key in (("conc", i), ("conc2", i)):
            q = res.get(key)
            if q is None:
                continue
            if q[0] == "ok":
                conc_runs += q[1]["runs"]
                conc_vals += q[1]["values"]
                if q[1]["mismatch"]:
                    mism = q[1]["mismatch"]
                if q[1]["errors"]:
                    conc_notes.append("%s: %s" % (c["name"], q[1]["errors"][0]))
                if q[1]["skips"] and not q[1]["runs"]:
                    conc_notes.append("%s: skipped %s" % (c["name"], q[1].get("skip_why")))
            else:
                conc_notes.append("%s: %s" % (c["name"], q[1]))
        failing = []
        if r is not None:
            if r[0] == "ok":
                d = r[1]
                functions.update(d["functions"])
                for k, v in d["assumed"].items():
                    assumed[k] = assumed.get(k, 0) + v
                solver_t += d["stats"].get("z3_time", 0.0)
                solver_n += d["stats"].get("z3_calls", 0)
                ob = d["obls"]
                n_in = d["safety_inline"]
                obligations += n_in
                discharged += n_in
                by_how["safety (inline)"] = by_how.get("safety (inline)", 0) + n_in
                for o in ob:
                    obligations += 1
                    if o["status"] == "proved":
                        discharged += 1
                        by_how[o["how"].split(":")[0][:40]] = by_how.get(o["how"].split(":")[0][:40], 0) + 1
                    else:
                        failing.append(o)
                        undis.append("%s / %s: %s %s" % (c["name"], o["name"], o["status"], (o["detail"] or o["how"] or "")[:300]))
                samples.append(dict(contract=c["name"], obligations=len(ob), discharged=sum(o["status"] == "proved" for o in ob),
                                    functions=d["functions"], assumed=sorted(d["assumed"]), wall_s=d["t"], error=d["error"]))
            else:
                undis.append("%s: %s" % (c["name"], r[1]))
                obligations += 1
                samples.append(dict(contract=c["name"], error=r[1]))
        bres = []
        j = 0
        while ("bnd", i, j) in res:
            q = res[("bnd", i, j)]
            if q[0] == "ok":
                functions.update(q[1]["functions"])
                for o in q[1]["obls"]:
                    bounded_n += 1
                    if o["status"] == "proved":
                        bounded_ok += 1
                    else:
                        bres.append(o)
                        if c.get("bounded_only"):
                            failing.append(o)
                            undis.append("%s (bounded %s) / %s: %s %s" % (c["name"], c.get("sizes"), o["name"], o["status"], (o["detail"] or "")[:300]))
            else:
                undis.append("%s (bounded): %s" % (c["name"], q[1]))
            j += 1
        if mism:
            violations.append(dict(kind="contract", contract=c["name"], obligation=mism["post"], salt=mism["salt"], at=mism["at"],
                                   got=mism["got"], want=mism["want"], key="%s:%s" % (c["name"], mism["post"]),
                                   verifier=[o for o in failing if o["name"] == mism["post"]][:1]))
        else:
            for o in failing + bres:
                if o.get("witness") and not o.get("soft") and not conc_ok(res, i, o["witness"]["salt"], c):
                    violations.append(dict(kind="obligation", contract=c["name"], obligation=o["name"], witness=o["witness"],
                                           verifier=o, key="%s:%s" % (c["name"], o["name"]), nofail=True))
                    break
    rac_ok = rac_n = rac_checked = 0
    rac_inc = []
    for k, case in enumerate(cases):
        q = res.get(("rac", k))
        rac_n += 1
        if q[0] == "ok":
            if q[1]["ok"] is True:
                rac_ok += 1
                rac_checked += q[1]["checked"]
            elif q[1]["ok"] is False:
                violations.insert(0, dict(kind="rac", module=rac, case=case, message=q[1]["message"], key=q[1]["what"]))
            else:
                rac_inc.append("%s: %s" % (case, q[1]["message"]))
        else:
            rac_inc.append("%s: %s %s" % (case, q[1], q[2][-600:] if len(q) > 2 else ""))

    out = [v for v in violations if v["key"] not in kkeys]
    for k, text in known:
        log("KNOWN-FINDING: property=%s %s %s" % (prop, k, text))
    wall = round(time.time() - T0, 2)
    level = manifest_level(prop)
    cov = dict(
        obligations=obligations,
        discharged=discharged,
        checker_cmd="./check.sh %s" % prop,
        trusted_base=trusted(),
        functions_under_contract=sorted(functions),
        assumed_contracts=assumed,
        discharged_by=by_how,
        solver=dict(name="z3", calls=solver_n, seconds=round(solver_t, 3)),
        contracts=samples,
        undischarged=undis,
        bounded_obligations=bounded_n,
        bounded_discharged=bounded_ok,
        cpython_crosscheck=dict(runs=conc_runs, values_compared=conc_vals, notes=conc_notes[:10]),
        runtime_contract_cases=dict(cases=rac_n, passed=rac_ok, inconclusive=rac_inc[:10], values_checked=rac_checked),
        evaluations=conc_runs + rac_n,
        distinct_nontrivial=conc_runs + rac_ok,
        rule="contract inputs drawn per seed (distinct assignments satisfying every precondition) plus the end-to-end cases listed; a case counts when the executable contract was evaluated on at least one value",
        samples=[dict(rac_case=str(x)) for x in cases[:5]] + samples[:3],
        explanation="see DESIGN.md section %s; obligations counts unbounded proof obligations only, bounded_* and runtime cases are counted separately" % prop,
    )
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions(assumed), wall_s=wall, violations=len(out))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1, default=str)
    log("%s: obligations %d discharged %d | bounded %d/%d | cpython %d runs %d values | e2e %d/%d | %.1f s" % (
        prop, obligations, discharged, bounded_ok, bounded_n, conc_runs, conc_vals, rac_ok, rac_n, wall))
    for u in undis[:12]:
        log("  undischarged:", u[:400])
    for u in (conc_notes + rac_inc)[:8]:
        log("  note:", u[:1000 if os.environ.get("VERIF_DEBUG") else 300])
    if not out and obligations + bounded_n + rac_ok == 0:
        log("nothing was checked")
        return 2
    if out:
        v = out[0]
        f = write_replay(prop, v["kind"], dict(violation=v, others=out[1:6], undischarged=undis))
        log("violated: %s" % json.dumps(v, default=str)[:1200])
        log("VIOLATION property=%s replay=%s%s" % (prop, f, " no-failing-input-found" if v.get("nofail") else ""))
        return 1
    return 0


def conc_ok(res, i, salt, c):
    """The witness assignment was run on the real code and agreed with the
    contract (the symbolic difference is then an artefact of the engine)."""
    q = res.get(("conc2", i)) or res.get(("conc", i))
    return bool(q and q[0] == "ok" and q[1]["runs"] > 0 and not q[1]["mismatch"])


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def trusted():
    return [
        "symbolic interpreter engine/{terms,interp,nplib,loops}.py (semantics of the Python subset and of the numpy calls used; cross-checked against CPython on every run)",
        "z3 (linear integer/real arithmetic side conditions)",
        "polynomial/rational normal-form rewriting in engine/terms.py and prover.py",
        "CPython 3.12, numpy, numba as the execution platform of /repo",
    ]


def assumptions(assumed):
    out = [
        "floating-point arithmetic is treated as exact real arithmetic",
        "numba-compiled functions behave as their Python source",
        "arrays passed in have the declared shapes and are not aliased except where a contract says so",
    ]
    for k in sorted(assumed):
        out.append("call of %s replaced by its contract" % k)
    return out


def replay(path):
    d = json.load(open(path))
    v = d["violation"]
    prop = d["property"]
    cs, rac = load(prop)
    if v["kind"] == "rac":
        r = task_rac(v["module"], v["case"] if not isinstance(v["case"], list) else tuple(v["case"]))
        log(r)
        return 0 if r["ok"] else 1
    c = [c for c in cs if c["name"] == v["contract"]][0]
    if v["kind"] == "contract":
        r = task_concrete(c, [v["salt"]])
        log(json.dumps(r, indent=1))
        return 1 if r["mismatch"] else 0
    r = task_symbolic(c, None, 300)
    for o in r["obls"]:
        log(o)
    return 1


if __name__ == "__main__":
    import multiprocessing.connection  # noqa

    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    try:
        rc = check(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
