"""C03: stopping criteria, against Termination.tla (module TermTrace)."""
from runs import *
from types import SimpleNamespace
from unittest import mock


class StubIndicator:
    v = 0

    def do(self, F, **kw):
        return self.v


def build(c, alt, ind, kids_out=None):
    """The criterion object described by the tree (several spellings of the same criterion)."""
    from pymoo.termination import get_termination
    from pymoo.core.termination import NoTermination, TerminateIfAny, TerminateIfAll
    from pymoo.termination.collection import TerminationCollection
    from pymoo.termination.cv import ConstraintViolationTermination, UntilFeasibleTermination
    from pymoo.termination.default import DefaultSingleObjectiveTermination, DefaultMultiObjectiveTermination
    from pymoo.termination.fmin import MinimumFunctionValueTermination
    from pymoo.termination.ftol import SingleObjectiveSpaceTermination, MultiObjectiveSpaceTermination
    from pymoo.termination.indicator import IndicatorTermination
    from pymoo.termination.max_eval import MaximumFunctionCallTermination
    from pymoo.termination.max_gen import MaximumGenerationTermination
    from pymoo.termination.max_time import TimeBasedTermination
    from pymoo.termination.robust import RobustTermination
    from pymoo.termination.xtol import DesignSpaceTermination
    k = c["k"]
    if k == "none":
        return NoTermination()
    if k == "gen":
        n = c["n"] or (None if alt % 2 else float("inf"))
        return [lambda: MaximumGenerationTermination(n), lambda: get_termination("n_gen", n), lambda: get_termination("n_iter", n)][alt % 3]()
    if k == "evals":
        n = c["n"] or (None if alt % 2 else float("inf"))
        return [lambda: MaximumFunctionCallTermination(n), lambda: get_termination("n_eval", n), lambda: get_termination("n_evals", n)][alt % 3]()
    if k == "time":
        return [lambda: TimeBasedTermination(c["n"]), lambda: TimeBasedTermination("00:00:%02d" % c["n"]), lambda: get_termination("time", c["n"])][alt % 3]()
    if k == "fmin":
        return MinimumFunctionValueTermination(c["v"]) if alt % 2 else get_termination("fmin", c["v"])
    if k == "feasible":
        return UntilFeasibleTermination()
    if k == "ind":
        return IndicatorTermination(ind, c["thr"], "minimize" if c["min"] else "maximize")
    if k == "delta":
        tol = c["tol"][0] / c["tol"][1]
        if c["src"] == "f":
            return SingleObjectiveSpaceTermination(tol, only_feas=c["opt"], n_skip=c["skip"])
        if c["src"] == "cv":
            return ConstraintViolationTermination(tol, terminate_when_feasible=c["opt"], n_skip=c["skip"])
        if c["src"] == "x":
            return DesignSpaceTermination(tol=tol, n_skip=c["skip"])
        return MultiObjectiveSpaceTermination(tol, only_feas=c["opt"], n_skip=c["skip"])
    ks = c["kids"]
    if k == "robust":
        return RobustTermination(build(ks[0], alt, ind), period=c["period"])
    if len(ks) == 5 and ks[0]["k"] == "robust" and alt % 3 and kids_out is None:
        tol = [x["kids"][0]["tol"][0] / x["kids"][0]["tol"][1] for x in ks[:3]]
        kw = dict(xtol=tol[0], cvtol=tol[1], ftol=tol[2], period=ks[0]["period"], n_max_gen=ks[3]["n"], n_max_evals=ks[4]["n"])
        if ks[2]["kids"][0]["src"] == "f":
            return DefaultSingleObjectiveTermination(**kw) if alt % 2 else get_termination("soo", **kw)
        return DefaultMultiObjectiveTermination(n_skip=ks[0]["kids"][0]["skip"], **kw)
    objs = [build(x, alt + i, ind) for i, x in enumerate(ks)]
    if kids_out is not None:
        kids_out.extend(objs)
    return (TerminateIfAll if k == "all" else TerminationCollection if alt % 2 else TerminateIfAny)(*objs)


def uses(c, what):
    return c.get("src") == what or any(uses(x, what) for x in c.get("kids", []))


def looked(perc, stop, exact=True):
    ok = bool(np.isfinite(perc)) and 0.0 <= perc <= 1.0
    return {"k": "look", "range": ok, "full": bool(perc >= 1.0), "stop": bool(stop), "exact": exact, "p4": int(round(float(perc) * 1e4)) if ok else 0}


def replay(task):
    i, path = task
    c, h = path["c"], path["h"]
    ind, kids, ev = StubIndicator(), [], []
    forced1 = any(o["op"] == "force" and o["i"] == 1 for o in h)
    try:
        term = build(c, i, ind, kids if forced1 else None)
    except Exception as e:
        return {"key": "crit/%s/%d" % (c["k"], i), "cfg": {"c": c}, "ev": [{"k": "raised", "exc": repr(e)}]}
    mo = uses(c, "mo")
    for o in h:
        if o["op"] == "force":
            (term if o["i"] == 0 else kids[0]).terminate()
            ev.append({"k": "force", "i": o["i"]})
            continue
        o = o["o"]
        prob = Problem(n_var=1, n_obj=2 if mo else 1, n_ieq_constr=1 if o["constr"] else 0, xl=0, xu=8)
        pop = Population.new("X", np.array([[float(m["x"])] for m in o["m"]]))
        pop.set("F", np.array([[float(m["f"])] + ([5.0] if mo else []) for m in o["m"]]))
        pop.set("G", np.array([[float(m["cv"])] for m in o["m"]]))
        ind.v = float(o["ind"])
        alg = SimpleNamespace(problem=prob, opt=pop, pop=pop, n_gen=o["gen"], n_iter=o["gen"], evaluator=SimpleNamespace(n_eval=o["evals"]), start_time=1000.0)

        def go():
            with mock.patch("time.time", lambda: 1000.0 + o["now"]):
                return term.update(alg)
        r, err = guarded(go, timeout=20)
        if err:
            ev.append({"k": "raised", "exc": err})
            break
        e = looked(term.perc, term.has_terminated())
        e["o"] = o
        if r != term.perc or term.do_continue() == term.has_terminated():
            e["stop"] = not e["full"]
        ev.append(e)
        if term.has_terminated():
            break
    return {"key": "crit/%s/%d" % (c["k"], i), "cfg": {"c": c}, "ev": ev}


# ---------------------------------------------------------------------------------------- whole runs
G = lambda n: {"k": "gen", "n": n}
E = lambda n: {"k": "evals", "n": n}
ANY = lambda *a: {"k": "any", "kids": list(a)}
ALL = lambda *a: {"k": "all", "kids": list(a)}
DL = lambda src, tol, skip=0, opt=True: {"k": "delta", "src": src, "tol": tol, "skip": skip, "opt": opt, "w": 1}
RB = lambda c, p: {"k": "robust", "kids": [c], "period": p}


def dig(o, d=0):
    if d > 6:
        return "..."
    if isinstance(o, (list, tuple)):
        return [dig(x, d + 1) for x in o]
    if hasattr(o, "__dict__"):
        return [type(o).__name__, [(k, dig(v, d + 1)) for k, v in sorted(vars(o).items())]]
    return repr(o)


def run_one(task):
    key, name, m, spec, c, seed, mode, force_at = task
    ev = []
    constr = spec["n_ieq"] > 0

    def obs(a):
        mem = [{"f": int(x.F[0]) if m == 1 else 0, "cv": int(round(float(x.CV[0]))), "x": 0} for x in members(a.opt)]
        return {"gen": int(a.n_gen), "evals": int(a.evaluator.n_eval), "now": 0, "ind": 0, "constr": constr, "m": mem}

    class CBk(Callback):
        def notify(self, a):
            t = a.termination
            if getattr(t, "force_termination", False) and not any(e["k"] == "force" for e in ev):
                ev.append({"k": "force", "i": 0})
            # RVEA turns an evaluation budget into the number of generations that use it up
            e = looked(t.perc, t.has_terminated(), exact=not (name == "RVEA" and c["k"] == "evals"))
            e["o"] = obs(a)
            ev.append(e)
            if force_at and a.n_gen == force_at:
                t.terminate()
                ev.append({"k": "force", "i": 0})
    prob = RecProblem(spec)

    def go():
        from pymoo.optimize import minimize
        term = build(c, seed, StubIndicator())
        if mode == "minimize":
            res = minimize(prob, make_algo(name, m, "real", spec)[0], term, seed=seed, callback=CBk())
            a = res.algorithm
        elif mode == "constructor":
            res = minimize(prob, make_algo(name, m, "real", spec, termination=term)[0], seed=seed, callback=CBk())
            a = res.algorithm
        elif mode == "next":
            a = make_algo(name, m, "real", spec)[0]
            a.setup(prob, termination=term, seed=seed, callback=CBk())
            while a.has_next():
                a.next()
        elif mode == "tuple":
            t = ("n_gen" if c["k"] == "gen" else "n_eval", c["n"])
            res = minimize(prob, make_algo(name, m, "real", spec)[0], t, seed=seed, callback=CBk())
            a = res.algorithm
        looks = [e["o"]["gen"] for e in ev if e["k"] == "look"]
        ev.append({"k": "end", "next": bool(a.has_next()), "looks": max(looks) if looks else 0})
        if mode == "minimize" and not force_at and seed % 2:
            n1 = len(looks)
            term = build(c, seed, StubIndicator())
            d0, out = dig(term), []
            for _ in range(2):
                res = minimize(prob, make_algo(name, m, "real", spec)[0], term, seed=seed)
                out.append(int(res.algorithm.n_gen))
            ev.append({"k": "reuse", "same": dig(term) == d0, "a": out[0], "b": out[1]})
    _, err = guarded(go, timeout=90)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "run/" + key, "cfg": {"c": c}, "ev": ev, "meta": {"spec": spec, "seed": seed, "err": err}}


def crash(task, why):
    return {"key": "run/" + task[0], "cfg": {"c": task[4]}, "ev": [{"k": "raised", "exc": why}]}


def run_tasks(rng, reps):
    T = []
    for m in (1, 2, 3):
        A = moo_algorithms(m) if m > 1 else soo_algorithms()
        for name in A:
            tr = A[name][1]
            crits = [("gen", G(int(rng.integers(1, 6)))), ("evals", E(int(rng.integers(5, 60)))), ("any", ANY(G(int(rng.integers(3, 7))), E(int(rng.integers(20, 60)))))]
            if m == 1:
                crits += [("all", ALL(G(3), E(30))), ("ftol", ANY(RB(DL("f", [1, 1]), 3), G(12))), ("cvtol", ANY(RB(DL("cv", [0, 1], 0, False), 2), {"k": "fmin", "v": 3}, G(9))), ("feas", ANY({"k": "feasible"}, G(6)))]
            else:
                crits += [("all", ALL(G(3), E(30)))]
            if name.startswith("RVEA"):
                crits = crits[:2]
            if tr.get("slow") or m == 3:
                crits = crits[:2]
            for tag, c in crits:
                for rep in range(reps):
                    con = 0 if tr.get("unconstr") else int(rng.integers(2)) if tag not in ("cvtol", "feas") else 1
                    spec = pspec(n_obj=m, n_var=2, n_ieq=con, feas=["some", "hard", "easy"][int(rng.integers(3))], K=int(rng.choice([6, 60, 400])), pseed=int(rng.integers(1000)))
                    modes = ["minimize", "next"] + (["constructor"] if name not in ("NRBO", "RVEA") and not name.startswith("CMA") and not name.startswith("BIPOP") else []) + (["tuple"] if tag in ("gen", "evals") else [])
                    mode = modes[int(rng.integers(len(modes)))]
                    fa = int(rng.integers(1, 4)) if tag in ("any", "ftol") and rng.integers(2) else 0
                    T.append(("%s/m%d/%s/%s-%d" % (name, m, tag, mode, rep), name, m, spec, c, int(rng.integers(1, 1000)), mode, fa))
    return T


def seconds():
    from pymoo.util.misc import time_to_int
    from pymoo.termination.max_time import TimeBasedTermination
    ev = []
    for h in (0, 1, 2, 11):
        for mi in (0, 1, 59):
            for s in (0, 1, 7, 60):
                forms = ["%02d:%02d:%02d" % (h, mi, s), "%d:%d:%d" % (h, mi, s)] + (["%d:%02d" % (mi, s)] if h == 0 else []) + (["%d" % s] if h == mi == 0 else [])
                for f in forms:
                    ev += [{"k": "secs", "h": h, "m": mi, "s": s, "v": int(time_to_int(f))}, {"k": "secs", "h": h, "m": mi, "s": s, "v": int(TimeBasedTermination(f).max_time)}]
    return {"key": "time-strings", "cfg": {"c": G(1)}, "ev": ev}


def long_ones(rng, n):
    """histories of up to 30 looks, for windows and skips longer than TLC's histories"""
    mb = lambda f, cv, x: {"f": f, "cv": cv, "x": x}
    sets = [[mb(4, 0, 1)], [mb(3, 0, 2)], [mb(1, 0, 2), mb(1, 0, 4)], [mb(0, 0, 0)], [mb(5, 2, 7)], [mb(2, 1, 6)], [mb(4, 0, 1), mb(8, 0, 5)], [mb(-2, 0, 3), mb(3, 0, 4), mb(6, 0, 8)], [mb(4, 3, 1), mb(4, 3, 1)]]
    dl = lambda src, tol, skip, opt: {"k": "delta", "src": src, "tol": tol, "skip": skip, "opt": opt, "w": 8}
    out = []
    for _ in range(n):
        src = str(rng.choice(["f", "cv", "x", "mo"]))
        d = dl(src, [int(rng.integers(0, 2)), int(rng.choice([1, 2, 4, 8]))], int(rng.choice([0, 0, 1, 2, 5])), bool(rng.integers(2)) if src != "x" else True)
        period = int(rng.integers(2, 9))
        c = [d, RB(d, period), RB({"k": "fmin", "v": int(rng.integers(0, 4))}, period), ANY(RB(d, period), G(25)), ALL(RB(d, period), G(3))][int(rng.integers(5))]
        h, ev, a = [], 0, int(rng.integers(9))
        for t in range(1, int(rng.integers(8, 31))):
            if rng.random() < 0.3:
                a = int(rng.integers(9))
            ev += int(rng.integers(1, 4))
            h.append({"op": "look", "o": {"gen": t, "evals": ev, "now": 2 * t, "ind": 1, "constr": True, "m": sets[a]}})
        out.append({"c": c, "h": h})
    return out


def main():
    c = Check("C03")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Depth=%d Big=%s\nVIEW View\nINVARIANT Inv\nPROPERTY ForcedStops\nACTION_CONSTRAINT Out\nCHECK_DEADLOCK FALSE\n"
           % ((6, "FALSE") if THOROUGH else (5, "FALSE")))
    paths = c.paths("MC_Termination", cfg)
    rng = np.random.default_rng(SEED)
    c.notes["histories_from_tlc"] = len(paths)
    lim = 80000 if THOROUGH else 14000
    if len(paths) > lim:
        paths = [paths[i] for i in sorted(rng.choice(len(paths), lim, replace=False))]
    tasks = list(enumerate(paths + long_ones(rng, 4000 if THOROUGH else 600)))
    tr = [x for L in pmap(lambda ch: [replay(t) for t in ch], [tasks[i::NPROC] for i in range(NPROC)]) for x in L]
    c.validate("TermTrace", tr + [seconds()])
    c.validate("TermTrace", pmap(run_one, run_tasks(rng, 3 if THOROUGH else 1), on_crash=crash))
    c.finish(rule="one history per transition of the state graph of MC_Termination (sampled), every optimizer with generation, evaluation, composite and tolerance criteria", exhaustive=False)


if __name__ == "__main__":
    main()
