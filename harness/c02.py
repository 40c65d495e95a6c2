"""C02: evaluation bookkeeping, against Evaluator.tla (module EvalTrace)."""
from runs import *
from pymoo.core.evaluator import Evaluator


class Boom(Exception):
    pass


def mkproblem(kind, log, ctl):
    """F = 10x+1, G = 10x+2, H = 10x+3 for the abstract row x; may raise at a given row."""
    base = dict(n_obj=1, n_ieq_constr=1, n_eq_constr=1)

    def num(x):
        return int(round(x["a"] if isinstance(x, dict) else x[0]))

    def vals(x):
        return 10 * x + 1, 10 * x + 2, 10 * x + 3
    if kind in ("elementwise", "mixed"):
        class P(ElementwiseProblem):
            def _evaluate(self, x, out, *a, **k):
                log.append(num(x))
                if ctl["fail"] and len(log) == ctl["fail"]:
                    raise Boom()
                out["F"], out["G"], out["H"] = vals(num(x))
        if kind == "mixed":
            from pymoo.core.variable import Integer, Choice
            return P(vars={"a": Integer(bounds=(0, 9)), "b": Choice(options=["u", "v"])}, **base)
        return P(n_var=2, xl=0, xu=9, **base)

    class Q(Problem):
        def _evaluate(self, X, out, *a, **k):
            log.extend(num(x) for x in X)
            if ctl["fail"]:
                raise Boom()
            n = np.array([num(x) for x in X])
            if kind == "lazy":        # provides only what was asked for
                for key, v in zip("FGH", vals(n)):
                    if key in out:
                        out[key] = v[:, None]
            else:
                out["F"], out["G"], out["H"] = [v[:, None] for v in vals(n)]
    return Q(n_var=2, xl=0, xu=9, **base)


def replay(task):
    i, path, kind = task
    N = 3
    log, ctl = [], {"fail": 0}
    prob = mkproblem(kind, log, ctl)
    ev = Evaluator()
    xv = lambda v: {"a": v, "b": "u"} if kind == "mixed" else np.array([float(v), 0.5])
    pool = [Individual(X=xv(i + 1)) for i in range(N)]
    num = lambda ind: int(ind.X["a"] if kind == "mixed" else ind.X[0])

    def obs():
        g = lambda ind, k: int(ind.get(k)[0]) if len(ind.get(k)) else 0
        return {"x": [num(p) for p in pool], "mark": [sorted(k for k in p.evaluated if k in ("F", "G", "H")) for p in pool],
                "val": [{k: g(p, k) for k in "FGH"} for p in pool], "n": ev.n_eval}
    init, out = obs(), []
    for o in path:
        e = {"k": "op", "o": dict(o), "rows": [], "raised": False, "same": True, "looped": kind in ("elementwise", "mixed")}
        if o["op"] == "eval":
            log.clear()
            ctl["fail"] = o["fail"]
            single = len(o["idx"]) == 1
            arg = pool[o["idx"][0] - 1] if single else Population.create(*[pool[j - 1] for j in o["idx"]])
            before = list(arg) if not single else [arg]
            kw = dict(skip_already_evaluated=o["skip"], count_evals=o["count"])
            kw["evaluate_values_of"] = list(o["want"])
            if o["skip"] and i % 2:
                kw.pop("skip_already_evaluated")
            if o["count"] and i % 2:
                kw.pop("count_evals")
            if len(o["want"]) == 3 and i % 2:
                kw.pop("evaluate_values_of")
            try:
                r = ev.eval(prob, arg, **kw)
                e["same"] = (r is arg) if single else (len(r) == len(before) and all(a is b for a, b in zip(r, before)))
            except Boom:
                e["raised"] = True
            except Exception:
                e["raised"] = not e["raised"] and o["fail"] == 0 or o["fail"] > 0
            ctl["fail"] = 0
            e["rows"] = list(log)
        elif o["op"] == "poison":
            p = pool[o["i"] - 1]
            for k in o["want"]:
                p.set(k, np.array([900.0 + 10 * o["i"] + {"F": 1, "G": 2, "H": 3}[k]]))
            p.evaluated.update(o["want"])
        elif o["op"] == "reset":
            p = pool[o["i"] - 1]
            p.reset()
            p.X = xv(o["x"])
        elif o["op"] == "copy":
            pool[o["j"] - 1] = pool[o["i"] - 1].copy()
        e["post"] = obs()
        out.append(e)
    return {"key": "ops/%s/%d" % (kind, i), "cfg": {"init": init}, "ev": out}


# ------------------------------------------------------------------------------------------ whole runs
def sols(prob, pop, ids):
    out = []
    for ind in members(pop) if pop is not None else []:
        F, G, H = prob.fn(ind.X)
        want = [F] + ([G] if prob.n_ieq_constr else []) + ([H] if prob.n_eq_constr else [])
        has = [ind.F] + ([ind.G] if prob.n_ieq_constr else []) + ([ind.H] if prob.n_eq_constr else [])
        out.append({"marked": "F" in ind.evaluated, "has": ids.row(np.concatenate([np.asarray(v, float) for v in has])), "want": ids.row(np.concatenate([np.asarray(v, float) for v in want]))})
    return out


def run_one(task):
    name, m, spec, n, seed, kind = task
    key = "run/%s/m%d/%s/%s" % (name, m, kind, spec["tag"])
    ids, ev = Ids(), []
    prob = RecElementwise(spec) if kind == "elementwise" else RecProblem(spec)
    prob.on_eval = lambda X: ev.append({"k": "eval", "rows": len(X)})

    class CBk(Callback):
        def notify(self, a):
            ev.append({"k": "look", "n_eval": a.evaluator.n_eval, "sols": sols(prob, a.pop, ids) + sols(prob, a.opt, ids) + sols(prob, a.off, ids)})
    algo, tr = make_algo(name, m, spec.get("vtype", "real"), spec)
    if kind == "epsilon":
        from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
        algo = AdaptiveEpsilonConstraintHandling(algo, perc_eps_until=0.5)
    loop = is_loopwise(algo)

    def go():
        from pymoo.optimize import minimize
        res = minimize(prob, algo, gen_termination(n), seed=seed, callback=CBk(), copy_algorithm=False)
        ev.append({"k": "look", "n_eval": res.algorithm.evaluator.n_eval, "sols": sols(prob, res.pop, ids) + sols(prob, res.opt, ids)})
    _, err = guarded(go, timeout=90)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": key, "cfg": {"z": 0}, "ev": ev, "meta": {"spec": spec, "seed": seed, "err": err}}


def crash(task, why):
    return {"key": "run/%s/m%d/%s/%s" % (task[0], task[1], task[5], task[2]["tag"]), "cfg": {"z": 0}, "ev": [{"k": "raised", "exc": why}]}


def run_tasks(rng, reps):
    T = []
    for m in (1, 2, 3):
        A = moo_algorithms(m) if m > 1 else soo_algorithms()
        for name in A:
            tr = A[name][1]
            for con in ((0,) if tr.get("unconstr") else (0, 1)):
                for rep in range(reps):
                    spec = pspec(n_obj=m, n_var=int(rng.integers(2, 4)), n_ieq=2 * con, n_eq=con * int(rng.integers(2)), feas=["some", "easy"][int(rng.integers(2))],
                                 K=int(rng.choice([8, 1000])), box=["unit", "skew"][int(rng.integers(2))], pseed=int(rng.integers(1000)))
                    spec["tag"] = "con%d-%d" % (con, rep)
                    T.append((name, m, spec, int(rng.integers(4, 7)), int(rng.integers(1, 10000)), "elementwise" if rng.integers(3) == 0 and "int" != spec["vtype"] else "vector"))
    for vt, box in (("int", "grid"), ("bool", "bin")):
        for m in (1, 2):
            for name in (moo_algorithms(m, vt) if m > 1 else soo_algorithms(vt)):
                spec = pspec(n_obj=m, n_var=5, vtype=vt, box=box, pseed=int(rng.integers(1000)))
                spec["tag"] = vt
                T.append((name, m, spec, 6, int(rng.integers(1, 10000)), "vector"))
    for name in ("GA", "DE/rand/1/exp", "PSO", "ES", "NelderMead", "PatternSearch", "EPPSO", "SRES"):
        spec = pspec(n_obj=1, n_ieq=2, n_eq=1, feas="hard", pseed=5)
        spec["tag"] = "eps"
        T.append((name, 1, spec, 5, 3, "epsilon"))
    return T


def main():
    c = Check("C02")
    cfg = ("SPECIFICATION Spec\nCONSTANTS N=3 Depth=%d Big=%s\nVIEW View\nINVARIANT Inv\nPROPERTY CanonicalAllowed\n"
           "ACTION_CONSTRAINT Out\nCHECK_DEADLOCK FALSE\n" % (3 if THOROUGH else 3, "TRUE" if THOROUGH else "FALSE"))
    paths = c.paths("MC_Evaluator", cfg)
    rng = np.random.default_rng(SEED)
    c.notes["histories_from_tlc"] = len(paths)
    lim = 40000 if THOROUGH else 9000
    if len(paths) > lim:
        paths = [paths[i] for i in sorted(rng.choice(len(paths), lim, replace=False))]
    kinds = ["vector", "elementwise", "mixed", "lazy"]
    tasks = [(i, p, kinds[i % 4]) for i, p in enumerate(paths)]
    tr = [x for L in pmap(lambda ch: [replay(t) for t in ch], [tasks[i::NPROC] for i in range(NPROC)]) for x in L]
    c.validate("EvalTrace", tr)
    c.validate("EvalTrace", pmap(run_one, run_tasks(rng, 3 if THOROUGH else 1), on_crash=crash))
    c.finish(rule="histories: one per transition of the abstract state graph of MC_Evaluator, on four kinds of problems; runs: every optimizer", exhaustive=False)


if __name__ == "__main__":
    main()
