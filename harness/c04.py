"""C04: the reported optimum, against Optimum.tla (module OptTrace)."""
from runs import *
from pymoo.util.optimum import filter_optimum

STYLE = {"NSGA3": "some", "UNSGA3": "some", "RNSGA3": "some", "NicheGA": "niche", "NSDER": "some", "RVEA": "whole", "MOPSO_CD": "arch",
         "CMAES": "sofar", "BIPOPCMAES": "sofar", "SimpleCMAES": "sofar", "ES": "sofar", "SRES": "sofar", "ISRES": "sofar", "PatternSearch": "sofar"}


def table(prob, *pops):
    """Members of several populations as one table; positions per population."""
    P, pos, idx = [], {}, []
    for pop in pops:
        L = []
        for x in members(pop):
            if id(x) not in pos:
                P.append({"f": [int(v) for v in x.F], "cv": cvint(prob, x)})
                pos[id(x)] = len(P)
            L.append(pos[id(x)])
        idx.append(L)
    return P, idx


def cvint(prob, x):
    """The violation by the problem's own constraint values (integers), in units of a ten-thousandth."""
    F, G, H = prob.fn(x.X)
    return int(round(sum(max(0.0, g) for g in G) * 1e4 + sum(max(0.0, abs(h) - 1e-4) for h in H) * 1e4))


class TableProblem(Problem):
    """x = position in a table of (f, cv)."""

    def __init__(self, P):
        self.P = P
        super().__init__(n_var=1, n_obj=len(P[0]["f"]), n_ieq_constr=1, xl=0.0, xu=float(max(1, len(P) - 1)))

    def __deepcopy__(self, memo):
        return self

    def fn(self, x):
        m = self.P[int(np.clip(round(float(x[0])), 0, len(self.P) - 1))]
        return [float(v) for v in m["f"]], [float(m["cv"]) if m["cv"] else -1.0], []

    def _evaluate(self, X, out, *args, **kwargs):
        V = [self.fn(x) for x in X]
        out["F"] = np.array([v[0] for v in V])
        out["G"] = np.array([v[1] for v in V])


def mkpop(P):
    pop = Population.new("X", np.arange(len(P), dtype=float)[:, None])
    pop.set("F", np.array([m["f"] for m in P], float).reshape(len(P), -1))
    pop.set("G", np.array([[float(m["cv"]) if m["cv"] else -1.0] for m in P]))
    return pop


def filters(task):
    tag, cases, seed = task
    rng = np.random.default_rng(seed)
    ev = []
    for P in cases:
        P = [P[i] for i in rng.permutation(len(P))]
        for least in (False, True):
            pop = mkpop(P)
            before = [id(x) for x in pop]
            r, err = guarded(lambda: filter_optimum(pop, least_infeasible=least))
            if err:
                ev.append({"k": "raised", "exc": err, "P": P})
                continue
            pos = {b: i + 1 for i, b in enumerate(before)}
            ev.append({"k": "filter", "P": P, "least": least, "R": [0] if r is None else [pos.get(id(x), -1) for x in r],
                       "same": [id(x) for x in pop] == before and all(list(x.F) == [float(v) for v in m["f"]] for x, m in zip(pop, P))})
    return [{"key": "filter/" + tag, "ev": ev[i:i + 200]} for i in range(0, len(ev), 200)]


def observe(prob, algo, ev, prev):
    P, (pop, opt, pv) = table(prob, algo.pop, algo.opt, prev)
    ev.append({"k": "gen", "P": P, "pop": pop, "opt": opt, "prev": pv})
    return list(members(algo.opt))


def resevent(prob, algo, res, least, opt=None):
    P, (o, ro) = table(prob, algo.opt if opt is None else opt, res.opt)
    ids = Ids()
    allm = {}
    for x in list(members(algo.opt if opt is None else opt)) + list(members(res.opt)):
        allm[id(x)] = x
    order = []
    for x in allm.values():
        order.append({"x": ids.row(x.X), "f": ids.row(x.F), "g": ids.row(x.G), "h": ids.row(x.H)})
    none = res.X is None and res.F is None and res.CV is None and res.G is None and res.H is None
    some = res.X is not None and res.F is not None
    n = len(members(res.opt))

    def rows(v, w):
        if v is None:
            return []
        v = np.asarray(v, float)
        return [ids.row(v)] if v.ndim == 1 and n == 1 else [ids.row(q) for q in v]
    msg = str(res.message)
    code = ("ok" if "successfully" in msg else "empty" if "empty" in msg else "least" if "least" in msg else "infeasible" if "No feasible" in msg else "other")
    r = {"opt": ro if n else [0], "none": none, "success": bool(res.success), "msg": code}
    r.update(x=rows(res.X, 1), f=rows(res.F, 1), g=rows(res.G, 1), h=rows(res.H, 1))
    if not none and not some:
        return {"k": "raised", "exc": "result half empty"}
    return {"k": "res", "P": P, "opt": o, "least": least, "ids": order, "r": r}


def initials(task):
    """Optimizers whose first population is one enumerated by TLC."""
    name, m, cases, seed = task
    ev = []
    for P in cases:
        prob = TableProblem(P)
        least = bool(len(ev) % 2)

        def go():
            from pymoo.optimize import minimize
            kw = dict(sampling=np.arange(len(P), dtype=float)[:, None])
            a = make_small(name, m, len(P), kw)

            class CBk(Callback):
                prev = None

                def notify(self, al):
                    self.prev = observe(prob, al, ev, self.prev)
            res = minimize(prob, a, gen_termination(2), seed=seed, callback=CBk(), return_least_infeasible=least)
            ev.append(resevent(prob, res.algorithm, res, least))
        _, err = guarded(go, timeout=40)
        if err:
            ev.append({"k": "raised", "exc": err, "P": P})
    return [{"key": "initial/%s/m%d" % (name, m), "cfg": {"style": STYLE.get(name, "exact")}, "ev": ev}]


SMALL = {1: ["GA", "DE", "PSO", "NicheGA", "BRKGA"], 2: ["NSGA2", "SPEA2", "NSGA3", "AGEMOEA", "SMSEMOA", "NSDE", "GDE3", "CMOPSO", "AGEMOEA2", "RVEA", "CTAEA"]}


def make_small(name, m, n, kw):
    if name in ("NSGA3", "RVEA", "CTAEA"):
        rd = RD(2, n - 1)
        k = dict(kw) if name == "CTAEA" else dict(kw, pop_size=n)
        return _imp({"NSGA3": "moo.nsga3", "RVEA": "moo.rvea", "CTAEA": "moo.ctaea"}[name], name)(rd, **k)
    if name == "BRKGA":
        return _imp("soo.nonconvex.brkga", "BRKGA")(n_elites=max(1, n - 2), n_offsprings=1, n_mutants=1, **kw)
    mod = {"GA": "soo.nonconvex.ga", "DE": "soo.nonconvex.de", "PSO": "soo.nonconvex.pso", "NicheGA": "soo.nonconvex.ga_niching", "NSGA2": "moo.nsga2", "SPEA2": "moo.spea2",
           "AGEMOEA": "moo.age", "SMSEMOA": "moo.sms", "NSDE": "moo.nsde", "GDE3": "moo.gde3", "CMOPSO": "moo.cmopso", "AGEMOEA2": "moo.age2"}[name]
    return _imp(mod, name)(pop_size=n, **kw, **({"elite_size": 2} if name == "CMOPSO" else {}))


from runs import _imp  # noqa


def run_one(task):
    name, m, spec, n, seed, kind = task
    ev = []
    prob = RecProblem(spec)
    style = STYLE.get(name, "exact")

    class CBk(Callback):
        prev, opt = None, None

        def notify(self, al):
            self.prev = observe(prob, al, ev, self.prev)
    algo, tr = make_algo(name, m, spec.get("vtype", "real"), spec)
    least = bool(seed % 2)
    hist = bool(seed % 3 == 0)

    def go():
        from pymoo.optimize import minimize
        res = minimize(prob, algo, gen_termination(n), seed=seed, callback=CBk(), copy_algorithm=False, return_least_infeasible=least, save_history=hist)
        ev.append(resevent(prob, res.algorithm, res, least))
        prev = None
        for h in res.history or []:
            prev = observe(prob, h, ev, prev)
            hr = h.result()
            ev.append(resevent(prob, h, hr, least))
            prev = prev if style == "sofar" else None
            if style == "sofar":
                prev = None
                ev.pop(-2)
    _, err = guarded(go, timeout=90)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "run/%s/m%d/%s" % (name, m, spec["tag"]), "cfg": {"style": style}, "ev": ev, "meta": {"spec": spec, "seed": seed, "err": err}}


def crash(task, why):
    return {"key": "run/%s/m%d/%s" % (task[0], task[1], task[2]["tag"]), "cfg": {"style": "exact"}, "ev": [{"k": "raised", "exc": why}]}


def run_tasks(rng, reps):
    T = []
    for m in (1, 2, 3):
        A = moo_algorithms(m) if m > 1 else soo_algorithms()
        for name in A:
            tr = A[name][1]
            for con in ((0,) if tr.get("unconstr") else (0, 1, 2, 3)):
                for rep in range(reps):
                    feas = ["some", "some", "hard", "never"][con]
                    spec = pspec(n_obj=m, n_var=int(rng.integers(2, 4)), n_ieq=min(con, 1) * 2, n_eq=int(con == 2), feas=feas, K=int(rng.choice([4, 12, 400])), pseed=int(rng.integers(1000)))
                    spec["tag"] = "%s-con%d-%d" % (feas, con, rep)
                    T.append((name, m, spec, int(rng.integers(3, 7)), int(rng.integers(1, 10000)), "vector"))
    return T


def main():
    c = Check("C04")
    rng = np.random.default_rng(SEED)
    cases = {}
    for m, n, v, cv in [(1, 3, 2, 2), (1, 4, 2, 1), (2, 2, 2, 1), (2, 3, 2, 1), (2, 4, 1, 1), (3, 3, 1, 1)] + ([(2, 4, 2, 1), (3, 4, 1, 1), (1, 5, 2, 2)] if THOROUGH else []):
        out = c.model_check("MC_Optimum", "SPECIFICATION Spec\nCONSTANTS N=%d M=%d MaxVal=%d MaxCV=%d\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (n, m, v, cv))
        cases[(m, n, v, cv)] = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"CASE ')]
    tasks, small = [], []
    for k, L in cases.items():
        for i in range(0, len(L), 400):
            tasks.append(("m%d-n%d-v%d-c%d" % k, L[i:i + 400], int(rng.integers(1 << 30))))
    lim = 150 if THOROUGH else 25
    for name in SMALL[1]:
        L = cases[(1, 4, 2, 1)]
        small.append((name, 1, [L[i] for i in rng.permutation(len(L))[:lim]], 3))
    for name in SMALL[2]:
        L = cases[(2, 4, 1, 1)]
        small.append((name, 2, [L[i] for i in rng.permutation(len(L))[:lim]], 3))
    c.notes["populations_from_tlc"] = sum(len(L) for L in cases.values())
    tr = [x for L in pmap(filters, tasks) for x in L]
    tr += [x for L in pmap(initials, small, on_crash=lambda t, w: [{"key": "initial/%s/m%d" % (t[0], t[1]), "cfg": {"style": "exact"}, "ev": [{"k": "raised", "exc": w}]}]) for x in L]
    c.validate("OptTrace", tr)
    c.validate("OptTrace", pmap(run_one, run_tasks(rng, 3 if THOROUGH else 1), on_crash=crash))
    c.finish(rule="every population enumerated by MC_Optimum through the filter, sampled ones as first generation of optimizers, every optimizer in seeded runs with and without feasible solutions", exhaustive=False)


if __name__ == "__main__":
    main()
