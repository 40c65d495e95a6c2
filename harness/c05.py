"""C05: environmental selection against Survival.tla (module SurvTrace)."""
from runs import *
from runs import _imp


class TableP(Problem):
    def __init__(self, m, constr):
        super().__init__(n_var=2, n_obj=m, n_ieq_constr=2 if constr else 0, xl=0.0, xu=10.0)

    def __deepcopy__(self, memo):
        return self


class TableQ(Problem):
    """the second constraint is an equality"""

    def __init__(self, m):
        super().__init__(n_var=2, n_obj=m, n_ieq_constr=1, n_eq_constr=1, xl=0.0, xu=10.0)


def build(P, X, sc=None, off=None, gs=1.0):
    """A population with the given table; objectives optionally translated and scaled."""
    F = np.array([m["f"] for m in P], float).reshape(len(P), -1)
    if sc is not None:
        F = F * sc + off
    pop = Population.new("X", np.array(X, float))
    pop.set("F", F)
    pop.set("G", np.array([[float(c) * gs if c else -1.0 for c in m["c"]] for m in P]))
    pop.set("H", np.zeros((len(P), 0)))
    return pop


def survivals():
    """name -> (factory(m), judged kind, objectives it is used for)"""
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding, ConstrRankAndCrowding
    S = {"rc-" + k: ((lambda k: lambda m: RankAndCrowding(crowding_func=k))(k), {"pruning-cd": "pcd", "ce": "attr"}.get(k, k), (2, 3)) for k in ("cd", "pcd", "pruning-cd", "mnn", "2nn", "ce")}
    S["nsga2"] = (lambda m: _imp("moo.nsga2", "RankAndCrowdingSurvival")(), "cd", (2, 3))
    S["constr-rc"] = (lambda m: ConstrRankAndCrowding(), "gde3", (2, 3))
    S["fitness"] = (lambda m: _imp("soo.nonconvex.ga", "FitnessSurvival")(), "fitness", (1,))
    S["fitness-nrbo"] = (lambda m: _imp("soo.nonconvex.nrbo", "FitnessSurvival")(), "fitness", (1,))
    S["spea2"] = (lambda m: _imp("moo.spea2", "SPEA2Survival")(), "spea2", (2, 3))
    S["spea2-norm"] = (lambda m: _imp("moo.spea2", "SPEA2Survival")(normalize=True), "spea2n", (2, 3))
    S["hv"] = (lambda m: _imp("moo.sms", "LeastHypervolumeContributionSurvival")(), "hv", (2, 3))
    S["age"] = (lambda m: _imp("moo.age", "AGEMOEASurvival")(), "age", (2, 3))
    S["age2"] = (lambda m: _imp("moo.age2", "AGEMOEA2Survival")(), "age", (2, 3))
    S["refdir"] = (lambda m: _imp("moo.nsga3", "ReferenceDirectionSurvival")(RD(m, 3)), "fronts", (2, 3))
    S["aspiration"] = (lambda m: _imp("moo.rnsga3", "AspirationPointSurvival")(np.array([[0.5] * m, [1.0] + [0.2] * (m - 1)]), RD(m, 2)), "fronts", (2, 3))
    S["rnsga2"] = (lambda m: _imp("moo.rnsga2", "RankAndModifiedCrowdingSurvival")(np.array([[0.5] * m, [1.0] + [0.2] * (m - 1)]), 0.1, None, "front", False), "attr", (2, 3))
    S["rnsga2-ever"] = (lambda m: _imp("moo.rnsga2", "RankAndModifiedCrowdingSurvival")(np.array([[0.5] * m]), 0.3, None, "ever", True), "attr", (2, 3))
    S["omni"] = (lambda m: _imp("moo.omni", "OmniOptimizerSurvival")(delta=0.0), "attr", (2, 3))
    S["tournament-cd"] = (lambda m: _imp("moo.cmopso", "CrowdingDistanceTournamentSurvival")(), "count", (2, 3))
    S["rvea"] = (lambda m: _imp("moo.rvea", "APDSurvival")(RD(m, 3)), "rvea", (2, 3))
    S["sr"] = (lambda m: _imp("soo.nonconvex.sres", "StochasticRankingSurvival")(0.45), "any", (1,))
    return S


SCALED = {"cd", "pcd", "mnn", "2nn", "hv", "fronts", "fitness", "gde3"}


def attr_codes(pop, name):
    v = [x.get(name) for x in pop]
    v = [np.nan if q is None else float(np.asarray(q).ravel()[0]) for q in v]
    # values that differ by rounding only count as equal
    v = [round(q, 9) if np.isfinite(q) else q for q in v]
    return [int(c) for c in Ranks(v, [0.0])(v)]


def call(task):
    name, m, cases, seed = task
    f, kind, _ = survivals()[name]
    rng = np.random.default_rng(seed)
    ev = []
    for P in cases:
        P = [dict(P[i]) for i in rng.permutation(len(P))]
        for q in P:
            c = q["cv"]
            a = int(rng.integers(0, c + 1))
            q["c"] = [a, c - a]
        X = rng.integers(0, 11, (len(P), 2)).tolist()
        constr = any(q["cv"] for q in P) or name in ("constr-rc", "sr")
        n = int(rng.integers(1, len(P) + 1)) if rng.random() < 0.9 else len(P) + 2
        kd, ref = kind, []
        if kind == "rvea":
            n = len(P)
        F = np.array([q["f"] for q in P if q["cv"] == 0]).reshape(-1, m)
        if kind in ("mnn", "2nn", "pcd") and not all(F[:, k].max(initial=0) > F[:, k].min(initial=0) for k in range(m)):
            kd = "fronts"
        if kind == "hv":
            if len(F) and all(F[:, k].max() > F[:, k].min() for k in range(m)):
                ref = [int(F[:, k].min() + 11 * (F[:, k].max() - F[:, k].min())) for k in range(m)]
            else:
                kd = "fronts"
        sc = off = None
        if kd in SCALED and rng.random() < 0.7:
            if rng.random() < 0.3:
                sc, off = 2.0 ** (int(rng.choice([-40, -30, 30, 40])) + rng.integers(-2, 3, m)), np.zeros(m)
            else:
                sc, off = 2.0 ** rng.integers(-3, 6, m), rng.integers(-20, 20, m).astype(float)
        # constraints in units in which all the violations are tiny or huge
        gs = 2.0 ** int(rng.choice([-40, -30, 30])) if constr and rng.random() < 0.4 else 1.0
        pop = build(P, X, sc, off, gs)
        eq = bool(name == "constr-rc" and gs == 1.0 and rng.random() < 0.4)
        if eq:
            # violated from either side
            pop.set("G", np.array([[float(q["c"][0]) or -1.0] for q in P]))
            pop.set("H", np.array([[float(q["c"][1]) * rng.choice([-1, 1])] for q in P]))
        before = [(id(x), x.X.copy(), x.F.copy()) for x in pop]
        idx = rng.random() < 0.2

        def go():
            from types import SimpleNamespace as N
            s = f(m)
            alg = N(n_gen=3, termination=N(n_max_gen=10), problem=None, survival=s)
            kw = dict(n_survive=n, algorithm=alg, random_state=np.random.default_rng(int(rng.integers(1 << 30))))
            return s.do(TableQ(m) if eq else TableP(m, constr), pop, return_indices=idx, **kw)
        r, err = guarded(go, timeout=20)
        if err:
            ev.append({"k": "raised", "exc": err, "P": P, "n": n})
            continue
        pos = {b[0]: i + 1 for i, b in enumerate(before)}
        R = [int(i) + 1 for i in r] if idx else [pos.get(id(x), 0) for x in r]
        same = len(pop) == len(before) and all(id(x) == b[0] and np.array_equal(x.X, b[1]) and np.array_equal(x.F, b[2]) for x, b in zip(pop, before))
        dens = attr_codes(pop, "crowding") if kd in ("attr", "age") else []
        ev.append({"k": "surv", "kind": kd, "P": P, "n": n, "R": R, "dens": dens, "refpt": ref, "same": same})
    return [{"key": "surv/%s/m%d" % (name, m), "ev": ev[i:i + 100]} for i in range(0, len(ev), 100)]


def clearing(task):
    cases, seed = task
    rng = np.random.default_rng(seed)
    ev = []
    for P in cases:
        P = [dict(P[i], c=[P[i]["cv"], 0]) for i in rng.permutation(len(P))]
        X = rng.integers(0, 11, (len(P), 2)).tolist()
        n = int(rng.integers(1, len(P) + 1))
        eps4 = int(rng.choice([5, 25, 101, 225, 9]))          # (2 * 10 * epsilon)^2, never hit exactly
        pop = build(P, X)
        pos = {id(x): i + 1 for i, x in enumerate(pop)}
        byd = rng.random() < 0.3
        nm = None

        def go():
            e = np.sqrt(eps4 - 1e-3) / 20.0
            s = _imp("soo.nonconvex.ga_niching", "EpsilonClearingSurvival")(e / np.sqrt(2) if byd else e, n_max_each_iter=nm, norm_by_dim=byd)
            return s.do(TableP(1, True), pop, n_survive=n, random_state=np.random.default_rng(1))
        r, err = guarded(go, timeout=20)
        ev.append({"k": "raised", "exc": err} if err else {"k": "clear", "P": P, "X": X, "n": n, "eps4": eps4, "R": [pos.get(id(x), 0) for x in r], "iter": [int(x.get("iter")) for x in r]})
    return [{"key": "clearing", "ev": ev}]


RUN = {"NSGA2": "cd", "NSGA2-off4": "cd", "NSGA2-off1": "cd", "NSGA2-dup": "cd", "NSGA3": "fronts", "UNSGA3": "fronts", "RNSGA2": "attr", "RNSGA3": "fronts", "CTAEA": "ctaea",
       "SPEA2": "spea2n", "SPEA2-raw": "spea2", "SMSEMOA": "hv", "AGEMOEA": "age", "AGEMOEA2": "age", "OmniOptimizer": "attr1", "NSDE": "cd", "GDE3": "gcd", "GDE3MNN": "gfronts", "GDE3PCD": "gpcd", "GDE32NN": "gfronts",
       "NSDER": "fronts", "CMOPSO": "spea2", "RVEA": "rvea", "GA": "fitness", "GA-off1": "fitness"}


def run_one(task):
    name, m, spec, gens, seed = task
    kind = RUN[name]
    prob = RecProblem(spec)
    ev = []

    def go():
        algo, _ = make_algo(name.split("-raw")[0], m, "real", spec)
        if name == "SPEA2-raw":
            algo.survival = survivals()["spea2"][0](m)
        algo.setup(prob, termination=gen_termination(gens), seed=seed, verbose=False)
        while algo.has_next():
            prev = [] if algo.pop is None or algo.n_iter == 1 else list(members(algo.pop))
            inf = algo.ask()
            algo.evaluator.eval(prob, inf)
            cand = prev + list(inf)
            vals = [(x.X.copy(), x.F.copy()) for x in cand]
            n = algo.pop_size
            algo.tell(infills=inf)
            pos = {}
            for i, x in enumerate(cand):
                pos.setdefault(id(x), i + 1)
            P = []
            for x in cand:
                f, g, h = prob.fn(x.X)
                c = [int(max(0, v)) for v in g] + [int(abs(v)) for v in h]
                P.append({"f": [int(v) for v in f], "cv": float(x.CV[0]), "c": c or [0]})
            rk = Ranks([p["cv"] for p in P] + [0.0])
            for p in P:        # violations by their order only (sums of the same amounts may differ by rounding)
                p["cv"] = int(rk(p["cv"])) - int(rk(0.0))
            R = [pos.get(id(x), 0) for x in members(algo.pop)]
            if not prev and kind == "fitness":
                continue
            kd, ref = kind, []
            if not prev and kind not in ("fitness", "rvea", "ctaea", "spea2", "spea2n") and not kind.startswith("g"):
                kd = "fronts"
            if kind == "hv" and prev:
                Fp = np.array([x.F for x in prev])
                lo, hi = Fp.min(axis=0), Fp.max(axis=0)
                ref = [int(a + 11 * (b - a)) for a, b in zip(lo, hi)]
                if not (hi > lo).all():
                    kd = "fronts"
            dens = []
            if kd in ("attr", "attr1", "age"):
                dens = attr_codes(cand, "crowding")
                kd = "attr" if kd == "attr1" else kd
                if any(np.isnan(q) for q in [np.nan if x.get("crowding") is None else float(np.ravel(x.get("crowding"))[0]) for x in cand]):
                    kd = "fronts"
            same = all(np.array_equal(x.X, v[0]) and np.array_equal(x.F, v[1]) for x, v in zip(cand, vals))
            if kd.startswith("g"):
                if prev:
                    ev.append({"k": "pairs", "kind": kd[1:], "P": P, "n": n, "R": R})
                continue
            ev.append({"k": "surv", "kind": kd, "P": P, "n": n, "R": R, "dens": dens, "refpt": ref, "same": same})
    _, err = guarded(go, timeout=90)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "run/%s/m%d/%s" % (name, m, spec["tag"]), "ev": ev, "meta": {"spec": spec, "seed": seed, "err": err}}


def crash1(task, why):
    return [{"key": "surv/%s/m%d" % (task[0], task[1]), "ev": [{"k": "raised", "exc": why}]}]


def crash(task, why):
    return {"key": "run/%s/m%d/%s" % (task[0], task[1], task[2]["tag"]), "ev": [{"k": "raised", "exc": why}]}


def main():
    c = Check("C05")
    rng = np.random.default_rng(SEED)
    cases = {1: [], 2: [], 3: []}
    for m, n, v, cv, fe in [(1, 4, 2, 2, "FALSE"), (2, 3, 2, 1, "FALSE"), (2, 4, 3, 0, "TRUE"), (2, 4, 1, 2, "FALSE"), (3, 3, 1, 1, "FALSE"), (3, 4, 1, 0, "TRUE")] + ([(2, 5, 2, 0, "TRUE"), (3, 4, 2, 0, "TRUE")] if THOROUGH else []):
        out = c.model_check("MC_Survival", "SPECIFICATION Spec\nCONSTANTS N=%d M=%d MaxVal=%d MaxCV=%d Feasible=%s\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (n, m, v, cv, fe))
        cases[m] += [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"CASE ')]
    c.notes["populations_from_tlc"] = {str(k): len(v) for k, v in cases.items()}
    lim = 1500 if THOROUGH else 160
    T = []
    for name, (_, kind, ms) in survivals().items():
        for m in ms:
            L = [cases[m][i] for i in rng.permutation(len(cases[m]))[:lim]]
            # larger fronts: points on integer trade-off surfaces (mutually non-dominated), some infeasible, some dominated
            for _ in range(lim // 2):
                nn, v = int(rng.integers(5, 10)), 9 if m == 2 else 4
                if kind in ("mnn", "2nn") and m == 3:
                    v = 2
                P = []
                for _ in range(nn):
                    if m == 1:
                        f = [int(rng.integers(0, 6))]
                    else:
                        cut = np.sort(rng.integers(0, v + 1, m - 1))
                        f = np.diff(np.concatenate([[0], cut, [v]])).tolist()
                        if m == 2 and rng.random() < 0.5:      # convex trade-off with different gaps
                            f = [int(f[0]), int((v - f[0]) ** 2 // v)]
                        if rng.random() < 0.15:
                            f = [int(x + rng.integers(0, 2)) for x in f]
                    cvv = int(rng.integers(1, 4)) if rng.random() < 0.2 else 0
                    P.append({"f": [int(x) for x in f], "cv": cvv, "c": [cvv]})
                L.append(P)
            T.append((name, m, L, int(rng.integers(1 << 30))))
    tr = [x for L in pmap(call, T, on_crash=crash1) for x in L]
    tr += [x for L in pmap(clearing, [([P for P in T0[2]], int(rng.integers(1 << 30))) for T0 in T if T0[0] == "fitness"], on_crash=lambda t, w: [{"key": "clearing", "ev": [{"k": "raised", "exc": w}]}]) for x in L]
    c.validate("SurvTrace", tr)
    R = []
    for name in RUN:
        ms = (1,) if RUN[name] == "fitness" else (2, 3)
        for m in ms:
            for con in (0, 1, 2):
                for rep in range(3 if THOROUGH else 1):
                    feas = ["some", "some", "hard"][con]
                    K = 40 if RUN[name] == "hv" or m == 3 else int(rng.choice([12, 400]))
                    if RUN[name] == "gpcd":
                        K = 400
                    spec = pspec(n_obj=m, n_var=int(rng.integers(2, 4)), n_ieq=min(con, 1) * 2, n_eq=int(con == 2), feas=feas, K=K, pseed=int(rng.integers(1000)))
                    spec["tag"] = "con%d-%d" % (con, rep)
                    R.append((name, m, spec, 5, int(rng.integers(1, 10000))))
    c.validate("SurvTrace", pmap(run_one, R, on_crash=crash))
    c.finish(rule="populations enumerated by MC_Survival and random trade-off fronts through every survival operator, every generation of seeded runs", exhaustive=False)


if __name__ == "__main__":
    main()
