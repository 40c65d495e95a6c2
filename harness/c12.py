"""C12: replacement, memories and best-so-far. Replace.tla (modules MC_Replace, ReplTrace)."""
from runs import *
from runs import _imp
from zoo import ZooProblem, configurations
from pymoo.core.replacement import ImprovementReplacement, hierarchical_sort, is_better, parameter_less
from pymoo.core.survival import ToReplacement
from pymoo.util import misc


class TableP(Problem):
    def __init__(self, constr):
        super().__init__(n_var=1, n_obj=1, n_ieq_constr=1 if constr else 0, n_eq_constr=1 if constr == 2 else 0, xl=-1.0, xu=9.0)


def build(sols, constr, fs=1.0, gs=1.0, fo=0.0, xs=1.0):
    pop = Population.new("X", np.array([[float(s["x"]) * xs] for s in sols]).reshape(len(sols), 1))
    pop.set("F", np.array([[s["f"] * fs + fo] for s in sols]).reshape(len(sols), 1))
    # a violation comes from the inequality or from the equality
    if constr == 2:
        pop.set("G", np.array([[s["cv"] * gs if s["cv"] and s["x"] % 2 else -gs] for s in sols]).reshape(len(sols), 1))
        pop.set("H", np.array([[0.0 if not s["cv"] or s["x"] % 2 else (s["cv"] * gs + 1e-4) * (1 if s["f"] else -1)] for s in sols]).reshape(len(sols), 1))
    else:
        pop.set("G", np.array([[s["cv"] * gs if s["cv"] else -gs] for s in sols]).reshape(len(sols), 1) if constr else np.zeros((len(sols), 0)))
        pop.set("H", np.zeros((len(sols), 0)))
    return pop


def table(task):
    cases, seed, mode = task
    rng = np.random.default_rng(seed)
    ev = []
    for c in cases:
        S = lambda q: [{"x": x, "cv": c["val"][x - 1][0], "f": c["val"][x - 1][1]} for x in q]
        P, O = S(c["pop"]), S(c["off"])
        free = all(s["cv"] == 0 for s in P + O)
        constr = 0 if free and rng.random() < 0.5 else 1 + int(rng.integers(0, 2))
        big = constr != 2
        fs, gs = (2.0 ** int(rng.choice([-30, 0, 0, 30])) for _ in range(2))
        fo = float(rng.choice([0.0, -3.0, 50.0])) if fs == 1.0 else 0.0
        gs = gs if big else 1.0
        prob = TableP(constr)
        # different places may be very close to each other
        xs = 2.0 ** int(rng.choice([-40, -27, 0, 0]))
        pop, off = build(P, constr, fs, gs, fo, xs), build(O, constr, fs, gs, fo, xs)
        at = {id(x): i + 1 for i, x in enumerate(pop)}
        at.update({id(x): -(i + 1) for i, x in enumerate(off)})
        codes = lambda Q: [at.get(id(x), 0) for x in Q]
        before = codes(pop)

        def go():
            e = {"k": "repl", "pop": P, "off": O, "R": [], "after": [], "same": True}
            if mode == "indices":
                I = ImprovementReplacement().do(prob, pop, off, return_indices=True)
                R = [int(i) + 1 for i in np.arange(len(P))[I]]
                e.update(R=R, after=[-(i + 1) if i + 1 in R else i + 1 for i in range(len(P))], same=codes(pop) == before)
            elif mode == "copy":
                Q = codes(ImprovementReplacement().do(prob, pop, off))
                e.update(R=[i + 1 for i, q in enumerate(Q) if q < 0], after=Q, same=codes(pop) == before)
            elif mode == "inplace":
                Q = ImprovementReplacement().do(prob, pop, off, inplace=True)
                e.update(R=[i + 1 for i, q in enumerate(codes(Q)) if q < 0], after=codes(Q), same=Q is pop)
            elif mode == "merged":
                both = Population.merge(pop, off)
                Q = codes(ImprovementReplacement().do(prob, both, len(pop)))
                e.update(R=[i + 1 for i, q in enumerate(Q) if q < 0], after=Q, same=codes(both) == before + codes(off))
            elif mode == "individual":
                e.update(pop=P[:1], off=O[:1])
                Q = codes(ImprovementReplacement().do(prob, pop[0], off[0]))
                e.update(R=[i + 1 for i, q in enumerate(Q) if q < 0], after=Q, same=True)
            elif mode == "to":
                Q = codes(ToReplacement(_imp("soo.nonconvex.ga", "FitnessSurvival")()).do(prob, pop, off, random_state=rng))
                e = {"k": "torepl", "pop": P, "off": O, "R": [i + 1 for i, q in enumerate(Q) if q < 0], "after": Q}
            elif mode == "better":
                eps = int(rng.integers(0, 2))
                A, B = build(P, constr), build(O, constr)
                e = {"k": "better", "a": P[0], "b": O[0], "eps": eps, "res": bool(is_better(A[0], B[0], eps=float(eps)) if eps or rng.random() < 0.5 else is_better(A[0], B[0]))}
            return e
        e, err = guarded(go)
        ev.append({"k": "raised", "exc": err, "pop": P, "off": O} if err else e)
    return {"key": "table/" + mode, "ev": ev}


def penalty(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        k = int(rng.integers(1, 8))
        P = [{"x": i, "cv": int(max(0, rng.integers(-3, 5))), "f": int(rng.integers(-6, 7))} for i in range(k)]
        f, cv = np.array([float(p["f"]) for p in P]), np.array([float(p["cv"]) for p in P])
        for name, fn in (("flat", lambda: parameter_less(f, cv)), ("matrix", lambda: misc.parameter_less(f[:, None], cv[:, None])[:, 0]),
                         ("constraints", lambda: misc.parameter_less_constraints(f.copy(), cv)), ("fmax", lambda: misc.parameter_less(f[:, None], cv[:, None], fmax=10.0)[:, 0])):
            r, err = guarded(fn)
            same = np.array_equal(f, [p["f"] for p in P]) and np.array_equal(cv, [p["cv"] for p in P])
            ev.append({"k": "raised", "exc": err or "input changed"} if err or not same else {"k": "less", "P": P, "v": [int(x) for x in r], "fn": name})
        for c, Q in ((cv, P), (None, [dict(p, cv=0) for p in P])):
            r, err = guarded(lambda: hierarchical_sort(f, c))
            ev.append({"k": "raised", "exc": err} if err else {"k": "sorted", "P": Q, "I": [int(i) + 1 for i in r]})
    return {"key": "penalty", "ev": ev}


# optimizers in which offspring compete with one member each, and where the swarm keeps its memories
ONE = ("DE/", "DE-", "NRBO", "PSO", "EPPSO")
SWARM = ("PSO", "EPPSO")
# what is reported is the best of everything ever evaluated
FULL = {"GA", "GA-off1", "DE/best/1/bin", "DE/rand/1/exp", "DE/rand/2/bin", "DE-off5", "PSO", "PSO-noadapt", "EPPSO", "EPPSO-ring", "NRBO", "BRKGA", "NelderMead", "NelderMead-x0",
        "PatternSearch", "CMAES", "BIPOPCMAES", "SimpleCMAES", "DIRECT", "G3PCX", "RandomSearch", "ES"}


def run(task):
    name, spec, gens, seed = task
    prob = RecProblem(spec)
    raw, ids = [], Ids()
    vals = lambda p: [(ids.row(x.X), float(x.CV[0]), float(x.F[0])) for x in members(p)]

    def go():
        algo, tr = make_algo(name, 1, "real", spec)
        algo.setup(prob, termination=gen_termination(gens), seed=seed, verbose=False)
        steps, fresh, gen = 0, [], 0
        while algo.has_next() and steps < 60 * gens:
            steps += 1
            first = not algo.is_initialized
            prev = [] if first or algo.pop is None else members(algo.pop)
            pv = vals(prev)
            inf = algo.ask()
            ms = members(inf)
            if inf is not None:
                algo.evaluator.eval(prob, inf, algorithm=algo)
                algo.tell(infills=inf)
            else:
                algo.tell()
            mv = vals(ms)
            now = members(algo.pop)
            if name.startswith(ONE) and not first and ms:
                at = {id(x): i + 1 for i, x in enumerate(prev)}
                at.update({id(x): -(j + 1) for j, x in enumerate(ms)})
                ix = [x.get("index") for x in ms]
                tgt = [j + 1 for j in range(len(ms))] if len(ms) == len(prev) and not name.startswith("DE") else [0 if i is None else int(i) + 1 for i in ix]
                raw.append(("gen", dict(pop=pv, off=mv, tgt=tgt, now=[at.get(id(x), 0) for x in now])))
            if name.startswith(SWARM):
                raw.append(("visit", dict(P=mv, M=vals(now))))
                if name.startswith("EPPSO") and not first:
                    n = len(now)
                    nb = [list(range(1, n + 1)) if "ring" not in name else [(i - 1) % n + 1, i + 1, (i + 1) % n + 1] for i in range(n)]
                    raw.append(("local", dict(M=vals(now), L=vals(algo.lbest), nb=nb)))
            fresh += mv
            # some optimizers create the solutions of a generation one by one
            if algo.n_iter == gen and algo.has_next():
                continue
            gen = algo.n_iter
            mv, fresh = fresh, []
            raw.append(("best", dict(ev=mv, opt=vals(algo.opt), full=name in FULL)))
    _, err = guarded(go, timeout=100)
    allv = [v for _, d in raw for q in d.values() if isinstance(q, list) for v in q if isinstance(v, tuple)]
    RF, RC = Ranks([v[2] for v in allv], [0.0]), Ranks([v[1] for v in allv], [0.0])
    sol = lambda v: {"x": v[0], "cv": int(RC(v[1])), "f": int(RF(v[2]))}
    ev = [dict({k: [sol(v) for v in q] if isinstance(q, list) and q and isinstance(q[0], tuple) else q for k, q in d.items()}, k=k) for k, d in raw]
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "run/%s/con%d" % (name, spec["n_ieq"] + spec["n_eq"]), "ev": ev, "meta": {"spec": spec, "seed": seed}}


def main():
    c = Check("C12")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION Spec\nCONSTANTS NX=%d NP=%d MaxCV=%d MaxF=%d Emit=%s\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MC_Replace", cfg % ((4, 2, 1, 1, "FALSE") if THOROUGH else (3, 2, 2, 1, "FALSE")) + "PROPERTY Elitist\n")
    out = c.model_check("MC_Replace", cfg % (3, 2, 2, 1, "TRUE"), workers=1)
    cases = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"CASE ')]
    c.notes["replacement_cases_from_tlc"] = len(cases)
    T = []
    for mode in ("indices", "copy", "inplace", "merged", "individual", "to", "better"):
        sel = [cases[i] for i in (range(len(cases)) if THOROUGH else rng.choice(len(cases), 2500, replace=False))]
        # larger populations than the enumerated ones
        for _ in range(300 if THOROUGH else 60):
            nx = int(rng.integers(4, 40))
            np_ = int(rng.integers(3, 30))
            sel.append({"val": [[int(max(0, rng.integers(-3, 4))), int(rng.integers(0, 6))] for _ in range(nx)], "pop": [int(x) for x in rng.integers(1, nx + 1, np_)], "off": [int(x) for x in rng.integers(1, nx + 1, np_)]})
        T += [(sel[i:i + 900], int(rng.integers(1 << 30)), mode) for i in range(0, len(sel), 900)]
    crash = lambda t, w: {"key": "run/" + str(t[0])[:40], "ev": [{"k": "raised", "exc": w}]}
    tr = pmap(table, T, on_crash=crash)
    tr += pmap(penalty, [(int(rng.integers(1 << 30)), 2000 if THOROUGH else 300) for _ in range(4)], on_crash=crash)
    R = []
    for name, (f, t) in soo_algorithms().items():
        if not t.get("elitist"):
            continue
        for ieq, eq, feas in ((0, 0, "some"), (1, 0, "some"), (2, 0, "hard"), (1, 1, "some"), (1, 0, "never")) if not t.get("cma") else ((0, 0, "some"), (1, 0, "some")):
            for rep in range(4 if THOROUGH else 1):
                R.append((name, pspec(n_obj=1, n_var=int(rng.integers(2, 5)), n_ieq=ieq, n_eq=eq, feas=feas, K=int(rng.choice([12, 200])), box=str(rng.choice(["unit", "skew"])), pseed=int(rng.integers(50))), 25 if THOROUGH else 12, int(rng.integers(1 << 20))))
    tr += pmap(run, R, on_crash=crash)
    c.notes["generations_judged"] = sum(e["k"] == "best" for t in tr for e in t["ev"])
    c.validate("ReplTrace", tr)
    c.finish(rule="all replacements of 2 members by 2 offspring over all assignments of violations and objectives to 3 places (random half of them per way of calling in quick) plus larger random ones; every elitist single-objective optimizer generation by generation", exhaustive=False)


if __name__ == "__main__":
    main()
