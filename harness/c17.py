"""C17: parent selection. Selection.tla (modules MC_Selection, SelTrace)."""
import types
from common import *
import_repo()
import numpy as np
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.callback import Callback
from pymoo.operators.selection.tournament import TournamentSelection
from pymoo.operators.selection.rnd import RandomSelection, fast_fill_random
from pymoo.operators.selection.des import DES
from pymoo.optimize import minimize
import runs

PROB = Problem(n_var=2, n_obj=2, n_ieq_constr=1, xl=0, xu=50)


def comparisons():
    imp = runs._imp
    C = {"cv-fitness": imp("soo.nonconvex.ga", "comp_by_cv_and_fitness"), "cv": imp("moo.nsga3", "comp_by_cv_then_random"), "cv-niche-rank-dist": imp("moo.unsga3", "comp_by_rank_and_ref_line_dist"),
         "cv-dom-crowding": imp("moo.nsga2", "binary_tournament"), "cv-rank-crowding": imp("moo.nsga2", "binary_tournament"), "cv-dom": imp("moo.sms", "cv_and_dom_tournament"),
         "cv-fit": imp("moo.spea2", "spea_binary_tournament"), "feas-dom": imp("moo.ctaea", "comp_by_cv_dom_then_random"),
         "cv-iter-rank": imp("soo.nonconvex.ga_niching", "comp_by_cv_and_clearing_fitness")}
    from pymoo.operators.control import age_binary_tournament
    C["age"] = age_binary_tournament
    return C


COMP = comparisons()
ATTR = {"rank": "rank", "crowd": "crowding", "niche": "niche", "dist": "dist_to_niche", "fit": "SPEA_F", "iter": "iter", "gen": "n_gen", "kind": "type"}
INF = 1000


def index(R):
    """one-based; what cannot be an index at all becomes -9"""
    R = np.array(R)
    return np.where((R < -9) | (R > 10**6), -9, R + 1).astype(int).tolist()


def individual(rng, m=2):
    r = lambda n: int(rng.integers(0, n))
    return dict(cv=max(0, r(5) - 2), F=[r(3) for _ in range(m)], rank=r(3), crowd=[r(3), INF][rng.random() < 0.3], niche=r(2), dist=r(3), fit=r(4), iter=r(3), gen=r(4), kind=["elite", "non_elite"][r(2)])


def population(inds, X=None):
    n = len(inds)
    pop = Population.new("X", np.array(X if X is not None else [[i, i] for i in range(n)], float))
    pop.set("F", np.array([i["F"] for i in inds], float))
    pop.set("G", np.array([[float(i["cv"]) if i["cv"] > 0 else -float(k % 2)] for k, i in enumerate(inds)]))
    for k, a in ATTR.items():
        pop.set(a, [np.inf if k == "crowd" and i[k] == INF else float(i[k]) / 4 if k in ("dist", "fit") else i[k] for i in inds])
    return pop


class Stub:
    def __init__(self, rule, rs):
        self.tournament_type = "comp_by_rank_and_crowding" if rule == "cv-rank-crowding" else "comp_by_dom_and_crowding"
        self.random_state = rs
        self.n_gen = 3


def contest(sel, rule, inds, pop, n_select, n_parents, seed, pressure=2, draw="permutation", k="contests", X=None):
    """one call of a tournament-like selection whose comparison is overheard"""
    box = []
    orig = sel.func_comp

    def heard(p, P, **kw):
        S = orig(p, P, **kw)
        box.append(np.array(P))
        return S
    rs = lambda: np.random.default_rng(seed)

    def call(to_pop):
        r = rs()
        return sel.do(PROB, pop, n_select, n_parents, to_pop=to_pop, algorithm=Stub(rule, r), random_state=r)
    R, err = guarded(lambda: call(False), timeout=20)
    sel.func_comp = heard
    R2, err2 = guarded(lambda: call(True), timeout=20)
    sel.func_comp = orig
    raised = err is not None or err2 is not None
    e = dict(k=k, rule=rule, pop=inds, n_select=n_select, n_parents=n_parents, pressure=pressure, draw=draw, raised=raised, reject=pressure != 2, exc=err or err2 or "", R=[], P=[], same=True, X=X or [])
    if not raised:
        e["R"], e["P"] = index(R), index(np.concatenate(box)) if box else []
        pos = {id(i): j + 1 for j, i in enumerate(pop)}
        e["same"] = [[pos.get(id(i), 0) for i in row] for row in R2] == e["R"]
    return e


def pairs(L):
    """every pair of individuals enumerated by TLC: repeated contests between the two"""
    out = []
    for h in L:
        inds = [{**individual(np.random.default_rng(0)), **x} for x in (h["a"], h["b"])]
        if h["rule"] == "cv-fitness":
            inds = [dict(i, F=i["F"][:1]) for i in inds]
        pop = population(inds)
        sel = TournamentSelection(COMP[h["rule"]])
        n = 40
        rs = np.random.default_rng(7)
        R, err = guarded(lambda: sel.do(PROB, pop, n, 1, to_pop=False, algorithm=Stub(h["rule"], rs), random_state=rs), timeout=20)
        R = np.array(R).ravel() if err is None else np.array([])
        out.append({"key": "pair-" + h["rule"], "ev": [dict(k="pair", rule=h["rule"], pop=inds, raised=err is not None, exc=err or "", times=n, wins=[int((R == 0).sum()), int((R == 1).sum())])]})
    return out


def calls(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        N, k, p = int(rng.choice([1, 2, 3, 4, 5, 8])), int(rng.integers(1, 8)), int(rng.integers(1, 4))
        inds = [individual(rng) for _ in range(N)]
        pop = population(inds)
        s = int(rng.integers(1 << 30))
        for rule, f in COMP.items():
            pr = 2 if rng.random() < 0.7 else int(rng.integers(1, 5))
            if rule == "age" and pr == 2:
                from pymoo.operators.control import AgeBasedTournamentSelection
                sel = AgeBasedTournamentSelection()
            else:
                sel = TournamentSelection(f, pressure=pr)
            I = [dict(i, F=i["F"][:1]) for i in inds] if rule == "cv-fitness" else inds
            out.append({"key": "tournament-%s-%s" % (rule, "binary" if pr == 2 else "other"), "ev": [contest(sel, rule, I, population(I), k, p, s, pressure=pr)]})
        # the neighbour-based variant
        X = rng.integers(0, 6, (N, 2)).tolist()
        popx = population(inds, X=X)
        sel = runs._imp("moo.omni", "NeighborBasedTournamentSelection")()
        if N > 1:
            out.append({"key": "neighbour", "ev": [contest(sel, "cv-dom-crowding", inds, popx, k, p, s, draw="neighbour", X=X)]})
        # two archives
        H = [individual(rng) for _ in range(2 * N)]
        if rng.random() < 0.3:
            for i in H[:N]:
                i["F"] = [x + 5 for x in i["F"]]
        sel = runs._imp("moo.ctaea", "RestrictedMating")(func_comp=COMP["feas-dom"])
        out.append({"key": "restricted", "ev": [contest(sel, "feas-dom", H, population(H), k, 2, s, draw="", k="restricted")]})
        # random selection
        rs = lambda: np.random.default_rng(s)
        R, err = guarded(lambda: RandomSelection().do(PROB, pop, k, p, to_pop=False, random_state=rs()))
        R2, err2 = guarded(lambda: RandomSelection().do(PROB, pop, k, p, random_state=rs()))
        pos = {id(i): j + 1 for j, i in enumerate(pop)}
        bad = err or err2
        out.append({"key": "random", "ev": [dict(k="random", n=N, n_select=k, n_parents=p, raised=bad is not None, exc=bad or "", R=[] if bad else index(R),
                                                 same=not bad and [[pos.get(id(i), 0) for i in r] for r in R2] == index(R))]})
        # elites
        R, err = guarded(lambda: runs._imp("soo.nonconvex.brkga", "EliteBiasedSelection")().do(PROB, pop, k, 2, to_pop=False, random_state=rs()))
        if any(i["kind"] == "elite" for i in inds):
            out.append({"key": "elite", "ev": [dict(k="elite", n=N, n_select=k, kind=[i["kind"] for i in inds], raised=err is not None, exc=err or "", R=[] if err else index(R))]})
        # neighbourhoods
        n2 = int(rng.integers(3, 9))
        p2 = int(rng.integers(1, 4))
        pop2 = population([individual(rng) for _ in range(n2)])
        NB = np.array([rng.choice(n2, int(3), replace=False) for _ in range(k)])
        prob = float(rng.choice([0.0, 0.5, 0.9, 1.0]))
        R, err = guarded(lambda: runs._imp("moo.moead", "NeighborhoodSelection")(prob=prob).do(PROB, pop2, k, p2, to_pop=False, neighbors=NB, random_state=rs()))
        out.append({"key": "neighbourhood", "ev": [dict(k="neighbourhood", n=n2, n_select=k, n_parents=p2, prob=int(prob * 100), N=(NB + 1).tolist(), raised=err is not None, exc=err or "", R=[] if err else index(R))]})
        # differential evolution
        v = str(rng.choice(["rand", "best", "current-to-best", "current-to-rand", "ranked"]))
        nd = int(rng.choice([1, 2, 3])) + (v in ("current-to-best", "current-to-rand"))
        n3 = int(rng.integers(2 * nd + 2, 2 * nd + 9))
        I3 = [dict(individual(rng), rank=int(rng.integers(0, 6))) for _ in range(n3)]
        R, err = guarded(lambda: DES(v).do(PROB, population(I3), n3, 2 + 2 * nd, to_pop=False, random_state=rs()), timeout=20)
        out.append({"key": "de-" + v, "ev": [dict(k="de", variant=v, n=n3, n_select=n3, n_parents=2 + 2 * nd, rank=[i["rank"] for i in I3], raised=err is not None, exc=err or "", R=[] if err else index(R))]})
        # distinct fillings
        n4, c4, m4 = int(rng.integers(2, 9)), int(rng.integers(1, 6)), int(rng.choice([1, 2, 3, 8, 30]))
        before = rng.integers(-9, -1, (m4, c4))
        cols = sorted(int(x) for x in rng.choice(c4, int(rng.integers(1, c4 + 1)), replace=False)) if rng.random() < 0.5 else list(range(int(rng.integers(0, c4)), c4))
        avoid = rng.integers(0, n4, (m4, int(rng.integers(0, 2))))
        A = before.copy()
        R, err = guarded(lambda: fast_fill_random(A, n4, columns=cols, Xp=avoid if avoid.shape[1] else None, random_state=rs()), timeout=20)
        out.append({"key": "fill", "ev": [dict(k="fill", n=n4, cols=[x + 1 for x in cols], before=(before + 1).tolist(), avoid=(avoid + 1).tolist(), raised=err is not None, exc=err or "", R=[] if err else (A + 1).tolist())]})
    return out


# ----------------------------------------------------------------------------------------- whole runs
RULE = {"GA": "cv-fitness", "NSGA3": "cv", "RNSGA3": "cv", "UNSGA3": "cv-niche-rank-dist", "SMSEMOA": "cv-dom", "SPEA2": "cv-fit", "CTAEA": "feas-dom", "NicheGA": "cv-iter-rank"}


def of_run(task):
    name, m, vt, seed = task
    spec = runs.pspec(n_obj=m, n_var=3, n_ieq=1, K=8, feas="some", pseed=seed)
    algo, tr = runs.make_algo(name, m, "real", spec)
    sel = getattr(getattr(algo, "mating", None), "selection", None)
    if tr.get("unconstr"):
        spec = runs.pspec(n_obj=m, n_var=3, K=8, pseed=seed)
    prob = runs.RecProblem(spec)
    ev = []
    if sel is None or not hasattr(sel, "func_comp"):
        return []
    base = name.split("-")[0]
    rule = RULE.get(base) or ("cv-rank-crowding" if getattr(algo, "tournament_type", "") == "comp_by_rank_and_crowding" else "cv-dom-crowding")
    orig = sel.func_comp

    def heard(p, P, **kw):
        e = describe(p) if len(ev) < 12 else None
        S = orig(p, P, **kw)
        if e:
            e.update(n_select=len(P), n_parents=1, pressure=int(P.shape[1]), R=index(np.array(S).reshape(-1, 1)), P=index(P))
            ev.append(e)
        return S

    def describe(p):
        tab = {}
        for k in ("crowding", "SPEA_F", "dist_to_niche"):
            v = np.array([np.nan if x is None else x for x in p.get(k)], float)
            tab[k] = Ranks(v)(v)
        cv = np.array([i.CV[0] for i in p])
        R = Ranks(np.append(cv, 0.0))
        z = int(R(np.array([0.0]))[0])
        z0 = lambda v: 0 if v is None else int(min(v, 10**6))
        inds = [dict(cv=int(c) - z, F=[int(x) for x in i.F], rank=z0(i.get("rank")), crowd=int(tab["crowding"][j]), niche=z0(i.get("niche")), dist=int(tab["dist_to_niche"][j]),
                     fit=int(tab["SPEA_F"][j]), iter=z0(i.get("iter")), gen=0, kind="") for j, (i, c) in enumerate(zip(p, R(cv)))]
        return dict(k="contests", rule=rule, pop=inds, draw="" if base in ("CTAEA", "OmniOptimizer") else "permutation", raised=False, reject=False, exc="", same=True, X=[])
    sel.func_comp = heard
    _, err = guarded(lambda: minimize(prob, algo, ("n_gen", 6), seed=seed, copy_algorithm=False), timeout=60)
    return [{"key": "run-" + name, "ev": ev}] if ev else []


def crash(task, why):
    return [{"key": "crash", "ev": [dict(k="crash")]}]


def main():
    c = Check("C17")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION Spec\nCONSTANTS N=%d Draws=%d\nINVARIANT Inv\nINVARIANT EmitInit\nCHECK_DEADLOCK FALSE\n" % ((5, 11) if THOROUGH else (4, 9))
    H = c.paths("MC_Selection", cfg)
    c.notes["pairs_from_tlc"] = len(H)
    tr = []
    tasks = [("p", H[i::16]) for i in range(16)] + [("c", (int(rng.integers(1 << 30)), 40)) for _ in range(300 if THOROUGH else 16)]
    names = [(n, 2) for n in runs.moo_algorithms(2) if n != "AGEMOEA2" or THOROUGH] + [(n, 1) for n in runs.soo_algorithms()]
    tasks = [("r", n + ("real", int(rng.integers(1, 1000)))) for n in names for _ in range(5 if THOROUGH else 1)] + tasks
    for part in pmap(one, tasks, on_crash=crash):
        tr += part
    c.validate("SelTrace", tr)
    c.finish(rule="every pair of individuals with small attributes under every comparison (40 contests each); random calls of every selection with populations of 1-8, 1-7 groups of 1-3 parents, pressures 1-4; contests of running optimizers", exhaustive=False)


def one(t):
    return {"p": pairs, "c": calls, "r": of_run}[t[0]](t[1])


if __name__ == "__main__":
    main()
