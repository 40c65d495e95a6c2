"""C25: scaling, decision aids, choices by weight, windows, named parameters. Scale.tla (modules MC_Scale, ScaleTrace)."""
from zoo import *
from runs import _imp
import copy, pickle
from types import SimpleNamespace
from pymoo.core.problem import Problem
from pymoo.core.individual import Individual
from pymoo.core.parameters import get_params, flatten, hierarchical, set_params
from pymoo.util.normalization import ZeroToOneNormalization, SimpleZeroToOneNormalization, PreNormalization, NoNormalization, ObjectiveSpaceNormalization, normalize, denormalize, standardize, destandardize
from pymoo.util.roulette import RouletteWheelSelection
from pymoo.util.randomized_argsort import randomized_argsort
from pymoo.util.sliding_window import SlidingWindow

NA, OFF = 99999, -99999999


def fx(v, s):
    v = float(v) * s
    return int(round(v)) if np.isfinite(v) and abs(v) < 1e8 and abs(v - round(v)) < 1e-6 * max(1, abs(v)) else OFF


def mat(M, s):
    return [[fx(v, s) for v in np.atleast_1d(r)] for r in np.reshape(M, (-1, np.shape(M)[-1]))]


# -------------------------------------------------------------------------------------------- scaling
def norms(task):
    cases, seed = task
    rng = np.random.default_rng(seed)
    ev = []
    for xl, xu in cases:
        forms = ["class", "class", "function", "simple", "pre"]
        form = str(rng.choice(forms))
        none = [NA in xl, NA in xu]
        shape = [(3, 2), (2,), (2, 3, 2), (1, 2)][int(rng.integers(4))]
        ints = bool(rng.random() < 0.4)
        X = rng.integers(-4, 6, shape)
        N4 = rng.integers(-4, 9, shape)
        if ints:
            N4 = N4 * 4
        e = dict(k="norm", xl=list(xl), xu=list(xu), X=X.reshape(-1, 2).tolist(), N=N4.reshape(-1, 2).tolist(), est=False, nol=False, nou=False,
                 fwd=True, bwd=True, got=[], back=[], same=False, round=True, raised=False)
        if form in ("simple", "pre") and (any(none) or any(a >= b for a, b in zip(xl, xu))):
            form = "class"
        Xr, Nr = (X if ints else X.astype(float)), (N4 // 4 if ints else N4 / 4)
        # X as floats or integers; a bound that is not given is nan, or no bound at all
        low = [np.nan if v == NA else float(v) for v in xl]
        upp = [np.nan if v == NA else float(v) for v in xu]
        if not any(none) and rng.random() < 0.3:
            low, upp = [int(v) for v in low], [int(v) for v in upp]
        low = None if all(v == NA for v in xl) and rng.random() < 0.6 else np.array(low)
        upp = None if all(v == NA for v in xu) and rng.random() < 0.6 else np.array(upp)
        if form == "class" and any(NA not in q and q[0] > q[1] for q in zip(xl, xu)) and rng.random() < .5:
            low, upp = low * 2.0 ** -14, upp * 2.0 ** -14      # crossed, but only just
        if form == "function" and len(shape) > 1 and rng.random() < 0.5:
            # bounds taken from the values where they are not given
            e["est"], e["nol"], e["nou"] = True, low is None or bool(rng.random() < 0.5), upp is None or bool(rng.random() < 0.5)
            if len(shape) == 3:
                Xr, X = Xr[0], X[0]
                e["X"] = X.tolist()
            if e["nol"]:
                low = None
            if e["nou"]:
                upp = None
            if low is None or upp is None:
                # values from both sides would cross the bounds given
                lo, up = X.min(axis=0), X.max(axis=0)
        elif form == "function" and len(shape) > 1 and xl[0] == xl[1] != NA and xu[0] == xu[1] != NA and rng.random() < 0.7:
            low, upp = (int, float)[int(rng.integers(2))](xl[0]), (int, float)[int(rng.integers(2))](xu[0])

        def go():
            A, B = Xr.copy(), Nr.copy()
            L, H = copy.deepcopy(low), copy.deepcopy(upp)
            if form == "function":
                F, lb, ub = normalize(A, low, upp, return_bounds=True, estimate_bounds_if_none=e["est"]) if (low is not None or upp is not None or e["est"]) and rng.random() < 0.5 else (normalize(A, low, upp, estimate_bounds_if_none=e["est"]), None, None)
                e["bwd"] = not e["est"] and isinstance(low, (np.ndarray, type(None))) and isinstance(upp, (np.ndarray, type(None)))
                G = denormalize(B, low, upp) if e["bwd"] else None
                R = None
                if lb is not None and e["nol"] and e["nou"]:
                    R = denormalize(F, lb, np.where(np.isnan(ub), lb, ub))
            else:
                nm = {"class": lambda: ZeroToOneNormalization(low, upp), "simple": lambda: SimpleZeroToOneNormalization(low, upp, estimate_bounds=bool(rng.random() < 0.5)),
                      "pre": lambda: PreNormalization(zero_to_one=True, ideal=low, nadir=upp).normalization}[form]()
                F, G = nm.forward(A), nm.backward(B)
                R = nm.backward(F) if not any(a == b for a, b in zip(xl, xu)) else None
                if low is not None:
                    assert nm.forward(None) is None if form != "simple" else True
            e["got"] = mat(F, 2520)
            e["back"] = mat(G, 4) if G is not None else []
            e["round"] = bool(R is None or np.allclose(R, Xr))
            e["same"] = bool(np.array_equal(A, Xr) and np.array_equal(B, Nr) and all((a is None and b is None) or np.array_equal(a, b, equal_nan=True) for a, b in ((L, low), (H, upp))))
        _, err = guarded(go, timeout=20)
        e["raised"] = bool(err)
        if err and os.environ.get("VERIF_DEBUG"):
            print(form, xl, xu, ints, shape, err)
        ev.append(e)
    return {"key": "norm", "ev": ev}


def stds(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        X = rng.integers(-3, 8, (int(rng.integers(2, 6)), int(rng.integers(1, 4))))
        if np.any(X.min(axis=0) == X.max(axis=0)):
            continue
        e = dict(k="std", X=X.tolist(), sq=[], sg=[], round=False, raised=False)

        def go():
            A = X.copy() if rng.random() < 0.5 else X.astype(float)
            V, mu, sd = standardize(A, return_bounds=True)
            W = standardize(A)
            e["sq"], e["sg"] = [[int(np.floor(1000 * v * v + 1e-6)) for v in r] for r in V], [[int(np.sign(round(v, 9))) for v in r] for r in W]
            e["round"] = bool(np.allclose(destandardize(V, mu, sd), X) and np.array_equal(V, W) and np.array_equal(A, X))
        _, err = guarded(go, timeout=20)
        e["raised"] = bool(err)
        ev.append(e)
    return {"key": "std", "ev": ev}


def ideals(task):
    seed, n = task
    out = []
    rng = np.random.default_rng(seed)
    for _ in range(n):
        m = int(rng.integers(1, 4))
        nm = ObjectiveSpaceNormalization()
        ev = []
        for _ in range(int(rng.integers(1, 6))):
            F = rng.integers(-5, 6, (int(rng.integers(1, 5)), m))
            ok = rng.random(len(F)) < rng.choice([0.0, 0.5, 1.0])
            e = dict(k="ideal", F=F.tolist(), ok=[bool(x) for x in ok], f=[], a=[], raised=False)

            def go():
                pop = Population.new("F", F.astype(float), "G", np.where(ok, -1.0, 1.0)[:, None])
                nm.update(pop)
                f, a = nm.ideal(), nm.ideal(only_feas=False)
                e["f"], e["a"] = [] if f is None else [int(v) for v in f], [] if a is None else [int(v) for v in a]
            _, err = guarded(go, timeout=20)
            e["raised"] = bool(err)
            ev.append(e)
        out.append({"key": "ideal", "ev": ev})
    return out


# -------------------------------------------------------------------------------------- decision aids
def front(rng, n, m, hi):
    F = []
    for _ in range(60):
        f = rng.integers(0, hi + 1, m)
        if all(np.any(f < g) and np.any(g < f) for g in F):
            F.append(f)
        if len(F) == n:
            break
    return np.array(F)


def aids(task):
    seed, n = task
    from pymoo.core.decision_making import NeighborFinder, find_outliers_upper_tail
    from pymoo.mcdm.pseudo_weights import PseudoWeights
    from pymoo.mcdm.high_tradeoff import HighTradeoffPoints
    rng = np.random.default_rng(seed)
    ev = []

    def run(e, go):
        _, err = guarded(go, timeout=20)
        e["raised"] = bool(err)
        if err and os.environ.get("VERIF_DEBUG"):
            print(e, err)
        ev.append(e)

    for _ in range(n):
        m = int(rng.integers(2, 4))
        F = front(rng, int(rng.integers(2, 8)), m, int(rng.integers(3, 9)))
        f0, f1 = F.min(axis=0), F.max(axis=0)
        given = rng.random() < 0.4
        ideal, nadir = (f0 - rng.integers(0, 2, m), f1 + rng.integers(0, 2, m)) if given else (None, None)
        if given and rng.random() < 0.3:
            ideal = None
        elif given and rng.random() < 0.3:
            nadir = None
        w = rng.integers(0, 5, m)
        w[int(rng.integers(m))] += 1
        e = dict(k="pw", F=F.tolist(), ideal=[] if ideal is None else ideal.tolist(), nadir=[] if nadir is None else nadir.tolist(), w=w.tolist(), got=0, pw=[], raised=False)

        def go():
            A = F / 8
            dm = PseudoWeights(w / w.sum(), ideal=None if ideal is None else ideal / 8, nadir=None if nadir is None else nadir / 8)
            i, pw = dm.do(A, return_pseudo_weights=True)
            assert dm(A) == i and np.array_equal(A, F / 8)
            e["got"], e["pw"] = int(i) + 1, [[int(round(1000 * v)) if np.isfinite(v) else OFF for v in r] for r in pw]
        run(e, go)
        # neighbours
        two, mode, least = bool(rng.random() < 0.3), str(rng.choice(["ball", "ball", "count"])), str(rng.choice(["auto", "none"]))
        G = F
        if two and m == 2:
            two = len(set(G[:, 0])) == len(G)
        rad = int(rng.integers(1, 5))
        e = dict(k="neigh", F=G.tolist(), two=two, r2=rad * rad if mode == "ball" else -1, k_=0, k__=0, least=least, got=[], raised=False)
        e.pop("k_"), e.pop("k__")
        cnt = int(rng.integers(1, len(G) + 1)) if len(G) == 1 else int(rng.integers(1, len(G)))
        e["cnt"] = cnt

        def go():
            nf = NeighborFinder(G / 16, epsilon=rad / 16 if mode == "ball" else None, n_neighbors=cnt, n_min_neigbors="auto" if least == "auto" else None, consider_2d=two)
            e["got"] = [[int(v) + 1 for v in nf.find(i)] for i in range(len(G))]
        if not (mode == "count" and least == "auto" and cnt + 1 < min(2 * m, len(G) - 1)):
            run(e, go)
        # outliers
        mu = rng.integers(0, 4, int(rng.integers(1, 10)))
        mu[int(rng.integers(len(mu)))] += int(rng.integers(0, 30))
        if rng.random() < .5:       # two or three large ones among many small ones
            mu = rng.integers(0, 3, int(rng.integers(6, 15)))
            mu[rng.permutation(len(mu))[:int(rng.integers(1, 4))]] = int(rng.integers(3, 20)) + rng.integers(0, 2)
        num = rng.random(len(mu)) < rng.choice([0.6, 1.0])
        outl(ev, mu, num, rng)
        # trade-off
        H = front(rng, int(rng.integers(1, 9)), m, int(rng.integers(3, 7)))
        rad = int(rng.choice([1, 2, 2, 3, 4]))
        e = dict(k="knee", F=H.tolist(), r2=rad * rad, got=[], raised=False)

        def go():
            zo = bool(rng.random() < 0.3)
            kw = {} if rad == 2 and rng.random() < 0.7 else {"epsilon": rad / 16}
            dm = HighTradeoffPoints(**kw, **(dict(zero_to_one=True, ideal=np.zeros(m), nadir=np.full(m, 16.0)) if zo else {}))
            r = dm.do(H.astype(float) if zo else H / 16)
            e["got"] = [] if r is None else [int(v) + 1 for v in r]
        run(e, go)
    return {"key": "aids", "ev": ev}


def outl(ev, mu, num, rng):
    from pymoo.core.decision_making import find_outliers_upper_tail
    e = dict(k="outl", mu=[int(v) for v in mu], num=[bool(v) for v in num], got=[], raised=False)

    def go():
        v = np.where(num, np.asarray(mu, dtype=float), rng.choice([np.nan, np.inf, -np.inf], len(mu)))
        r = find_outliers_upper_tail(v)
        e["got"] = [] if r is None else [int(i) + 1 for i in r]
    _, err = guarded(go, timeout=20)
    e["raised"] = bool(err)
    ev.append(e)


# ------------------------------------------------------------------------------------- small structures
class Script:
    def __init__(self, vals):
        self.vals = list(vals)

    def random(self, size=None):
        k = int(np.prod(size))
        v = [self.vals.pop(0) for _ in range(k)]
        return np.array(v).reshape(size)


def small(task):
    cases, seed = task
    rng = np.random.default_rng(seed)
    out, ev = [], []

    def run(e, go, ev=ev):
        _, err = guarded(go, timeout=20)
        e["raised"] = bool(err)
        if err and os.environ.get("VERIF_DEBUG"):
            print(e, err)
        ev.append(e)

    for q in cases:
        if q["k"] == "outl":
            outl(ev, [0 if v == 99 else v for v in q["mu"]], [v != 99 for v in q["mu"]], rng)
        elif q["k"] == "wheel":
            v = np.array(q["val"])
            T = int(v.sum() if q["larger"] else (v.max() - v).sum())
            d = 2 * T if T not in (1, 2, 4, 8, 16) or rng.random() < 0.5 else T
            ks = list(range(d)) if rng.random() < 0.5 else [int(rng.integers(d)) for _ in range(3)]
            e = dict(k="wheel", val=q["val"], larger=q["larger"], d=d, ks=ks, got=[], raised=False)

            def go():
                w = RouletteWheelSelection(v.astype(float) if rng.random() < 0.5 else v, larger_is_better=q["larger"])
                if rng.random() < 0.5:
                    e["got"] = [int(g) + 1 for g in w.next(len(ks), random_state=Script([k / d for k in ks]))]
                else:
                    e["got"] = [w.next(random_state=Script([k / d])) + 1 for k in ks]
            run(e, go)
        elif q["k"] == "sort":
            A = np.array(q["A"])
            method = str(rng.choice(["numpy", "numpy", "quicksort"]))
            e = dict(k="sort", A=q["A"], up=q["up"], all=len(A) <= 3, got=[], same=False, raised=False)

            def go():
                o = "ascending" if q["up"] else "descending"
                S = set()
                same = True
                for _ in range(200 if len(A) <= 3 else 10):
                    s = int(rng.integers(1 << 30))
                    p = [randomized_argsort(A if k else A.astype(float), method=method, order=o, random_state=np.random.default_rng(s)).tolist() for k in range(2)]
                    same &= p[0] == p[1]
                    S.add(tuple(p[0]))
                e["got"], e["same"] = [[i + 1 for i in p] for p in sorted(S)], bool(same and np.array_equal(A, q["A"]))
            run(e, go)
        elif q["k"] == "win":
            size = None if q["size"] == NA else q["size"]
            w, hist = SlidingWindow(size), []
            for i, o in enumerate(q["ops"]):
                e = dict(k="win", op=o, v=i + 1, size=q["size"], held=[], arr=[], full=False, raised=False)

                def go():
                    nonlocal w
                    if o == "add":
                        w.append(i + 1)
                    elif o == "clear":
                        w.clear()
                    else:
                        w = copy.deepcopy(w)
                    e["held"], e["arr"], e["full"] = [int(v) for v in w], [int(v) for v in w.to_numpy()], bool(w.is_full())
                run(e, go, hist)
            out.append({"key": "window", "ev": hist})
        elif q["k"] == "params":
            ids = {l["id"] for l in q["leaves"]}
            flag, act = {1: "default", 2: "default", 3: "other"}, {1: True, 2: False, 3: True}
            if rng.random() < .5:
                flag, act = {i: str(rng.choice(["default", "other"])) for i in flag}, {i: bool(rng.random() < .5) for i in act}
            V = {i: [Real, Integer, Choice][i - 1](i, flag=flag[i], active=act[i]) for i in (1, 2, 3)}
            e = dict(k="params", flag=q["flag"], active=q["active"], found=[], back=False, before=[1, 2, 3], after=[], raised=False,
                     leaves=[dict(path=l["path"], id=l["id"], flag=flag[l["id"]], active=act[l["id"]]) for l in q["leaves"]])

            def go():
                root = {"z": 5, "name": "x", "arr": np.arange(3), "none": None}
                for l in q["leaves"]:
                    d = root
                    for p in l["path"][:-1]:
                        d = d.setdefault(p, {"y": 1.5})
                    d[l["path"][-1]] = V[l["id"]]
                obj = wrap(root, rng)
                P = get_params(obj, flag=q["flag"], only_active=q["active"])
                fl = flatten(P)
                num = {id(v): k for k, v in V.items()}
                e["found"] = [dict(path=k.split("."), id=num[id(v)]) for k, v in fl.items()]
                e["back"] = bool(hierarchical(fl) == P and flatten(hierarchical(fl)) == fl)
                set_params(obj, hierarchical({k: 100 + num[id(v)] for k, v in fl.items()}))
                e["after"] = [int(V[i].get()) for i in (1, 2, 3)]
            run(e, go)
    return out + [{"key": "small", "ev": ev}]


def wrap(d, rng):
    """a tree of dictionaries, some of them as objects"""
    r = {k: wrap(v, rng) if isinstance(v, dict) else v for k, v in d.items()}
    return SimpleNamespace(**r) if rng.random() < 0.5 else r


# ------------------------------------------------------------------------------------ hyper-parameters
HYPER = {
    "GA": lambda: _imp("soo.nonconvex.ga", "GA")(pop_size=6), "DE": lambda: _imp("soo.nonconvex.de", "DE")(pop_size=6),
    "DE-adaptive": lambda: _imp("soo.nonconvex.de", "DE")(pop_size=6, variant=None, control=_ctl("EvolutionaryParameterControl")),
    "DE-random": lambda: _imp("soo.nonconvex.de", "DE")(pop_size=6, variant=None, control=_ctl("RandomParameterControl")),
    "EPPSO": lambda: _imp("soo.nonconvex.pso_ep", "EPPSO")(pop_size=6, swarm=_imp("soo.nonconvex.pso_ep", "Swarm")()), "G3PCX": lambda: _imp("soo.nonconvex.g3pcx", "G3PCX")(),
    "NSGA2": lambda: _imp("moo.nsga2", "NSGA2")(pop_size=6), "ES": lambda: _imp("soo.nonconvex.es", "ES")(n_offsprings=14),
    "NSGA3": lambda: _imp("moo.nsga3", "NSGA3")(RD(2, 3), pop_size=6), "MOEAD": lambda: _imp("moo.moead", "MOEAD")(RD(2, 3), n_neighbors=2, prob_neighbor_mating=0.5),
}


def _ctl(n):
    import pymoo.operators.control as C
    return getattr(C, n)


def made(task):
    from pymoo.algorithms.hyperparameters import HyperparameterProblem, SingleObjectiveSingleRun, MultiRun
    name, seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        e = dict(k="made", want=[], got=[], was=[], orig=[], ran=False, raised=False)

        def go():
            algo = HYPER[name]()
            vs = flatten(get_params(algo))
            if not vs:
                e["ran"] = True
                return
            keys = sorted(vs)
            seen = []

            def perf(a):
                now = flatten(get_params(a))
                seen.append([str(now[k].get()) for k in keys])
                return dict(F=1.0)
            was = [str(vs[k].get()) for k in keys]
            prob = HyperparameterProblem(algo, perf, n_obj=1)
            x = {k: vs[k].sample(random_state=rng) for k in keys}
            out = prob.evaluate(np.array([x]), return_as_dictionary=True) if rng.random() < 0.5 else prob.evaluate(x, return_as_dictionary=True)
            e["want"], e["got"] = [str(x[k]) for k in keys], seen[0]
            e["was"], e["orig"] = was, [str(vs[k].get()) for k in keys]
            e["ran"] = bool(len(seen) == 1 and float(np.ravel(out["F"])[0]) == 1.0)
        _, err = guarded(go, timeout=30)
        e["raised"] = bool(err)
        if err and os.environ.get("VERIF_DEBUG"):
            print(name, err)
        ev.append(e)
    return {"key": "made/" + name, "ev": ev}


def multirun(task):
    """one run per seed, each the run minimize would give, averaged"""
    from pymoo.algorithms.hyperparameters import SingleObjectiveSingleRun, MultiRun, stats_avg_nevals, stats_single_objective_mean
    from pymoo.optimize import minimize
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        e = dict(k="made", want=[], got=[], was=[], orig=[], ran=True, raised=False)

        def go():
            prob = ZooProblem(pspec(n_obj=1, n_var=2, n_ieq=int(rng.integers(2)), pseed=int(rng.integers(50))))
            seeds = [int(s) for s in rng.integers(1, 1000, int(rng.integers(1, 4)))]
            algo = lambda: _imp("soo.nonconvex.ga", "GA")(pop_size=6)
            sol = [minimize(prob, algo(), termination=("n_gen", 3), seed=s, verbose=False) for s in seeds]
            if any(s.F is None for s in sol):
                return
            F = np.mean([s.F for s in sol], axis=0)
            a = algo()
            kind = int(rng.integers(3))
            if kind == 0:
                r = MultiRun(prob, seeds=seeds, termination=("n_gen", 3), verbose=False)(a)
                e["want"], e["got"] = [repr(float(F[0]))], [repr(float(r["F"][0]))]
                e["ran"] = len(r["__results__"]) == len(seeds)
            elif kind == 1:
                r = MultiRun(prob, seeds=seeds, func_stats=stats_avg_nevals, termination=("n_gen", 3), verbose=False)(a)
                e["want"], e["got"] = [repr(float(np.mean([s.algorithm.evaluator.n_eval for s in sol])))], [repr(float(r["F"]))]
            else:
                r = SingleObjectiveSingleRun(prob, termination=("n_gen", 3), seed=seeds[0], verbose=False)(a)
                e["want"], e["got"] = [repr(float(sol[0].F[0]))], [repr(float(r["F"][0]))]
        _, err = guarded(go, timeout=60)
        e["raised"] = bool(err)
        ev.append(e)
    return {"key": "multirun", "ev": ev}


def control(task):
    """every mating of an adaptive optimizer: the values used lie within bounds and stay with the offspring"""
    name, seed = task
    ev = []

    def go():
        from pymoo.operators.control import ParameterControlMating, EvolutionaryParameterControl, RandomParameterControl
        kind = RandomParameterControl if "random" in name else EvolutionaryParameterControl
        if name.startswith("GA"):
            from pymoo.operators.selection.tournament import TournamentSelection
            from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness
            from pymoo.operators.crossover.sbx import SBX
            from pymoo.operators.mutation.pm import PM
            algo = _imp("soo.nonconvex.ga", "GA")(pop_size=8, mating=ParameterControlMating(TournamentSelection(func_comp=comp_by_cv_and_fitness), SBX(), PM(), control=kind))
        else:
            algo = HYPER[name]()
        prob = ZooProblem(pspec(n_obj=1, n_var=3, pseed=seed % 40))
        algo.setup(prob, termination=gen_termination(7), seed=seed, verbose=False)
        if algo.mating is None or not hasattr(algo.mating, "control"):
            return
        while algo.has_next():
            inf = algo.ask()
            c = algo.mating.control
            if algo.is_initialized and len(c.params):
                for k, p in c.params.items():
                    v = np.ravel(np.asarray(p.get()))
                    ok = all((p.bounds[0] <= x <= p.bounds[1]) if hasattr(p, "bounds") else x in list(p.options) for x in v)
                    at = [i.get(k) for i in inf]
                    # after a mating that produced more than was asked for, the values of those kept
                    ev.append(dict(k="control", n=len(v), asked=max(len(inf), len(v) if name.startswith("GA") else 0), inside=bool(ok), attached=bool(all(a is not None and a in list(v) for a in at) and (len(v) != len(at) or all(a == b for a, b in zip(at, v)))), raised=False))
            algo.evaluator.eval(prob, inf)
            algo.tell(infills=inf)
    _, err = guarded(go, timeout=60)
    if err and os.environ.get("VERIF_DEBUG"):
        print(name, err)
    if err:
        ev.append(dict(k="control", n=0, asked=0, inside=True, attached=True, raised=True))
    return {"key": "control/" + name, "ev": ev}


def main():
    c = Check("C25")
    rng = np.random.default_rng(SEED)
    P = c.paths("MC_Scale", "SPECIFICATION Spec\nCONSTANTS Bounds={0,3,4} MaxOps=%d\nINVARIANTS Laws Emit\n" % (6 if THOROUGH else 5))
    c.notes["cases_from_tlc"] = len(P)
    tr, crash = [], lambda t, w: {"key": "crash", "ev": [{"k": "raised"}]}
    nb = [(p["xl"], p["xu"]) for p in P if p["k"] == "norm"] * (6 if THOROUGH else 2)
    tr += pmap(norms, [(nb[i::8], int(rng.integers(1 << 30))) for i in range(8)], on_crash=crash)
    tr += pmap(stds, [(int(rng.integers(1 << 30)), 400 if THOROUGH else 60) for _ in range(2)], on_crash=crash)
    for r in pmap(ideals, [(int(rng.integers(1 << 30)), 300 if THOROUGH else 60) for _ in range(4)], on_crash=crash):
        tr += r if isinstance(r, list) else [r]
    tr += pmap(aids, [(int(rng.integers(1 << 30)), 600 if THOROUGH else 100) for _ in range(8)], on_crash=crash)
    rest = [p for p in P if p["k"] != "norm"]
    keep = {"outl": 1500, "win": 500, "wheel": 400, "sort": 240, "params": 1500}
    sel = []
    for k, n in keep.items():
        S = [p for p in rest if p["k"] == k]
        sel += S if THOROUGH else [S[i] for i in rng.permutation(len(S))[:n]]
    sel = [sel[i] for i in rng.permutation(len(sel))]
    for r in pmap(small, [(sel[i::16], int(rng.integers(1 << 30))) for i in range(16)], on_crash=crash):
        tr += r if isinstance(r, list) else [r]
    tr += pmap(made, [(n, int(rng.integers(1 << 30)), 60 if THOROUGH else 12) for n in HYPER], on_crash=crash)
    tr += pmap(multirun, [(int(rng.integers(1 << 30)), 30 if THOROUGH else 6) for _ in range(4)], on_crash=crash)
    tr += pmap(control, [(n, int(rng.integers(1 << 20))) for n in ("DE-adaptive", "DE-random", "EPPSO", "GA-adaptive", "GA-random") for _ in range(10 if THOROUGH else 3)], on_crash=crash)
    c.validate("ScaleTrace", tr)
    c.finish(rule="all bound patterns of two variables over {none,-2,0,3,4}; integer points for standardization, pseudo-weights, neighbours, trade-offs and outliers; wheels, sorts, windows and parameter trees enumerated by TLC; hyper-parameter problems of ten optimizers; adaptive runs of five", exhaustive=False)


if __name__ == "__main__":
    main()
