"""C22: reference-vector optimizers. Niching.tla (modules MC_Niching, MC_Decomp, NicheTrace)."""
from common import *
import_repo()
ensure_ext()
import copy
import numpy as np
from runs import RecProblem, pspec, Ids
from pymoo.core.problem import Problem
from pymoo.core.population import Population
from pymoo.core.individual import Individual
from pymoo.core.mating import Mating
from pymoo.functions import load_function
from pymoo.util.reference_direction import das_dennis
from pymoo.algorithms.moo.nsga3 import NSGA3, ReferenceDirectionSurvival, niching, associate_to_niches
from pymoo.algorithms.moo.unsga3 import UNSGA3
from pymoo.algorithms.moo.rnsga3 import RNSGA3, AspirationPointSurvival, get_ref_dirs_from_points
from pymoo.algorithms.moo.rvea import RVEA, APDSurvival
from pymoo.algorithms.moo.ctaea import CTAEA, CADASurvival
from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
from pymoo.decomposition.tchebicheff import Tchebicheff
from pymoo.decomposition.weighted_sum import WeightedSum
from pymoo.decomposition.asf import ASF
from pymoo.decomposition.aasf import AASF
from pymoo.decomposition.pbi import PBI
from pymoo.decomposition.perp_dist import PerpendicularDistance

HUGE = 1000000


def clip(x, s):
    x = np.asarray(x, float)
    return np.round(np.where(np.isfinite(x), np.clip(x * s, -9e8, 9e8), 9e8)).astype(int).tolist()


def ints(x, s=1, bad=-77777):
    x = np.atleast_1d(np.asarray(x, float)) * s
    return np.where(np.isfinite(x) & (np.abs(x) < 2e9) & ((s != 1) | (np.abs(x - np.round(x)) < 1e-9)), np.round(np.where(np.isfinite(x), x, 0)), bad).astype(int).tolist()


def perp(N, R):
    """distances of the points N to the lines through the rows of R (definition)"""
    U = R / np.linalg.norm(R, axis=1)[:, None]
    P = N @ U.T
    return np.sqrt(np.maximum(0, ((N[:, None, :] - P[:, :, None] * U[None]) ** 2).sum(axis=2)))


# ------------------------------------------------------------------------------------ niching, functions
def niche_replay(task):
    L, seed = task
    out = []
    for q, h in enumerate(L):
        rs = np.random.default_rng(seed + q)
        c = np.array(h["c"])
        sc = [1.0, 0.001, 1e-9][q % 3]
        r, err = guarded(lambda: [int(i) + 1 for i in niching([None] * len(h["nic"]), h["n"], c, np.array(h["nic"]) - 1, np.array(h["d"]) * sc, random_state=rs)])
        out.append({"key": "niching", "ev": [dict(k="niching", c=h["c"], nic=h["nic"], d=h["d"], n=h["n"], res=r or [], raised=err is not None, exc=err or "")]})
    return out


def funcs(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        # larger niching decisions
        N, L = int(rng.integers(1, 7)), int(rng.integers(1, 14))
        nic, d, c = rng.integers(1, N + 1, L), rng.integers(1, 9, L), rng.integers(0, 4, N)
        out += niche_replay(([dict(c=c.tolist(), nic=nic.tolist(), d=d.tolist(), n=int(rng.integers(1, L + 1)))], int(rng.integers(1 << 30))))
        # association
        m = int(rng.integers(2, 4))
        p = int(rng.integers(1, 5 if m == 2 else 4))
        W = np.round(das_dennis(p, m) * p).astype(int)
        W = W[rng.permutation(len(W))]
        n_ = int(rng.integers(1, 9))
        F = rng.integers(0, 7, (n_, m))
        ideal = rng.integers(-3, 1, m)
        r = np.full(m, int(rng.integers(1, 6))) if rng.random() < .5 else rng.integers(1, 3, m)
        v = F * (int(np.lcm.reduce(r)) // r)
        Lc = int(np.lcm.reduce(r))
        Wf = [W.astype(float), W / p, W * 3.0][int(rng.integers(3))]
        how = int(rng.integers(3))

        def go():
            if how == 0:
                a, b, M = associate_to_niches((F + ideal).astype(float), Wf, ideal.astype(float), (ideal + r).astype(float))
            else:
                M = load_function("calc_perpendicular_distance", ["", "python", "cython"][how])((v / Lc).astype(float), Wf)
                M = np.asarray(M)
                a, b = M.argmin(axis=1), M.min(axis=1)
            return a, b, M
        x, err = guarded(go)
        a, b, M = x if err is None else (np.zeros(n_), np.zeros(n_), np.zeros((n_, len(W))))
        out.append({"key": "association", "ev": [dict(k="assoc", v=v.tolist(), W=W.tolist(), niche=[int(i) + 1 for i in a], dist=clip(b * Lc, 100), mat=clip(M * Lc, 100), raised=err is not None, exc=err or "")]})
        out += decomposition(rng)
        out += aspire(rng)
    return out


def aspire(rng):
    """directions around made-up aspiration points"""
    m = int(rng.integers(2, 4))
    p = int(rng.integers(1, 6 if m == 2 else 4))
    R = np.round(das_dennis(p, m) * p).astype(int)
    q = rng.integers(0, 9, (int(rng.integers(1, 4)), m))
    q[q.sum(axis=1) == 0] = 1
    mu = int(rng.choice([20, 50, 100, 300, 1000]))
    x, err = guarded(lambda: get_ref_dirs_from_points(q * float(rng.choice([.1, 1, 3])), R / p, mu=mu / 1000))
    return [{"key": "aspiration-directions", "ev": [dict(k="aspire", R=R.tolist(), P=p, p=q.tolist(), a=mu, dirs=clip(x, 1e4) if err is None else [], tol=8, raised=err is not None, exc=err or "")]}]


def aspire_event(s, R, p, mu):
    """... and those in use, in the normalised space"""
    if s.nadir_point is None:
        return []
    ideal, nadir = np.asarray(s.ideal_point), np.asarray(s.nadir_point)
    q = ints(np.round((s.ref_points - ideal) / (nadir - ideal) * 1e4)[0]) if len(s.ref_points) == 1 else [ints(np.round(r * 1e4)) for r in (s.ref_points - ideal) / (nadir - ideal)]
    q = [q] if len(s.ref_points) == 1 else q
    if any(max(r) > 150000 or min(r) < 0 or sum(r) < 3000 for r in q):
        return []
    return [dict(k="aspire", R=np.round(R * p).astype(int).tolist(), P=p, p=q, a=int(round(mu * 1000)), dirs=clip((s.ref_dirs - ideal) / (nadir - ideal), 1e4), tol=25, raised=False, exc="")]


def decomposition(rng):
    out = []
    m = int(rng.integers(2, 4))
    kind = ["tcheb", "sum", "asf", "pbi", "aasf", "perp"][int(rng.integers(6))]
    nF, nW = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    mode = ["one_to_one", "one_to_many", "many_to_one", "many_to_many"][int(rng.integers(4))]
    if mode == "one_to_one":
        nW = nF = max(nF, 2)
    if mode == "one_to_many":
        nF, nW = 1, max(2, nW)
    if mode == "many_to_one":
        nF, nW = max(2, nF), 1
    if mode == "many_to_many":
        nF = nF + (nF == nW)
        nF, nW = max(2, nF), max(2, nW)
        if nF == nW:
            nF += 1
    F = rng.integers(0, 9, (nF, m))
    W = rng.integers(0, 4, (nW, m))
    if kind in ("asf", "aasf"):
        W = np.maximum(W, 1)
    W[W.sum(axis=1) == 0] = 1
    eps = int(rng.integers(0, 2))
    ideal = rng.integers(-2, 3, m)
    utop = bool(rng.random() < .4)
    z = ideal - 1 if utop else ideal - eps
    theta = int(rng.choice([0, 1, 5]))
    rho = int(rng.integers(0, 3))
    cls = {"tcheb": lambda: Tchebicheff(eps=eps), "sum": lambda: WeightedSum(eps=eps), "asf": lambda: ASF(eps=eps), "pbi": lambda: PBI(theta=theta, eps=eps),
           "aasf": lambda: AASF(rho=rho, eps=eps), "perp": lambda: PerpendicularDistance(eps=eps)}[kind]
    kw = dict(ideal_point=ideal.astype(float))
    if utop:
        kw["utopian_point"] = (ideal - 1).astype(float)
    if rng.random() < .5:
        kw["_type"] = mode
    a, b = F.astype(float), W.astype(float)
    if mode == "one_to_many" and rng.random() < .5:
        a = a[0]
    if mode == "many_to_one" and rng.random() < .5:
        b = b[0]
    D, err = guarded(lambda: np.asarray((cls() if rng.random() < .5 else cls().do)(a, b, **kw)))
    pairs, shape, want = [], [], []
    if err is None:
        want = [nF, nW] if mode == "many_to_many" else [max(nF, nW)]
        shape = list(D.shape)
        if shape == want:
            prod = [int(np.prod(np.where(w == 0, 1, w))) for w in W]
            nrm = np.linalg.norm(W, axis=1)
            for i in range(nF):
                for k in range(nW):
                    if mode == "one_to_one" and i != k:
                        continue
                    v = D[i, k] if mode == "many_to_many" else D[max(i, k)]
                    s = {"tcheb": 1, "sum": 1, "asf": prod[k], "aasf": prod[k], "pbi": 100 * nrm[k], "perp": 100 * nrm[k]}[kind]
                    pairs.append([i + 1, k + 1, clip([v], s)[0]])
    out.append({"key": "decomposition-" + kind, "ev": [dict(k="decomp", kind=kind, F=F.tolist(), W=W.tolist(), z=z.tolist(), theta=theta if kind == "pbi" else rho, pairs=pairs, shape=shape, want=want,
                                                         tol=(theta + 2 if kind == "pbi" else 2 if kind == "perp" else 0), raised=err is not None, exc=err or "")]})
    return out


# ------------------------------------------------------------------------------------ NSGA-III generations
def survive_event(surv, inds, res, n, opt, hyper, err, aspiration=False):
    pos = {id(x): i + 1 for i, x in enumerate(inds)}
    F = np.array([x.F for x in inds], float)
    cv = [int(bool(x.CV[0] > 0)) for x in inds]
    m = F.shape[1]
    if err is not None:
        return dict(k="survive", raised=True, exc=err)
    nm = surv if aspiration else surv.norm
    ideal, worst = np.asarray(nm.ideal_point), np.asarray(nm.worst_point)
    has = 0 in cv
    ext, nadir = nm.extreme_points, nm.nadir_point
    if has and nadir is not None:
        den = nadir - ideal
        den = np.where(den == 0, 1e-12, den)
        R = (surv.ref_dirs - ideal) / (nadir - ideal) if aspiration else surv.ref_dirs
        D = clip(perp((F - ideal) / den, R), 1e5)
    else:
        D = [[0] * len(surv.ref_dirs) for _ in inds]
    g = lambda x, a: (-1 if x.get(a) is None else x.get(a))
    ev = dict(k="survive", F=ints(F), cv=cv, n=n, chosen=[pos.get(id(x), 0) for x in res], ideal=[HUGE if not np.isfinite(v) else int(v) for v in ideal], worst=[-HUGE if not np.isfinite(v) else int(v) for v in worst],
              hyper=hyper and m in (2, 3) and has, ext=ints(ext) if has and ext is not None else [], nadir=clip(nadir, 1000) if has and nadir is not None else [0] * m, D=D,
              nicheof=[int(g(x, "niche")) + 1 for x in inds], rankof=[int(g(x, "rank")) for x in inds],
              distof=clip([float(g(x, "dist_to_niche")) for x in inds], 1e5), opt=[pos.get(id(x), 0) for x in (opt if opt is not None and has else [])], raised=False, exc="")
    return ev


def start(m, ref=None):
    return dict(ideal=[HUGE] * m, worst=[-HUGE] * m, ref=[] if ref is None else np.asarray(ref).astype(int).tolist())


def pop_of(F, cv):
    p = Population.new(X=np.zeros((len(F), 1)))
    for i, x in enumerate(p):
        x.F = np.array(F[i], float)
        x.G = np.array([float(cv[i]) if cv[i] else -1.0])
        x.H = np.zeros(0)
        x.evaluated.update(("F", "G", "H"))
    return p


def generations(task):
    """the survival alone, over a made-up sequence of generations"""
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        m = int(rng.choice([2, 2, 3, 3, 4]))
        p = int(rng.integers(1, {2: 7, 3: 4, 4: 3}[m]))
        asp = bool(rng.random() < .25) and m < 4
        K = int(rng.choice([2, 5, 12, 40]))
        low = int(rng.choice([0, 0, -5]))
        prob = Problem(n_var=1, n_obj=m, n_ieq_constr=1, xl=0, xu=1)
        if asp:
            ref = rng.integers(0, K, (int(rng.integers(1, 3)), m))
            s = AspirationPointSurvival(ref.astype(float), das_dennis(p, m), mu=float(rng.choice([.05, .3])))
            cfg = start(m, ref)
        else:
            s = ReferenceDirectionSurvival(das_dennis(p, m))
            cfg = start(m)
        ev, pop = [], Population.create()
        ns = int(rng.integers(1, 9))
        for g in range(int(rng.integers(1, 5))):
            k = int(rng.integers(1, 9))
            F = rng.integers(low, low + K + 1, (k, m))
            if rng.random() < .3:
                F[:, 0] = K - F[:, 1:].sum(axis=1) + low        # many non-dominated ones
                F = np.clip(F, -45, 45)
            cv = rng.integers(0, 3, k) * (rng.random() < .5)
            inds = list(pop) + list(pop_of(F.tolist(), cv.tolist()))
            seed_ = int(rng.integers(1000))
            mp = Population.create(*inds)
            order = rng.permutation(len(mp))
            r, err = guarded(lambda: s.do(prob, mp[order], n_survive=ns, random_state=np.random.default_rng(seed_)))
            ev.append(survive_event(s, inds, [] if err else list(r), ns, s.opt, not asp, err, asp))
            if err:
                break
            pop = r
        out.append({"key": "rnsga3-survival" if asp else "nsga3-survival", "cfg": cfg, "ev": ev})
    return out


class GridProblem(RecProblem):
    pass


def nsga3_runs(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        name = ["NSGA3", "UNSGA3", "RNSGA3"][int(rng.integers(3))]
        m = int(rng.choice([2, 3]))
        spec = pspec(n_obj=m, n_var=int(rng.integers(2, 5)), n_ieq=int(rng.choice([0, 0, 1])), feas=str(rng.choice(["some", "hard", "never"])), K=int(rng.choice([6, 40])), pseed=int(rng.integers(1 << 20)))
        prob = RecProblem(spec)
        parts = int(rng.integers(1, 6 if m == 2 else 4))
        R = das_dennis(parts, m)
        kw = dict(pop_size=int(len(R) + rng.integers(0, 5)))
        if rng.random() < .3:
            kw["n_offsprings"] = int(rng.integers(1, 6))
        if name == "RNSGA3":
            ref = rng.integers(0, spec["K"] // 2 + 1, (1, m))
            mu = float(rng.choice([.05, .1, .3, .7]))
            alg = RNSGA3(ref.astype(float), pop_per_ref_point=len(R), mu=mu)
            cfg = start(m, ref)
        else:
            alg = dict(NSGA3=NSGA3, UNSGA3=UNSGA3)[name](R, **kw)
            cfg = start(m)
        alg.setup(prob, termination=("n_gen", 6), seed=int(rng.integers(1000)), verbose=False)
        ev = []

        def go():
            while alg.has_next():
                before = [] if alg.pop is None else list(alg.pop)
                off = alg.ask()
                if off is None:
                    break
                alg.evaluator.eval(prob, off)
                inds = before + list(off)
                nn = len(inds) if not before else alg.pop_size
                alg.tell(infills=off)
                ev.append(survive_event(alg.survival, inds, list(alg.pop), nn, alg.survival.opt, name != "RNSGA3", None, name == "RNSGA3"))
                if name == "RNSGA3":
                    ev.extend(aspire_event(alg.survival, R, parts, mu))
        _, err = guarded(go, timeout=60)
        if err:
            ev.append(dict(k="survive", raised=True, exc=err))
        out.append({"key": name, "cfg": cfg, "ev": ev})
    return out


# ------------------------------------------------------------------------------------ RVEA
def unit(R):
    return R / np.linalg.norm(R, axis=1)[:, None]


def angles(F, ideal, V):
    G = F - ideal
    d = np.linalg.norm(G, axis=1)
    d[d < 1e-64] = 1e-64
    return d, np.arccos(np.clip((G / d[:, None]) @ V.T, -1, 1))


def apd_event(s, inds, res, V, gamma, ratio, m, err):
    feas = [x for x in inds if not x.CV[0] > 0]
    pos = {id(x): i + 1 for i, x in enumerate(feas)}
    if err is not None:
        return dict(k="apd", raised=True, exc=err)
    F = np.array([x.F for x in feas], float)
    d, A = angles(F, np.asarray(s.ideal), V)
    nic = [int(x.get("niche")) if x.get("niche") is not None else -1 for x in feas]
    M = m if m > 2 else 1.0
    apd = [d[i] * (1 + M * ratio * A[i, k] / gamma[k]) if 0 <= k < len(V) else 0 for i, k in enumerate(nic)]
    return dict(k="apd", F=ints(F), ang=clip(A, 1e6), niche=[k + 1 for k in nic], apd=clip(apd, 1e4), ideal=ints(s.ideal), nadir=ints(s.nadir),
                chosen=[pos[id(x)] for x in res if id(x) in pos], raised=False, exc="")


def own_gamma(V):
    C = np.arccos(np.clip(V @ V.T, -1, 1))
    np.fill_diagonal(C, np.inf)
    return np.maximum(C.min(axis=1), 1e-64)


def rvea(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for q in range(n):
        m = int(rng.choice([2, 2, 3]))
        R = das_dennis(int(rng.integers(1, 6 if m == 2 else 4)), m)
        alpha = float(rng.choice([1.0, 2.0]))
        K = int(rng.choice([2, 6, 40]))
        if rng.random() < .5:     # the survival alone
            s = APDSurvival(R, alpha=alpha)
            prob = Problem(n_var=1, n_obj=m, n_ieq_constr=1, xl=0, xu=1)
            ev, pop, V = [], Population.create(), unit(R)
            for g in range(int(rng.integers(1, 5))):
                k = int(rng.integers(1, 9))
                F = rng.integers(0, K + 1, (k, m))
                if rng.random() < .3:
                    F = F[:, :1] + np.round(R[rng.integers(len(R), size=k)] * 12).astype(int)    # on the directions
                inds = list(pop) + list(pop_of(F.tolist(), [0] * k))
                gam = own_gamma(V)
                r, err = guarded(lambda: s.do(prob, Population.create(*inds), n_survive=len(R), n_gen=g, n_max_gen=5))
                ev.append(apd_event(s, inds, [] if err else list(r), V, gam, (g / 5) ** alpha, m, err))
                if err:
                    break
                pop = r
                if rng.random() < .4:
                    s.adapt()
                    rg = np.asarray(s.nadir - s.ideal, float)
                    ok = (rg > 0).all()
                    V2 = unit(unit(R) * np.where(rg > 0, rg, 1)) if ok else np.asarray(s.V)
                    ev.append(dict(k="holds", ok=bool(np.isfinite(s.V).all() and np.allclose(V2, s.V, atol=1e-9)), what="vectors adapted to the ranges"))
                    V = V2 if ok else np.asarray(s.V)
                    if not np.isfinite(V).all():
                        break
            out.append({"key": "rvea-survival", "cfg": start(m), "ev": ev})
            continue
        spec = pspec(n_obj=m, n_var=int(rng.integers(2, 5)), n_ieq=0, K=K, pseed=int(rng.integers(1 << 20)))
        prob = RecProblem(spec)
        ng = int(rng.integers(3, 9))
        fr = float(rng.choice([.1, .3, .5]))
        alg = RVEA(R, alpha=alpha, adapt_freq=fr, pop_size=int(len(R) + rng.integers(0, 4)))
        alg.setup(prob, termination=("n_gen", ng), seed=int(rng.integers(1000)), verbose=False)
        ev, V = [], [unit(R)]

        def go():
            g = 0
            while alg.has_next():
                before = [] if alg.pop is None else list(alg.pop)
                off = alg.ask()
                if off is None:
                    break
                g += 1
                alg.evaluator.eval(prob, off)
                alg.tell(infills=off)
                s = alg.survival
                if g == 1:
                    continue
                ev.append(apd_event(s, before + list(off), list(alg.pop), V[0], own_gamma(V[0]), ((g - 1) / ng) ** alpha, m, None))
                rg = np.asarray(s.nadir - s.ideal, float)
                if g % int(np.ceil(ng * fr)) == 0:
                    V[0] = unit(unit(R) * rg) if (rg > 0).all() else np.asarray(s.V)
                ev.append(dict(k="holds", ok=bool(np.isfinite(s.V).all() and np.allclose(V[0], s.V, atol=1e-9)), what="vectors adapted to the ranges, only when due"))
                if not np.isfinite(s.V).all():
                    break
        _, err = guarded(go, timeout=60)
        if err:
            ev.append(dict(k="apd", raised=True, exc=err))
        out.append({"key": "RVEA", "cfg": start(m), "ev": ev})
    return out


# ------------------------------------------------------------------------------------ C-TAEA
def arch_event(s, ca0, off, da0, ca, da, n, err):
    if err is not None:
        return dict(k="arch", raised=True, exc=err)
    every, pos = [], {}
    for x in list(ca0) + list(off) + list(da0):
        if id(x) not in pos:
            every.append(x)
            pos[id(x)] = len(every)
    F = np.array([x.F for x in every], float)
    R, id_ = s.ref_dirs, np.asarray(s.ideal_point)
    D = perp(F - id_, R)
    W = np.where(R == 0, 1e-4, R)[D.argmin(axis=1)]
    FV = ((F - id_) / W).max(axis=1)
    ix = lambda P: [pos.get(id(x), 0) for x in P]
    return dict(k="arch", F=ints(F), cv=[int(round(float(x.CV[0]))) for x in every], D=clip(D, 1e5), FV=clip(FV, 100), ca0=ix(ca0), off=ix(off), da0=ix(da0), ca=ix(ca), da=ix(da), n=n, ideal=ints(id_), raised=False, exc="")


def ctaea(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        m = int(rng.choice([2, 2, 3]))
        R = das_dennis(int(rng.integers(1, 6 if m == 2 else 4)), m)
        N = len(R)
        if rng.random() < .5:
            s = CADASurvival(R)
            prob = Problem(n_var=1, n_obj=m, n_ieq_constr=1, xl=0, xu=1)
            K = int(rng.choice([3, 10, 40]))
            mk = lambda: list(pop_of(rng.integers(0, K + 1, (N, m)).tolist(), (rng.integers(0, 4, N) * (rng.random() < .6)).tolist()))
            first = mk()
            rs = np.random.default_rng(int(rng.integers(1000)))
            r, err = guarded(lambda: s.do(prob, Population.create(*first), Population.create(), n_survive=N, random_state=rs), timeout=30)
            ev = [arch_event(s, [], first, [], *((list(r[0]), list(r[1])) if not err else ([], [])), N, err)]
            for g in range(3):
                if err:
                    break
                ca, da = r
                off = mk()
                r, err = guarded(lambda: s.do(prob, Population.merge(ca, Population.create(*off)), da, N, random_state=rs), timeout=30)
                ev.append(arch_event(s, list(ca), off, list(da), *((list(r[0]), list(r[1])) if not err else ([], [])), N, err))
            out.append({"key": "ctaea-survival", "cfg": start(m), "ev": ev})
            continue
        vt = "real" if rng.random() < .6 else "int"
        spec = pspec(n_obj=m, n_var=int(rng.integers(2, 4)), n_ieq=int(rng.choice([0, 1, 1])), feas=str(rng.choice(["some", "hard", "never"])), K=int(rng.choice([6, 40])), pseed=int(rng.integers(1 << 20)))
        prob = RecProblem(spec)
        kw = {}
        few = rng.random() < .35
        if few:      # fewer individuals than directions to start with
            kw["sampling"] = rng.random((int(rng.integers(2, N + 1)), spec["n_var"]))
        alg = CTAEA(R, **kw)
        alg.setup(prob, termination=("n_gen", 5), seed=int(rng.integers(1000)), verbose=False)
        ev = []

        def go():
            while alg.has_next():
                ca0 = [] if alg.pop is None else list(alg.pop)
                da0 = [] if alg.da is None else list(alg.da)
                off = alg.ask()
                if off is None:
                    break
                alg.evaluator.eval(prob, off)
                lst = list(off)
                if rng.random() < .3 and ca0 and len(lst) > 1:
                    lst = lst[:int(rng.integers(1, len(lst)))]      # only some of them come back
                nn = len(lst) if not ca0 else alg.pop_size
                alg.tell(infills=Population.create(*lst))
                nn = min(nn, len(ca0) + len(lst))
                ev.append(arch_event(alg.survival, ca0, lst, da0, list(alg.pop), list(alg.da), nn, None))
        _, err = guarded(go, timeout=40)
        if err:
            ev.append(dict(k="arch", raised=True, exc=err))
        out.append({"key": "CTAEA" + ("-few" if few else ""), "cfg": start(m), "ev": ev})
    return out


# ------------------------------------------------------------------------------------ MOEA/D
class Identity(Problem):
    """the objectives are the variables"""

    def __init__(self, m, G):
        super().__init__(n_var=m, n_obj=m, xl=np.zeros(m), xu=np.full(m, float(G)))

    def _evaluate(self, X, out, *args, **kwargs):
        out["F"] = np.asarray(X, float).copy()


class Script(Mating):
    """offspring from a list"""

    def __init__(self, inner, offs):
        super().__init__(inner.selection, inner.crossover, inner.mutation)
        self.inner, self.offs = inner, list(offs)

    def do(self, problem, pop, n_offsprings, **kwargs):
        k = 1 if n_offsprings == 1 else len(kwargs.get("parents"))
        return Population.new(X=np.array([self.offs.pop(0) if self.offs else np.full(problem.n_obj, problem.xu[0]) for _ in range(k)], float))


def moead_run(key, alg, prob, W, T, kind, theta, n_steps, seed, script=None):
    alg.setup(prob, termination=("n_eval", 10**6), seed=seed, verbose=False)
    if script is not None:
        alg.mating = Script(alg.mating, script)
    ev = []
    cfg = dict(W=W.tolist(), nb=[[int(i) + 1 for i in r] for r in alg.neighbors], kind=kind, theta=theta)
    ev.append(dict(k="neighbours", T=T))
    seen = [None]
    sel = alg.selection.do

    def watch(*a, **kw):
        seen[0] = kw.get("neighbors")
        return sel(*a, **kw)
    alg.selection.do = watch
    par = isinstance(alg, ParallelMOEAD)

    def sub():
        if seen[0] is None or len(seen[0]) != 1:
            return 0
        hit = [k for k, r in enumerate(alg.neighbors) if list(r) == list(seen[0][0])]
        return hit[0] + 1 if len(hit) == 1 else 0

    def go():
        off = alg.ask()
        alg.evaluator.eval(prob, off)
        alg.tell(infills=off)
        cfg["pop"] = [ints(x.F) for x in alg.pop]
        cfg["z"] = ints(alg.ideal)
        if cfg["z"] != [min(f[j] for f in cfg["pop"]) for j in range(W.shape[1])]:
            ev.append(dict(k="holds", ok=False, what="ideal point of the initial population"))
        for _ in range(n_steps):
            prev = list(alg.pop)
            off = alg.ask()
            k = sub()
            alg.evaluator.eval(prob, off)
            fs = [ints(x.F) for x in ([off] if isinstance(off, Individual) else off)]
            ks = [int(i) + 1 for i in alg.indices] if par else []
            alg.tell(infills=off)
            now = list(alg.pop)
            if par:
                ev.append(dict(k="batch", fs=fs, ks=ks, after=[ints(x.F) for x in now], z=ints(alg.ideal), raised=False))
            else:
                ev.append(dict(k="moead", f=fs[0], sub=k, took=[j + 1 for j in range(len(now)) if j >= len(prev) or now[j] is not prev[j]], after=[ints(x.F) for x in now], z=ints(alg.ideal), raised=False, exc=""))
    _, err = guarded(go, timeout=60)
    if err:
        ev.append(dict(k="moead", raised=True, exc=err))
    if "pop" not in cfg:
        cfg["pop"], cfg["z"] = [], []
    return {"key": key, "cfg": cfg, "ev": ev}


KIND = {"tcheb": Tchebicheff, "sum": WeightedSum, "asf": ASF, "pbi": PBI}


def moead_replay(task):
    L, seed = task
    out = []
    for q, h in enumerate(L):
        W = np.round(das_dennis(h["W"] - 1, 2) * (h["W"] - 1)).astype(int)
        prob = Identity(2, 2)
        alg = [MOEAD, MOEAD, ParallelMOEAD][q % 3](W / (h["W"] - 1), n_neighbors=h["T"], decomposition=Tchebicheff(), sampling=np.array(h["pop"], float), prob_neighbor_mating=0.9)
        offs = [list(f) for f in h["offs"]]
        out.append(moead_run("moead-history" if q % 3 < 2 else "parallel-history", alg, prob, W, h["T"], "tcheb", 5, len(offs) if q % 3 < 2 else 1, seed + q, offs))
    return out


def moead(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        m = int(rng.choice([2, 2, 3]))
        p = int(rng.integers(2, 6 if m == 2 else 4))
        kind = str(rng.choice(["tcheb", "sum", "asf", "pbi"]))
        W = np.round(das_dennis(p, m) * p).astype(int)
        if kind == "asf":
            W = W + 1
        N = len(W)
        T = int(rng.integers(2, N + 3))
        par = bool(rng.random() < .3) and kind != "pbi"
        kw = {}
        if par and rng.random() < .5:
            kw["n_offsprings"] = int(rng.integers(1, N + 1))
        theta = 5
        d = {"pbi": lambda: PBI(theta=5)}.get(kind, KIND[kind])()
        if kind == "asf" or par or rng.random() < .5:      # (rounded weights leave ties open)
            D = W.astype(float)
        else:
            D = W / p
        if rng.random() < .5:
            G = int(rng.choice([2, 8]))
            prob = Identity(m, G)
            kw["sampling"] = rng.integers(0, G + 1, (N, m)).astype(float)
            script = rng.integers(0, G + 1, (60, m)).tolist()
        else:
            prob = RecProblem(pspec(n_obj=m, n_var=3, K=int(rng.choice([4, 9])), pseed=int(rng.integers(1 << 20))))
            script = None
        alg = (ParallelMOEAD if par else MOEAD)(D, n_neighbors=T, decomposition=d, prob_neighbor_mating=float(rng.choice([0, .9, 1])), **kw)
        out.append(moead_run("ParallelMOEAD" if par else "MOEAD-" + kind, alg, prob, W, T, kind, theta, 4 if par else 2 * N + 2, int(rng.integers(1000)), script))
    return out


def defaults(task):
    ev = []

    def go():
        prob = RecProblem(pspec(n_obj=2, n_var=2))
        a = MOEAD()
        a.setup(prob, termination=("n_eval", 105), seed=1, verbose=False)
        a.run()
        return len(a.pop)
    v, err = guarded(go, timeout=60)
    ev.append(dict(k="holds", ok=v == 100, what="default directions: one solution per sub-problem"))
    return [{"key": "defaults", "ev": ev}]


F = {"n": niche_replay, "f": funcs, "g": generations, "r": nsga3_runs, "v": rvea, "c": ctaea, "h": moead_replay, "m": moead, "d": defaults}


def one(task):
    return F[task[0]](task[1])


def crash(task, why):
    return [{"key": "process-" + task[0], "ev": [dict(k="process ended: " + str(why))]}]


def main():
    c = Check("C22")
    rng = np.random.default_rng(SEED)
    S = lambda: int(rng.integers(1 << 30))
    H = []
    for N, C, K in ((2, 2, 4), (3, 1, 4)) if THOROUGH else ((2, 1, 4),):
        H += c.paths("MC_Niching", "SPECIFICATION Spec\nCONSTANTS N=%d C=%d K=%d DMax=2\nINVARIANT Balanced Represented NeverStuck EveryNicheKept EmitInv\nCHECK_DEADLOCK FALSE\n" % (N, C, K))
    P = []
    for W, T, G, R in ((3, 2, 2, 2), (4, 2, 1, 2)) if THOROUGH else ((3, 2, 2, 2),):
        P += c.paths("MC_Decomp", 'SPECIFICATION Spec\nCONSTANTS W=%d T=%d G=%d R=%d Kind="tcheb"\nINVARIANT Ideal EmitInv\nPROPERTY Monotone IdealNever Touched\nCHECK_DEADLOCK FALSE\n' % (W, T, G, R))
    c.notes["niching_from_tlc"], c.notes["histories_from_tlc"] = len(H), len(P)
    if not THOROUGH:
        P = [P[i] for i in rng.permutation(len(P))[:400]]
    k = 12 if THOROUGH else 1
    tasks = [("n", (H[i::8], S())) for i in range(8)] + [("h", (P[i::16], S())) for i in range(16)] + [("d", 0)]
    tasks += [("f", (S(), 40)) for _ in range(8 * k)] + [("g", (S(), 20)) for _ in range(8 * k)] + [("r", (S(), 4)) for _ in range(8 * k)]
    tasks += [("v", (S(), 10)) for _ in range(8 * k)] + [("c", (S(), 6)) for _ in range(8 * k)] + [("m", (S(), 4)) for _ in range(8 * k)]
    tr = []
    for part in pmap(one, tasks, on_crash=crash):
        tr += part
    c.validate("NicheTrace", tr)
    c.finish(rule="niching decisions and sub-problem histories enumerated by TLC and replayed; made-up generations and recorded runs of NSGA-III, U-NSGA-III, R-NSGA-III, RVEA, C-TAEA and MOEA/D (both variants, four scalarisations) on integer-valued problems; every generation judged; association and scalarisations exact", exhaustive=False)


if __name__ == "__main__":
    main()
