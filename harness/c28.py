"""C28: preferences of a decision maker. Prefer.tla (modules MC_Prefer, PreferTrace)."""
from zoo import *
import builtins, contextlib, io, itertools
os.environ.setdefault("MPLBACKEND", "Agg")
from pymoo.algorithms.moo.pinsga2 import PINSGA2, AutomatedDM
from pymoo.core.callback import Callback
from pymoo.util import value_functions as VF
from pymoo.util.vf_dominator import VFDominator
from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
from pymoo.util.reference_direction import select_points_with_maximum_distance
from pymoo.optimize import minimize
from pymoo.problems import get_problem

DEBUG = os.environ.get("VERIF_DEBUG")
UNIT = 100000


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


@contextlib.contextmanager
def typed(answer):
    """a person at the keyboard"""
    old = builtins.input
    builtins.input = answer
    try:
        yield
    finally:
        builtins.input = old


def where(p, F):
    """which row of F the shown point is (1-based)"""
    for i, f in enumerate(F):
        if np.allclose(p, f):
            return i + 1
    return 0


def note(e, err):
    e["raised"] = bool(err)
    if err and DEBUG:
        print(e["k"], err)
    return e


class DM(AutomatedDM):
    def __init__(self, answer):
        super().__init__()
        self.answer = answer

    def makeDecision(self, F):
        return self.answer(F)


# ----------------------------------------------------------------------------------- cases of the specification
def cases(task):
    seed, items = task
    rng = np.random.default_rng(seed)
    out = []
    for c in items:
        k = c["k"]
        if k == "rank":
            n, m = len(c["u"]), int(rng.integers(2, 4))
            F = rng.permutation(20)[:n, None] + rng.random((n, m))
            sg = rng.choice([-1.0, 1.0], m) if rng.random() < 0.5 else np.ones(m)
            e = dict(k="rank", u=c["u"], got=[], asked=[])

            def say(P):
                i, j = where(P[0] * sg, F), where(P[1] * sg, F)
                e["asked"].append([i, j])
                a = c["u"][i - 1] - c["u"][j - 1] if i and j else 0
                return said("a" if a > 0 else "b" if a < 0 else "c")

            way = int(rng.integers(0, 3))
            how = int(rng.integers(0, 3)) if way != 1 else 0        # answers of people
            said = [lambda q: q, str.upper, lambda q: " %s " % q][how]

            def go():
                with quiet():
                    if way == 0:
                        e["got"] = [int(v) for v in PINSGA2._get_pairwise_ranks(F, sg, dm=say)]
                    elif way == 1:
                        sg[:] = 1.0
                        a = PINSGA2(automated_dm=DM(say))
                        e["got"] = [int(v) for v in a.automated_dm.makePairwiseDecision(F)]
                    else:
                        junk = iter(rng.random(100) < 0.2)

                        def key(prompt):
                            if next(junk, False):
                                return "what?"
                            rows = [q.split("]", 1)[1].strip(" []") for q in prompt.split("\n") if q.startswith(("[a]", "[b]"))]
                            return " %s " % str(rng.choice([str.upper, str.lower])(say([np.array([float(v) for v in r.split()]) for r in rows])))
                        with typed(key):
                            e["got"] = [int(v) for v in PINSGA2._get_pairwise_ranks(F, sg)]
            _, err = guarded(go, timeout=20)
        elif k == "dialog":
            e = dict(k="dialog", n=c["n"], answers=c["answers"], got=[], prompts=0)

            def key(prompt):
                a = c["answers"][min(e["prompts"], len(c["answers"]) - 1)]
                e["prompts"] += 1
                return (", " if rng.random() < 0.5 else " ").join(str(v) for v in a)

            def go():
                with quiet(), typed(key):
                    e["got"] = [int(v) for v in PINSGA2._get_ranks(rng.random((c["n"], 2)), np.ones(2))]
            _, err = guarded(go, timeout=20)
        elif k == "matrix":
            F, w = np.array(c["F"], float), np.array(c["w"], float)
            vf = lambda P: P @ w
            holder = type("A", (), {})()
            holder.vf_res, holder.v2 = (VF.vfResults(vf, w, 0.0, True) if c["on"] else None), c["v2"] if c["on"] else None
            e = dict(k="matrix", F=c["F"], on=c["on"], w=c["w"], v2=c["v2"], M=[], fronts=[], cmp=[])

            def go():
                A = F.copy()
                d = VFDominator(holder)
                e["M"] = [[int(v) for v in r] for r in d.calc_domination_matrix(A)]
                e["fronts"] = [[int(i) + 1 for i in f] for f in NonDominatedSorting(dominator=d).do(A)]
                if c["on"]:
                    b = F[[i for i in range(len(F)) if -F[i] @ w == c["v2"]][0]]
                    q = VF.make_vf_comparator(vf, -b)
                    e["cmp"] = [int(q(-f)) for f in F]
                assert np.array_equal(A, F)
            _, err = guarded(go, timeout=20)
        elif k == "poly":
            P = np.array(list(itertools.product((-1, 0, 2), repeat=2)), float)
            e = dict(k="poly", x=c["x"], P=[[int(v) for v in p] for p in P], got=[])

            def go():
                v = VF.poly_vf(P, np.array(c["x"] + [0, 0], float))
                e["got"] = [int(round(q)) for q in v]
            _, err = guarded(go, timeout=20)
        else:
            X = np.array(c["X"], float)
            sel = [int(v) for v in rng.permutation(len(X))[:int(rng.integers(1, c["n"]))]] if rng.random() < 0.4 else []
            e = dict(k="far", X=c["X"], n=c["n"], sel=[i + 1 for i in sel], got=[])

            def go():
                a = select_points_with_maximum_distance(X, c["n"], random_state=np.random.default_rng(int(rng.integers(99))), **(dict(selected=list(sel)) if sel else {}))
                e["got"] = [int(v) + 1 for v in a]
            _, err = guarded(go, timeout=20)
        out.append(note(e, err))
    by = {}
    for e in out:
        by.setdefault(e["k"], []).append(e)
    return [{"key": k, "ev": v} for k, v in by.items()]


# ------------------------------------------------------------------------------------------- fitted functions
def fits(task):
    seed, kind, method, n_cases, least = task
    rng = np.random.default_rng(seed)
    ev, could = [], []
    for _ in range(n_cases):
        n, M = int(rng.integers(2, 5)), int(rng.integers(2, 4))
        P = -rng.integers(0, 7, (n, M)).astype(float)
        P = np.unique(P, axis=0)
        P = P[rng.permutation(len(P))]
        n = len(P)
        if n < 2:
            continue
        true = rng.random() < 0.7
        if true:                                    # somebody with a linear value function
            u = np.round(P @ rng.dirichlet(np.ones(M)), 9)
        else:
            u = rng.integers(0, n, n)
        r = [int((np.unique(u) > x).sum()) + 1 for x in u]
        tol = 60 if method == "ES" else 5
        e = dict(k="fit", lin=kind == "linear", P=[[int(v) for v in p] for p in P], r=r, fit=False, v=[], wts=[], sums=[], up=[], eps=0, sc=1, tol=tol, kept=True)

        def go():
            A, q = P.copy(), list(r)
            kw = dict(method=method)
            f = VF.create_linear_vf if kind == "linear" else VF.create_poly_vf
            if rng.random() < 0.25:
                with quiet():
                    res = VF.create_vf(A, q, None, vf=kind, method=method)
            else:
                res = f(A, q, max_iter=400 if rng.random() < 0.5 else None, **kw)
            e["kept"] = bool(np.array_equal(A, P) and q == r)
            e["fit"] = bool(res.fit)
            if e["fit"]:
                v = np.array([float(np.ravel(res.vf(P[[i]]))[0]) for i in range(n)])
                if rng.random() < 0.5:
                    v = np.ravel(np.asarray(res.vf(P), float))
                sc = 6.0 if kind == "linear" else max(1.0, np.abs(v).max())
                e["sc"] = int(sc) if kind == "linear" else 1
                e["v"] = [int(round(x / sc * UNIT)) for x in v]
                e["eps"] = int(round(res.epsilon / sc * UNIT))
                for i in range(n):                  # the same solution, better in some objectives
                    d = rng.integers(0, 3, (3, M)) * rng.integers(0, 2, (3, M))
                    x = np.array([float(np.ravel(res.vf(P[[i]] + q))[0]) for q in d])
                    e["up"].append(int(round(x.min() / sc * UNIT)) - int(round(float(np.ravel(res.vf(P[[i]]))[0]) / sc * UNIT)))
                w = np.asarray(res.params, float)
                G = [w[:M]] if kind == "linear" else [w[i * M:(i + 1) * M] for i in range(M)]
                e["wts"] = [int(round(x * UNIT)) for g in G for x in g]
                e["sums"] = [int(round(g.sum() * UNIT)) for g in G]
        _, err = guarded(go, timeout=120)
        ev.append(note(e, err))
        if true and len(set(r)) == n:
            could.append(e["fit"])
    ev.append(dict(k="share", n=len(could), fits=sum(could), least=least))
    return {"key": "fit/%s/%s" % (kind, method), "ev": ev}


# ------------------------------------------------------------------------------------------------------ runs
class Watch(Callback):
    def __init__(self, box, eta, tau):
        super().__init__()
        self.box, self.eta, self.tau, self.before = box, eta, tau, (None, None)
        self.ev = []

    def update(self, a):
        F = np.array(a.pop.get("F"), float)
        U = np.stack([np.unique(F[:, j], return_inverse=True)[1] for j in range(F.shape[1])], axis=1)
        vf, v2 = self.before
        sd = [0] * len(F)
        if vf is not None:
            v = np.ravel(np.asarray(vf.vf(-F), float))
            sd = [1 if x > v2 else -1 if x < v2 else 0 for x in v]
        B = self.box
        shown = B["shown"]
        idx = [where(p, F) for p in shown]
        self.ev.append(dict(k="gen", gen=int(a.n_gen), tau=self.tau, eta=self.eta, calls=B["calls"], U=U.tolist(), sd=sd, rank=[int(r) for r in a.pop.get("rank")], shown=idx))
        if B["calls"]:
            u = [B["rank"](p) for p in shown]
            u = [sorted(set(u)).index(x) + 1 for x in u]
            st = "none" if a.vf_res is None else "kept" if a.vf_res is vf else "fit"
            e = dict(k="decide", u=u, state=st, v=[], v2=0, raised=False)
            if st == "fit":
                v = np.array([float(np.ravel(a.vf_res.vf(-p[None, :]))[0]) for p in shown])
                sc = max(np.ptp(v), 1e-9)
                e["v"], e["v2"] = [int(np.clip(round((x - v.min()) / sc * UNIT), -10 ** 8, 10 ** 8)) for x in v], int(np.clip(round((a.v2 - v.min()) / sc * UNIT), -10 ** 8, 10 ** 8))
            self.ev.append(e)
        B["calls"], B["shown"] = 0, []
        self.before = (a.vf_res, a.v2)


def runs(task):
    seed, cfg = task
    warnings.filterwarnings("ignore")
    rng = np.random.default_rng(seed)
    m = cfg["m"]
    w = rng.dirichlet(np.ones(m))
    taste = cfg["taste"]

    def score(f):                                   # small is good
        return {"linear": float(w @ f), "last": float(f[-1]), "none": 0.0, "coarse": float(round(4 * (w @ f)))}[taste]
    box = dict(calls=0, shown=[], rank=lambda p: round(score(p), 10))

    def look(P):
        box["calls"] += 1
        for p in P:
            if not any(np.array_equal(p, q) for q in box["shown"]):
                box["shown"].append(np.array(p))
        box["shown"].sort(key=lambda p: (p[0],))

    def pair(P):
        look(P)
        a, b = box["rank"](P[0]), box["rank"](P[1])
        return "a" if a < b else "b" if a > b else "c"

    def absolute(P):
        look(P)
        s = [box["rank"](p) for p in P]
        return np.array([sorted(set(s)).index(x) + 1 for x in s])
    dm = DM(pair if cfg["ranking"] == "pairwise" else absolute)
    watch = Watch(box, cfg["eta"], cfg["tau"])

    def go():
        p = get_problem("zdt1", n_var=4) if m == 2 and not cfg["tri"] else get_problem("dtlz2", n_var=m + 3, n_obj=m)
        a = PINSGA2(pop_size=cfg["pop"], tau=cfg["tau"], eta=cfg["eta"], opt_method=cfg["method"], vf_type=cfg["vf"], ranking_type=cfg["ranking"], automated_dm=dm)
        with quiet():
            minimize(p, a, ("n_gen", cfg["n_gen"]), seed=int(rng.integers(1 << 20)), callback=watch)
    _, err = guarded(go, timeout=240)
    ev = watch.ev
    if err:
        if DEBUG:
            print(cfg, err)
        ev = ev + [dict(k="decide", raised=True, u=[1, 2], state="none", v=[], v2=0)]
    return {"key": "run/%s/%s" % (cfg["vf"], cfg["method"]), "ev": ev}


def fan(z):
    return [q for r in z for q in (r if isinstance(r, list) else [r])]


def main():
    c = Check("C28")
    P = c.paths("MC_Prefer", "SPECIFICATION Spec\nCONSTANTS N=%d Hi=2 Wide=%s\nINVARIANTS Laws Emit\n" % ((5, "TRUE") if THOROUGH else (4, "FALSE")))
    rng = np.random.default_rng(SEED)
    c.notes["cases_from_tlc"] = len(P)
    S = lambda: int(rng.integers(1 << 30))
    crash = lambda t, w: {"key": "crash", "ev": [dict(k="crash")]}
    tr = fan(pmap(cases, [(S(), P[i::16]) for i in range(16)], on_crash=crash))
    n = 60 if THOROUGH else 16
    tasks = []
    for rep in range(3 if THOROUGH else 2):
        tasks += [(S(), "linear", "trust-constr", 3 * n, 5), (S(), "linear", "SLSQP", 3 * n, 60), (S(), "linear", "ES", n // 2, 50),
                  (S(), "poly", "trust-constr", n // 2, 0), (S(), "poly", "SLSQP", 2 * n, 30), (S(), "poly", "ES", max(2, n // 8), 0)]
    tr += fan(pmap(fits, tasks, on_crash=crash))
    cf = []
    for i in range(60 if THOROUGH else 20):
        vf = "linear" if i % 4 else "poly"
        cf.append((S(), dict(m=2 if rng.random() < 0.7 else 3, tri=bool(rng.random() < 0.4), taste=str(rng.choice(["linear", "last", "linear", "coarse", "none"])), pop=int(rng.choice([12, 20, 30])),
                             tau=int(rng.choice([2, 3, 5])), eta=int(rng.choice([2, 3, 4, 5])), method=str(rng.choice(["SLSQP", "trust-constr"])), vf=vf,
                             ranking=str(rng.choice(["pairwise", "absolute"])), n_gen=16)))
    tr += fan(pmap(runs, cf, on_crash=crash))
    dec = [e for q in tr if q["key"].startswith("run/") for e in q["ev"] if e["k"] == "decide" and len(set(e["u"])) > 1]
    tr.append({"key": "run/share", "ev": [dict(k="share", n=len(dec), fits=sum(e["state"] == "fit" for e in dec), least=25)]})
    for meth, least in (("SLSQP", 60), ("trust-constr", 30)):
        ds = [dict(u=e["u"], v=e["v"], v2=e["v2"]) for q in tr if q["key"].startswith("run/") and q["key"].endswith(meth) for e in q["ev"] if e["k"] == "decide" and e["state"] == "fit"]
        tr.append({"key": "run/seconds/" + meth, "ev": [dict(k="seconds", ds=ds, least=least)]})
        if DEBUG:
            for d in ds:
                o = np.argsort(d["u"], kind="stable")
                print(meth, len(o), "follows", bool(np.all(np.diff(np.array(d["v"])[o]) <= 20)), "second", abs(d["v"][o[1]] - d["v2"]) <= 20)
    c.notes["decisions"] = len(dec)
    c.validate("PreferTrace", tr)
    c.finish(rule="every ranking of up to %d solutions, every pair and triple of points of a small grid with three value functions and every split, every product of sums with small shares, point sets for the farthest-first selection, dialogues (TLC); fitted functions by %d batches of random rankings; whole PI-NSGA-II runs with deciders of several tastes" % (5 if THOROUGH else 4, len(tasks)), exhaustive=False)


if __name__ == "__main__":
    main()
