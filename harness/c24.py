"""C24: how runs start: supplied solutions, designs, random samplings. Start.tla (modules MC_Start, StartTrace)."""
from zoo import *
from runs import _imp
from pymoo.core.problem import Problem
from pymoo.core.evaluator import Evaluator
from pymoo.operators.sampling.lhs import LHS, sampling_lhs, criterion_maxmin, criterion_corr
from pymoo.operators.sampling.rnd import FloatRandomSampling, IntegerRandomSampling, BinaryRandomSampling, PermutationRandomSampling
from pymoo.core.mixed import MixedVariableSampling


# ------------------------------------------------------------------------------- supplied solutions
class Codes(Problem):
    """x = [code/16, 1 - code/16]; remembers what it was asked for"""

    def __init__(self, n_obj):
        super().__init__(n_var=2, n_obj=n_obj, xl=0.0, xu=1.0)
        self.rows = []

    def _evaluate(self, X, out, *args, **kwargs):
        X = np.asarray(X)
        self.rows += [code(x) for x in X]
        out["F"] = np.column_stack([X[:, 0] * 16 + k for k in range(self.n_obj)])


def code(x):
    c = float(x[0]) * 16
    return int(c) if c == int(c) and float(x[1]) == 1 - c / 16 else -1


def row(c):
    return np.array([c / 16, 1 - c / 16])


class Even(Repair):
    """odd codes become the even code below"""

    def _do(self, problem, X, **kwargs):
        a = np.floor(X[:, 0] * 8) / 8
        return np.column_stack([a, 1 - a])


RDS = lambda: RD(2, 3)
# constructor, objectives, takes a repair, removes duplicates: None (never), True (always), "?" (as asked for)
START = {
    "GA": (lambda **k: _imp("soo.nonconvex.ga", "GA")(pop_size=5, **k), 1, True, "?"),
    "NicheGA": (lambda **k: _imp("soo.nonconvex.ga_niching", "NicheGA")(pop_size=5, **k), 1, True, "?"),
    "BRKGA": (lambda **k: _imp("soo.nonconvex.brkga", "BRKGA")(n_elites=2, n_offsprings=2, n_mutants=1, **k), 1, True, True),
    "DE": (lambda **k: _imp("soo.nonconvex.de", "DE")(pop_size=5, **k), 1, True, None),
    "ES": (lambda **k: _imp("soo.nonconvex.es", "ES")(n_offsprings=14, **k), 1, True, None),
    "SRES": (lambda **k: _imp("soo.nonconvex.sres", "SRES")(n_offsprings=14, **k), 1, True, None),
    "PSO": (lambda **k: _imp("soo.nonconvex.pso", "PSO")(pop_size=5, **k), 1, True, None),
    "EPPSO": (lambda **k: _imp("soo.nonconvex.pso_ep", "EPPSO")(pop_size=5, **k), 1, True, None),
    "NRBO": (lambda **k: _imp("soo.nonconvex.nrbo", "NRBO")(pop_size=5, **k), 1, True, None),
    "G3PCX": (lambda **k: _imp("soo.nonconvex.g3pcx", "G3PCX")(pop_size=20, **k), 1, True, None),
    "NelderMead": (lambda **k: _imp("soo.nonconvex.nelder", "NelderMead")(n_sample_points=5, **k), 1, False, None),
    "PatternSearch": (lambda **k: _imp("soo.nonconvex.pattern", "PatternSearch")(n_sample_points=5, **k), 1, False, None),
    "CMAES": (lambda sampling=None, **k: _imp("soo.nonconvex.cmaes", "CMAES")(x0=sampling, **k), 1, False, None),
    "NSGA2": (lambda **k: _imp("moo.nsga2", "NSGA2")(pop_size=5, **k), 2, True, "?"),
    "NSGA3": (lambda **k: _imp("moo.nsga3", "NSGA3")(RDS(), pop_size=5, **k), 2, True, "?"),
    "UNSGA3": (lambda **k: _imp("moo.unsga3", "UNSGA3")(RDS(), pop_size=5, **k), 2, True, "?"),
    "RNSGA2": (lambda **k: _imp("moo.rnsga2", "RNSGA2")(ref_points=np.array([[1.0, 2.0]]), pop_size=5, **k), 2, True, "?"),
    "CTAEA": (lambda **k: _imp("moo.ctaea", "CTAEA")(RDS(), **k), 2, True, "?"),
    "SPEA2": (lambda **k: _imp("moo.spea2", "SPEA2")(pop_size=5, **k), 2, True, "?"),
    "SMSEMOA": (lambda **k: _imp("moo.sms", "SMSEMOA")(pop_size=5, **k), 2, True, "?"),
    "AGEMOEA": (lambda **k: _imp("moo.age", "AGEMOEA")(pop_size=5, **k), 2, True, "?"),
    "AGEMOEA2": (lambda **k: _imp("moo.age2", "AGEMOEA2")(pop_size=5, **k), 2, True, "?"),
    "RVEA": (lambda **k: _imp("moo.rvea", "RVEA")(RDS(), **k), 2, True, "?"),
    "DNSGA2": (lambda **k: _imp("moo.dnsga2", "DNSGA2")(pop_size=5, **k), 2, True, "?"),
    "NSDE": (lambda **k: _imp("moo.nsde", "NSDE")(pop_size=5, **k), 2, True, None),
    "GDE3": (lambda **k: _imp("moo.gde3", "GDE3")(pop_size=5, **k), 2, True, None),
    "CMOPSO": (lambda **k: _imp("moo.cmopso", "CMOPSO")(pop_size=5, **k), 2, True, None),
}


def given(task):
    """supplied starts (from TLC) replayed on one optimizer"""
    name, cases, seed = task
    mk, m, can_rep, elim = START[name]
    rng = np.random.default_rng(seed)
    ev = []
    for g, rep, dup in cases:
        rep = rep and can_rep
        e = dict(k="given", g=g, rep=rep, elim=dup if elim == "?" else bool(elim), got=[], rows=[], count=0, kept=[], raised=False)

        def go():
            prob = Codes(m)
            kw = {}
            if rep:
                kw["repair"] = Even()
            if elim == "?":
                kw["eliminate_duplicates"] = dup
            X = np.array([row(s["x"]) for s in g])
            if not any(s["done"] for s in g) and rng.random() < 0.7:
                start = X[0] if len(X) == 1 and rng.random() < 0.5 else X
            else:
                start = Population.new("X", X)
                for ind, s in zip(start, g):
                    if s["done"]:
                        ind.set("F", np.array([1000.0 + s["x"]] * m))
                        ind.evaluated.update(["F", "G", "H"])
            a = mk(sampling=start, **kw)
            a.setup(prob, termination=gen_termination(3), seed=int(rng.integers(1000)), verbose=False)
            inf = a.ask()
            a.evaluator.eval(prob, inf)
            e.update(got=[code(x.X) for x in inf], rows=list(prob.rows), count=int(a.evaluator.n_eval),
                     kept=[bool(x.F[0] == 1000 + code(x.X)) for x in inf])
        _, err = guarded(go, timeout=30)
        if err:
            e["raised"] = True
        ev.append(e)
    return {"key": "given/" + name, "ev": ev}


def untouched(task):
    """what the user supplied is still what it was after a whole run"""
    name, seed = task
    mk, m, can_rep, elim = START[name]
    rng = np.random.default_rng(seed)
    ev = []
    for form in ("array", "ints", "population"):
        # as many as the optimizer works with
        n = {"G3PCX": 20, "CTAEA": 4}.get(name, 5)
        X = rng.permutation(np.array([[a, b] for a in range(-2, 6, 2) for b in range(-2, 5)]))[:n]
        if form != "ints":
            X = X + 0.375
        start = Population.new("X", X.copy()) if form == "population" else X.copy()
        e = dict(k="input", form=form, same=False, raised=False)

        def go():
            from pymoo.optimize import minimize
            mutable = mk(sampling=start, **({"repair": Even()} if can_rep else {}))
            minimize(ZooProblem(pspec(n_obj=m, n_var=2, box="grid", pseed=seed % 50)), mutable, gen_termination(5), seed=seed, copy_algorithm=form == "population" or bool(rng.random() < 0.5), verbose=False)
            now = start.get("X") if form == "population" else start
            e["same"] = bool(np.array_equal(now, X) and now.dtype == X.dtype and (form != "population" or all(len(i.evaluated) == 0 for i in start)))
        _, err = guarded(go, timeout=60)
        e["raised"] = bool(err)
        if err and os.environ.get("VERIF_DEBUG"):
            print(name, form, err)
        ev.append(e)
    return {"key": "input/" + name, "ev": ev}


# ------------------------------------------------------------------------------- where local searches start
class Levels(Problem):
    def __init__(self, con):
        super().__init__(n_var=2, n_obj=1, n_ieq_constr=1 if con else 0, xl=0.0, xu=1.0)
        self.table = {}

    def _evaluate(self, X, out, *args, **kwargs):
        V = [self.table.get(tuple(np.round(x, 12)), (0, 0)) if self.table else (max(0.0, np.floor(8 * x[0]) - 5), np.floor(6 * abs(x[1] - 0.4))) for x in X]
        out["F"] = np.array([[float(v[1])] for v in V])
        if self.n_ieq_constr:
            out["G"] = np.array([[float(v[0]) if v[0] > 0 else -1.0] for v in V])


def begin(task):
    name, seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        con = bool(rng.random() < 0.6) and "CMAES" not in name
        e = dict(k="begin", q=[], at=0, n=0, raised=False)

        def go():
            prob = Levels(con)
            k = int(rng.integers(1, 7))
            kw = {}
            if rng.random() < 0.6:
                X = rng.integers(1, 15, (k, 2)) / 16
                prob.table = {tuple(x): (int(rng.integers(0, 3)) if con else 0, int(rng.integers(0, 4))) for x in X}
                kw["x0" if name == "CMAES" or rng.random() < 0.4 else "sampling"] = X
                e["n"] = k
            elif name == "CMAES":
                e["n"] = 20
            else:
                kw["n_sample_points"] = e["n"] = k + 1
            a = {"NelderMead": _imp("soo.nonconvex.nelder", "NelderMead"), "PatternSearch": _imp("soo.nonconvex.pattern", "PatternSearch"), "CMAES": _imp("soo.nonconvex.cmaes", "CMAES"), "SimpleCMAES": _imp("soo.nonconvex.cmaes", "SimpleCMAES")}[name]
            a = a(**kw)
            a.setup(prob, termination=gen_termination(3), seed=int(rng.integers(1000)), verbose=False)
            inf = a.ask()
            a.evaluator.eval(prob, inf)
            a.tell(infills=inf)
            inf = members(inf)
            e["q"] = [[int(x.CV[0]), int(x.F[0])] for x in inf]
            e["at"] = max([i + 1 for i, x in enumerate(inf) if np.array_equal(x.X, a.x0.X)] or [0])
        _, err = guarded(go, timeout=30)
        e["raised"] = bool(err)
        ev.append(e)
    return {"key": "begin/" + name, "ev": ev}


# ------------------------------------------------------------------------------------------ designs
BOX = {"unit": (0.0, 1.0), "skew": (-3.0, 0.5), "wide": (-64.0, 192.0), "high": (1024.0, 1025.0)}


def boxed(m, rng):
    b = [list(BOX)[int(i)] for i in rng.integers(0, len(BOX), m)]
    xl, xu = np.array([BOX[x][0] for x in b]), np.array([BOX[x][1] for x in b])
    fixed = rng.random(m) < 0.15
    xu = np.where(fixed, xl, xu)
    return xl, xu, [bool(x) for x in fixed]


def cells(X, n, xl, xu, fixed):
    C, P = [], []
    for x in X:
        c, p = [], []
        for j in range(len(xl)):
            u = 0.5 if fixed[j] else (x[j] - xl[j]) / (xu[j] - xl[j]) * n
            i = min(max(int(np.floor(u)), -1), n)
            # a sample on (or within rounding of) the border of a slice lies in either of the two
            c.append(i + 1), p.append(int(round((u - i) * 1000)))
        C.append(c), P.append(p)
    return C, P


class Crit:
    """a criterion that remembers every score it gave"""

    def __init__(self, rng):
        self.rng, self.seen, self.asked, self.unit = rng, {}, [], float(rng.choice([1, 64]))

    def __call__(self, X):
        v = int(self.rng.integers(0, 6))
        self.asked.append(v)
        k = np.round(X, 9).tobytes()
        self.seen[k] = max(v, self.seen.get(k, -1))
        return v / self.unit


def designs(task):
    seed, n_cases = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n_cases):
        n, m = int(rng.integers(1, 13)), int(rng.integers(1, 5))
        xl, xu, fixed = boxed(m, rng)
        smooth = bool(rng.random() < 0.5)
        cr = str(rng.choice(["maxmin", "corr", "none", "own"]))
        own = Crit(np.random.default_rng(int(rng.integers(1 << 30))))
        crit = {"maxmin": criterion_maxmin, "corr": criterion_corr, "none": None, "own": own}[cr]
        its = int(rng.integers(1, 8))
        e = dict(k="lhs", n=n, m=m, inside=False, cell=[], pos=[], fixed=fixed, smooth=smooth, raised=False)

        def go():
            prob = Problem(n_var=m, n_obj=1, xl=xl, xu=xu)
            R = np.random.default_rng(int(rng.integers(1 << 30)))
            if rng.random() < 0.6:
                X = LHS(smooth=smooth, iterations=its, criterion=crit).do(prob, n, random_state=R).get("X")
            else:
                X = sampling_lhs(n, m, xl=xl, xu=xu, smooth=smooth, criterion=crit, n_iter=its, random_state=R)
            e["inside"] = bool(np.all(X >= xl) and np.all(X <= xu))
            e["cell"], e["pos"] = cells(X, n, xl, xu, fixed)
            if cr == "own":
                U = np.where(fixed, 0.5, (X - xl) / np.where(xu > xl, xu - xl, 1))
                # the design given back among those scored (fixed variables cannot be told)
                free = ~np.array(fixed)
                got = [v for k, v in own.seen.items() if np.allclose(np.frombuffer(k).reshape(n, m)[:, free], U[:, free], atol=1e-6)]
                if free.any():
                    ev.append(dict(k="best", its=its, asked=own.asked, score=max(got) if got else -1, raised=False))
        _, err = guarded(go, timeout=30)
        if err:
            e["raised"] = True
        ev.append(e)
    return {"key": "lhs", "ev": ev}


def scores(task):
    seed, n_cases = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n_cases):
        n, m = int(rng.integers(2, 6)), int(rng.integers(2, 4))
        P = rng.integers(0, 7, (n, m))
        cr = "maxmin" if rng.random() < 0.5 else "corr"
        if cr == "corr" and np.any(P.max(axis=0) == P.min(axis=0)):
            continue
        e = dict(k="score", crit=cr, P=P.tolist(), val=0, raised=False)

        def go():
            v = float((criterion_maxmin if cr == "maxmin" else criterion_corr)(P.astype(float)))
            e["val"] = int(round(v * v)) if cr == "maxmin" and abs(v * v - round(v * v)) < 1e-9 else -1 if cr == "maxmin" else int(round(v * 10000))
        _, err = guarded(go, timeout=30)
        e["raised"] = bool(err)
        ev.append(e)
    return {"key": "score", "ev": ev}


# -------------------------------------------------------------------------------- what can be drawn
def reach(task):
    name, seed = task
    rng = np.random.default_rng(seed)
    ev = []

    def put(kind, lo, hi, n, pops, val, typed):
        drawn = [val(x) for p in pops for x in p]
        uniq = sorted({tuple(v) if isinstance(v, (list, tuple, np.ndarray)) else (v,) for v in drawn})
        ev.append(dict(k="random", kind=kind, lo=lo, hi=hi, n=n, count=len(pops[0]) if len({len(p) for p in pops}) == 1 else -1,
                       typed=all(typed(x) for p in pops for x in p), drawn=[[int(y) for y in u] for u in uniq], raised=False))

    def go():
        if name == "int":
            m = int(rng.integers(1, 7))
            lo = rng.integers(-5, 3, m)
            hi = lo + rng.integers(0, 7, m)
            prob = Problem(n_var=m, n_obj=1, xl=lo, xu=hi, vtype=int)
            P = [IntegerRandomSampling().do(prob, 40, random_state=rng) for _ in range(8)]
            for j in range(m):
                put("int", int(lo[j]), int(hi[j]), 40, P, lambda x: x.X[j], lambda x: isinstance(x.X[j], np.integer))
        elif name == "bits":
            prob = Problem(n_var=4, n_obj=1, xl=0, xu=1, vtype=bool)
            P = [BinaryRandomSampling().do(prob, 30, random_state=rng) for _ in range(4)]
            for j in range(4):
                put("bits", 0, 1, 30, P, lambda x: x.X[j], lambda x: isinstance(x.X[j], np.bool_))
        elif name == "perm":
            k = int(rng.integers(2, 5))
            prob = Problem(n_var=k, n_obj=1, xl=0, xu=k - 1, vtype=int)
            put("perm", 0, k, 100, [PermutationRandomSampling().do(prob, 100, random_state=rng) for _ in range(5)], lambda x: x.X, lambda x: isinstance(x.X[0], np.integer))
        elif name == "slices":
            xl, xu, fixed = boxed(3, rng)
            prob = Problem(n_var=3, n_obj=1, xl=xl, xu=xu)
            P = [FloatRandomSampling().do(prob, 25, random_state=rng) for _ in range(8)]
            for j in range(3):
                if not fixed[j]:
                    put("slices", 1, 8, 25, P, lambda x: int(np.floor((x.X[j] - xl[j]) / (xu[j] - xl[j]) * 8)) + 1, lambda x: isinstance(x.X[j], np.floating))
        elif name == "orders":
            prob = Problem(n_var=2, n_obj=1, xl=0.0, xu=1.0)
            P = [LHS(criterion=None).do(prob, 3, random_state=rng) for _ in range(120)]
            for j in range(2):
                drawn = sorted({tuple(int(np.floor(x.X[j] * 3)) + 1 for x in p) for p in P})
                ev.append(dict(k="random", kind="orders", lo=1, hi=3, n=3, count=3, typed=True, drawn=[list(d) for d in drawn], raised=False))
        else:
            lo = int(rng.integers(-3, 2))
            opts = ["red", "green", "blue", "grey"][:int(rng.integers(2, 5))]
            prob = Problem(vars={"i": Integer(bounds=(lo, lo + 4)), "b": Binary(), "c": Choice(options=opts), "r": Real(bounds=(-1.0, 3.0))}, n_obj=1)
            P = [MixedVariableSampling().do(prob, 40, random_state=rng) for _ in range(6)]
            put("int", lo, lo + 4, 40, P, lambda x: x.X["i"], lambda x: isinstance(x.X["i"], (int, np.integer)))
            put("bits", 0, 1, 40, P, lambda x: x.X["b"], lambda x: isinstance(x.X["b"], (bool, np.bool_)))
            put("options", 1, len(opts), 40, P, lambda x: opts.index(x.X["c"]) + 1, lambda x: isinstance(x.X["c"], str))
            put("slices", 1, 8, 40, P, lambda x: int(np.floor((x.X["r"] + 1) / 4 * 8)) + 1, lambda x: isinstance(x.X["r"], (float, np.floating)))
    _, err = guarded(go, timeout=60)
    if err:
        ev.append(dict(k="random", kind="bits", lo=0, hi=0, n=0, count=0, typed=True, drawn=[], raised=True))
    return {"key": "random/" + name, "ev": ev}


def main():
    c = Check("C24")
    rng = np.random.default_rng(SEED)
    P = c.paths("MC_Start", "SPECIFICATION Spec\nCONSTANTS MaxLen=%d Codes={2,3,4}\nINVARIANTS Laws Emit\n" % (4 if THOROUGH else 3))
    c.notes["starts_from_tlc"] = len(P)
    cases = [(p["g"], p["rep"], p["elim"]) for p in P]
    tr, crash = [], lambda t, w: {"key": "crash/" + str(t[0]), "ev": [{"k": "raised"}]}
    T = []
    for n in START:
        k = len(cases) if n in ("GA", "NSGA2", "DE", "PSO") and not THOROUGH else (160, len(cases))[THOROUGH]
        sel = [cases[i] for i in rng.permutation(len(cases))[:k]]
        T += [(n, sel[i:i + 400], int(rng.integers(1 << 30))) for i in range(0, len(sel), 400)]
    tr += pmap(given, T, on_crash=crash)
    tr += pmap(untouched, [(n, int(rng.integers(1 << 20))) for n in START for _ in range(6 if THOROUGH else 1)], on_crash=crash)
    tr += pmap(begin, [(n, int(rng.integers(1 << 30)), 200 if THOROUGH else 60) for n in ("NelderMead", "PatternSearch", "CMAES", "SimpleCMAES")], on_crash=crash)
    tr += pmap(designs, [(int(rng.integers(1 << 30)), 600 if THOROUGH else 120) for _ in range(8)], on_crash=crash)
    tr += pmap(scores, [(int(rng.integers(1 << 30)), 600 if THOROUGH else 150) for _ in range(4)], on_crash=crash)
    tr += pmap(reach, [(n, int(rng.integers(1 << 30))) for n in ("int", "bits", "perm", "slices", "orders", "mixed") for _ in range(8 if THOROUGH else 3)], on_crash=crash)
    c.notes["starts_replayed"] = sum(len(t["ev"]) for t in tr if t["key"].startswith("given"))
    c.validate("StartTrace", tr)
    c.finish(rule="all supplied starts of up to 3 (thorough 4) solutions over three codes, evaluated or not, with and without repair and elimination, replayed on 27 optimizers; hypercube designs on boxes of dyadic and other ranges; every value of small discrete spaces drawn", exhaustive=False)


if __name__ == "__main__":
    main()
