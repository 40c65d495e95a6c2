"""C27: definitions and declared optima of the library problems. Optima.tla (modules MC_Optima, OptimaTrace)."""
from zoo import *
import itertools, pickle, copy, io, contextlib
import optima as O
from pymoo.problems import get_problem
from pymoo.problems.dyn import DynamicTestProblem
import pymoo.problems.dynamic.df as DF
from pymoo.problems.single.flowshop_scheduling import FlowshopScheduling, create_random_flowshop_problem
from pymoo.problems.single.traveling_salesman import TravelingSalesman, create_random_tsp_problem
from pymoo.problems.single.knapsack import Knapsack, MultiObjectiveKnapsack
from pymoo.problems.zero_to_one import ZeroToOne
from pymoo.problems.multi_to_single import MultiToSingleObjective
from pymoo.problems.static import StaticProblem
from pymoo.problems.functional import FunctionalProblem
from pymoo.constraints.as_obj import ConstraintsAsObjective
from pymoo.constraints.as_penalty import ConstraintsAsPenalty
from pymoo.util.ref_dirs import get_reference_directions

OFF = -99999999
UNIT = 100000
DEBUG = os.environ.get("VERIF_DEBUG")


# ---------------------------------------------------------------------------------------------- memory
class Clock(DynamicTestProblem):
    def __init__(self, taut=2):
        super().__init__(nt=1, taut=taut, tau=0, n_var=2, n_obj=2, xl=0, xu=1)

    def _evaluate(self, x, out, *args, **kwargs):
        out["F"] = x

    def _calc_pareto_front(self, arg=0):
        t = self.time
        return np.array([[t + 3.0, arg], [t, arg + 5.0]])

    def _calc_pareto_set(self, arg=0):
        return np.array([[self.time, arg]])


def decode(nm, v):
    v = np.asarray(v, float)
    q = {"front": lambda: (v[0, 0], v[1, 1]), "set": lambda: (v[0, 0], v[0, 1]), "ideal": lambda: (v[0], v[1]), "nadir": lambda: (v[0] - 3, v[1] - 5)}[nm]()
    return dict(v=int(round(q[0])), a=int(round(q[1])))


def memory(task):
    seed, items = task
    rng = np.random.default_rng(seed)
    out = []
    for ops in items:
        vs = [0] + [o["v"] for o in ops if o["op"] == "time"]
        tics = all(a <= b for a, b in zip(vs, vs[1:])) and rng.random() < 0.6
        p = Clock()
        ev = []
        for o in ops:
            e = dict(o, k="cache", raised=False)

            def go():
                nonlocal p
                if o["op"] == "time":
                    if tics:
                        p.tic(int(o["v"] * p.taut + rng.integers(p.taut) - p.tau) if o["v"] > p.time else 0)
                    else:
                        p.time = o["v"]
                elif o["op"] == "copy":
                    q = p
                    p = pickle.loads(pickle.dumps(p)) if rng.random() < 0.5 else copy.deepcopy(p)
                    q.pareto_front(9, use_cache=False)
                    q.tic()
                else:
                    f = {"front": p.pareto_front, "set": p.pareto_set, "ideal": p.ideal_point, "nadir": p.nadir_point}[o["nm"]]
                    kw = {}
                    if not o["use"] or rng.random() < 0.5:
                        kw["use_cache"] = o["use"]
                    if not o["put"] or rng.random() < 0.5:
                        kw["set_cache"] = o["put"]
                    e["got"] = decode(o["nm"], f(o["a"], **kw) if rng.random() < 0.5 else f(arg=o["a"], **kw))
                if o["op"] != "ask":
                    e["now"] = int(round(p.time))
            _, err = guarded(go, timeout=20)
            if err:
                e.update(raised=True)
                e.setdefault("got", dict(v=-5, a=-5))
                e.setdefault("now", -5)
            ev.append(e)
        out.append({"key": "cache", "ev": ev})
    return out


# ------------------------------------------------------------------------------------ sequencing problems
def scalar(v, s=1):
    v = float(np.asarray(v, float).reshape(-1)[0]) * s
    return int(round(v)) if abs(v) < 2e9 and abs(v - round(v)) < 1e-6 * max(1.0, abs(v)) else OFF


def sequencing(task):
    seed, items = task
    rng = np.random.default_rng(seed)
    out = {"flow": [], "tsp": [], "sack": []}
    for c in items:
        if c["k"] == "flow":
            T = np.array(c["T"]) * (1 if rng.random() < 0.5 else 1.0)
            X = [np.array(x) for x in itertools.permutations(range(T.shape[1]))]
            batch = rng.random() < 0.4
            for i, x in enumerate(X):
                e = dict(k="flow", T=c["T"], x=(x + 1).tolist(), got=OFF, starts=[], raised=False)

                def go():
                    A = T.copy()
                    p = FlowshopScheduling(A)
                    e["got"] = scalar(p.evaluate(np.array(X), return_values_of=["F"])[i] if batch else p.evaluate(x, return_values_of=["F"]))
                    e["starts"] = [[scalar(v) for v in r] for r in p.get_machine_times(x)]
                    assert np.array_equal(A, T)
                _, err = guarded(go, timeout=20)
                e["raised"] = bool(err)
                out["flow"].append(e)
        elif c["k"] == "tsp":
            C = np.array(c["C"], float)
            for x in itertools.permutations(range(len(C))):
                e = dict(k="tsp", C=c["C"], x=[i + 1 for i in x], got=OFF, raised=False)

                def go():
                    e["got"] = scalar(TravelingSalesman(C).evaluate(np.array(x), return_values_of=["F"]))
                _, err = guarded(go, timeout=20)
                e["raised"] = bool(err)
                out["tsp"].append(e)
        else:
            X = np.array(list(itertools.product((False, True), repeat=3)))
            for multi in (False, True):
                p = (MultiObjectiveKnapsack if multi else Knapsack)(3, np.array(c["W"]), np.array(c["P"]), c["cap"])
                box = {}

                def go():
                    box["o"] = p.evaluate(X if rng.random() < 0.7 else X.astype(int), return_as_dictionary=True)
                _, err = guarded(go, timeout=20)
                for i, x in enumerate(X):
                    e = dict(k="sack", W=c["W"], P=c["P"], cap=c["cap"], multi=multi, x=[int(v) for v in x], F=[], G=[], raised=bool(err))
                    if not err:
                        e["F"], e["G"] = [scalar(v) for v in np.atleast_1d(box["o"]["F"][i])], [scalar(v) for v in np.atleast_1d(box["o"]["G"][i])]
                    out["sack"].append(e)
    return [{"key": k, "ev": v} for k, v in out.items() if v]


def spans():
    ev = []
    for mk, n in [(lambda: create_random_flowshop_problem(3, 5), 5), (lambda: create_random_flowshop_problem(6, 4), 4), (lambda: create_random_tsp_problem(6), 6)]:
        e = dict(k="span", n=n, lo=OFF, hi=OFF, raised=False)

        def go():
            p = mk()
            e["lo"], e["hi"] = int(np.min(p.xl)), int(np.max(p.xu))
            p.evaluate(np.full((1, n), e["hi"]))
        _, err = guarded(go, timeout=20)
        e["raised"] = bool(err)
        ev.append(e)
    return [{"key": "span", "ev": ev}]


# -------------------------------------------------------------------------------------------- definitions
# where the transcendental parts of a definition are known
AT = dict(ackley=lambda X: X * 2.5, griewank=lambda X: X * np.sqrt(np.arange(1, X.shape[1] + 1)) * np.pi / 2, schwefel=lambda X: np.sign(X) * (X * np.pi / 2) ** 2)


def made(nm, n, m):
    import pymoo.problems.multi.omnitest as OT
    from pymoo.problems.multi.zdt import ZDT5
    if nm in ("bnh", "srn", "osy", "himmelblau", "carside") or nm[0] == "g" and nm[1:].isdigit():
        return get_problem(nm)
    if nm == "rastrigin7":
        return get_problem("rastrigin", n_var=n, A=7.0)
    if nm == "omnitest":
        return OT.OmniTest(n_var=n)
    if nm == "zdt5":
        return ZDT5(normalize=False)
    if m:
        if nm == "c1dtlz3":
            return get_problem(nm, n_var=n, n_obj=m, r={2: 6, 3: 9}[m])
        return get_problem(nm, n_var=n, n_obj=m)
    return get_problem(nm, n_var=n)


def definitions(task):
    seed, c, n = task
    rng = np.random.default_rng(seed)
    X = rng.integers(c["lo"], c["hi"] + 1, (n, c["n"]))
    X = np.where(rng.random(X.shape) < rng.choice([0, 0.5, 0.9], (n, 1)), rng.choice([c["lo"], c["hi"]], (n, 1)), X)
    if c["xd"] == 20:                       # halves only from the second variable on keep the roots small
        X[:, 1:] = X[:, 1:] // 10 * 10
    if c["nm"] == "zdt6":
        X[:, 0] = 128 * rng.integers(0, 7, n)
        for r in X:
            t, j = 27 * int(rng.integers(0, 5)) ** 4, 1
            for i in rng.permutation(np.arange(1, 10)):
                left = 9 - j
                r[i] = rng.integers(max(0, t - 768 * left), min(768, t) + 1) if left else t
                t, j = t - r[i], j + 1
    if c["nm"] == "ackley":
        X = np.abs(X[:, [0]]) * np.where(rng.random(X.shape) < 0.5, 1, -1)
    if c["nm"] == "c2dtlz2":
        X[:, :c["m"] - 1] = X[:, :c["m"] - 1] // 2 * 2
    X = np.unique(X, axis=0)
    box = {}

    def go():
        p = made(c["nm"], c["n"], c["m"])
        A = X > 0 if p.vtype is bool else AT.get(c["nm"], lambda X: X / c["xd"])(X)
        B = A.copy()
        if rng.random() < 0.3:
            R = [p.evaluate(a, return_as_dictionary=True) for a in A]
            box["F"], box["G"] = np.array([r["F"] for r in R]), [np.concatenate([np.atleast_1d(r.get("G", [])), np.atleast_1d(r.get("H", []))]) for r in R]
        else:
            r = p.evaluate(A, return_as_dictionary=True)
            box["F"], box["G"] = r["F"], np.concatenate([np.reshape(r[q], (len(A), -1)) for q in ("G", "H") if r.get(q) is not None] + [np.zeros((len(A), 0))], axis=1)
        assert np.array_equal(A, B)
    _, err = guarded(go, timeout=60)
    if err and DEBUG:
        print(c["nm"], err)
    ev = []
    zdt = c["nm"].startswith("zdt") or c["nm"] in AT
    for i, x in enumerate(X):
        e = dict(k="def", nm=c["nm"], m=c["m"], x=[int(v) for v in x], F=[], G=[], raised=bool(err))
        if not err:
            F = np.atleast_1d(box["F"][i])
            e["F"] = [int(np.floor(float(v) * c["sF"] + 0.5)) if zdt else scalar(v ** c["pow"], c["sF"]) for v in F]
            G = np.atleast_1d(box["G"][i])
            e["G"] = [scalar(v, s) for v, s in zip(G, c["sG"])] if len(G) == len(c["sG"]) else [OFF]
        ev.append(e)
    return {"key": c["nm"], "ev": ev}


# --------------------------------------------------------------------------------------- declared optima
# in units of the range of the front: how closely a declared optimum must be attained, by how much it may be beaten (rounded
# constants, grids), and what counts as dominated
TOL = {"zdt5": (100, 100), "df13": (5000, 4000), "truss2d": (2500, 2500), "mw3": (10000, 1000), "zdt3": (500, 500), "mw6": (500, 500), "mw12": (UNIT * 100, 500), "bnh": (1000, 1000), "srn": (1000, 1000)}
LIMIT = {"df4", "truss2d"}            # extremes of these fronts are left out (box, asymptote)


def tol(name):
    fam = name.split("/")[0]
    if fam == "wfg2":                     # a sampled disconnected front: its edges are only as good as the sample
        return 30000, 25000
    if fam.startswith("wfg"):
        return 25000, 6000
    if fam.startswith("df"):
        return TOL.get(fam, (2000, 2000))
    return TOL.get(fam, (300, 300))


def units(F, lo, sc):
    v = (np.asarray(F, float) - lo) / sc * UNIT
    return np.clip(np.nan_to_num(np.round(v), nan=2e8, posinf=2e8, neginf=-2e8), -2e8, 2e8).astype(int)


def ev_front(name, p, rng, dirs=None, n=60):
    """the declared front and what is derived from it"""
    box = {}
    e = dict(k="front", m=int(p.n_obj), cols=-1, U=[], ideal=[], nadir=[], mg=100, kept=True, raised=False)

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            D = None if dirs is None else dirs.copy()
            pf = p.pareto_front() if D is None else p.pareto_front(D)
            if pf is None:
                return
            pf = np.asarray(pf, float)
            e["kept"] = bool(D is None or np.array_equal(D, dirs))
            e["cols"] = int(pf.shape[1])
            lo, hi = pf.min(axis=0), pf.max(axis=0)
            sc = np.where(hi - lo > 1e-9, hi - lo, np.maximum(np.abs(hi), 1.0))
            I = np.unique(np.concatenate([pf.argmin(axis=0), pf.argmax(axis=0), rng.integers(0, len(pf), n) if len(pf) > n else np.arange(len(pf))]))
            e["U"] = units(pf[I], lo, sc).tolist()
            e["ideal"], e["nadir"] = units(p.ideal_point(), lo, sc).tolist(), units(p.nadir_point(), lo, sc).tolist()
            box.update(pf=pf, lo=lo, sc=sc, I=I)
    _, err = guarded(go, timeout=60)
    e["raised"] = bool(err)
    if err and DEBUG:
        print(name, err)
    return e, box


def ev_set(name, p, rng, box, n=40, t=None):
    box2 = {}
    e = dict(k="set", U=[], I=[], tol=max(300, tol(name)[1]) if t is None else t, shape=True, inb=True, feas=True, raised=False)

    def go():
        ps = p.pareto_set()
        if ps is None:
            return
        box2["any"] = True
        ps = np.asarray(ps)
        e["shape"] = bool(ps.ndim == 2 and ps.shape[1] == p.n_var)
        if not e["shape"]:
            return
        ps = ps[rng.permutation(len(ps))[:n]]
        e["inb"] = bool(np.all(ps >= p.xl - 1e-9) and np.all(ps <= p.xu + 1e-9))
        F, cv = O.values(p, ps)
        e["feas"] = bool(np.all(cv <= 1e-12))
        if "pf" in box:
            pf = box["pf"]
            I = box["I"] if len(pf) > 60 else np.arange(len(pf))
            e["U"], e["I"] = units(pf[I], box["lo"], box["sc"]).tolist(), units(F, box["lo"], box["sc"]).tolist()
    _, err = guarded(go, timeout=60)
    e["raised"] = bool(err)
    if err and DEBUG:
        print(name, err)
    return [e] if box2.get("any") or err else []


one, two = (lambda m: 1.0), (lambda m: 2.0 * np.arange(1, m + 1))
SHAPES = dict({"wfg%d" % k: ("sphere", two) for k in range(4, 10)}, wfg3=("plane", two), dtlz1=("plane", lambda m: 0.5), c1dtlz1=("plane", lambda m: 0.5), dtlz2=("sphere", one), dtlz3=("sphere", one),
              dtlz4=("sphere", one), c1dtlz3=("sphere", one), c2dtlz2=("sphere", one), sdtlz1=("plane", lambda m: 0.5 * 10.0 ** np.arange(m)), zdt1=("root", one), zdt4=("root", one), zdt2=("square", one), zdt6=("square", one),
              mw2=("plane", one), mw4=("plane", one), mw8=("sphere", one))


def declared(task):
    seed, name, n_targets, n_gen, given = task
    warnings.filterwarnings("ignore")
    rng = np.random.default_rng(seed)
    # fronts sampled without a seed: fresh, but the same in every run of this check
    fresh, np.random.default_rng = np.random.default_rng, lambda s=None: fresh(int(rng.integers(1 << 30)) if s is None else s)
    try:
        return declared_(name, n_targets, n_gen, given, rng)
    finally:
        np.random.default_rng = fresh


def declared_(name, n_targets, n_gen, given, rng):
    d = O.catalogue()[name]
    ev = []
    box = {}

    def build():
        box["p"] = d["make"]()
    _, err = guarded(build, timeout=60)
    if err:
        return {"key": name, "ev": [dict(k="like", raised=True, same=False, what="x")]}
    p = box["p"]
    dirs = None
    if given:
        if d.get("dirs"):
            dirs = get_reference_directions("uniform", p.n_obj, n_partitions=8 if p.n_obj > 2 else 40)
        elif name.split("/")[0] in ("dtlz1", "dtlz2", "c1dtlz1", "c2dtlz2", "convex_dtlz2", "convex_dtlz4"):
            dirs = get_reference_directions("uniform", p.n_obj, n_partitions=9)
    e, b = ev_front(name, p, rng, dirs)
    ev.append(e)
    fam, m = name.split("/")[0], p.n_obj
    if fam in SHAPES and "pf" in b:
        sh, unit = SHAPES[fam]
        V = np.round(b["pf"][b["I"]] / unit(m) * 10000)
        ev.append(dict(k="shape", shape=sh, V=np.clip(V, -1e5, 1e5).astype(int).tolist(), raised=False))
    ev += ev_set(name, p, rng, b)
    if "pf" in b and n_targets and e["cols"] == p.n_obj:
        pf = b["pf"]
        I = np.unique(np.concatenate([pf.argmin(axis=0), rng.integers(0, len(pf), n_targets)]))
        if name.split("/")[0] in LIMIT:
            u = (pf[:, 0] - pf[:, 0].min()) / (pf[:, 0].max() - pf[:, 0].min())
            v = (pf[:, 1] - pf[:, 1].min()) / (pf[:, 1].max() - pf[:, 1].min())
            I = np.array([i for i in I if min(u[i], v[i]) > 0.08], dtype=int)
        res = {}

        def go():
            if len(I):
                X, F, cv, a = O.achieve(p, pf[I], b["sc"], d["w"], rng, n_gen=n_gen, inv=d.get("inv"))
                for again in range(2):          # attained means: some search finds it
                    J = np.flatnonzero((cv > 1e-12) | (a * UNIT > 0.5 * tol(name)[0]))
                    if len(J) == 0:
                        break
                    X2, F2, cv2, a2 = O.achieve(p, pf[I][J], b["sc"], d["w"], rng, n_gen=2 * n_gen, inv=d.get("inv"))
                    up = (cv2 < cv[J]) | ((cv2 == cv[J]) & (a2 < a[J]))
                    X[J[up]], F[J[up]], cv[J[up]], a[J[up]] = X2[up], F2[up], cv2[up], a2[up]
                res["r"] = X, F, cv, a
        _, err = guarded(go, timeout=240)
        ta, tb = tol(name)
        if err or "r" in res:
            X, F, cv, a = res.get("r", (None, None, np.full(len(I), 1.0), np.full(len(I), 2000.0)))
            for i in range(len(I)):
                ev.append(dict(k="att", raised=bool(err), feas=bool(cv[i] <= 1e-12), a=int(np.clip(np.round(a[i] * UNIT), -2e8, 2e8)), tol=ta, beat=tb))
                if DEBUG and (cv[i] > 1e-12 or a[i] * UNIT > ta or a[i] * UNIT < -tb):
                    print(name, "target", pf[I[i]], "cv", cv[i], "a", a[i], "x", X[i] if X is not None else None)
    if getattr(p, "xl", None) is not None and "pf" in b:
        ev += wrapped(name, p, rng)
    return {"key": name, "ev": ev}


def wrapped(name, p, rng):
    """what a wrapper declares belongs to the wrapper"""
    ev = []
    from pymoo.decomposition.weighted_sum import WeightedSum
    W = {"zto": lambda q: ZeroToOne(q), "penalty": lambda q: ConstraintsAsPenalty(q), "append": lambda q: ConstraintsAsObjective(q), "only": lambda q: ConstraintsAsObjective(q, append=False),
         "zto-append": lambda q: ZeroToOne(ConstraintsAsObjective(q)), "single": lambda q: MultiToSingleObjective(q, WeightedSum(), kwargs=dict(weights=np.full((1, p.n_obj), 1.0 / p.n_obj)))}
    ks = ["zto"]
    if p.vtype is not float:
        ks = []
    if p.n_ieq_constr and not p.n_eq_constr:
        ks += ["append", "only", "zto-append", "penalty"]
    if p.n_obj > 1:
        ks.append("single")
    for k in rng.permutation(ks)[:2]:
        box = {}

        def go():
            box["q"] = W[k](p)
        _, err = guarded(go, timeout=20)
        if err:
            ev.append(dict(k="like", raised=True, same=False, what="wrapper"))
            continue
        if k == "single" and box["q"].pareto_front() is None and box["q"].pareto_set() is None and box["q"].ideal_point() is None:
            continue
        e, b = ev_front(name + "/" + k, box["q"], rng)
        ev.append(e)
        ev += ev_set(name, box["q"], rng, b)
    return ev


def again(task):
    """the optimum belongs to the present: asked after changes of the time, from a copy, and from a fresh problem"""
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        k = int(rng.integers(1, 15))
        e = dict(k="like", raised=False, same=False, what="optimum-of-another-time")

        def go():
            P = getattr(DF, "DF%d" % k)
            p = P(taut=2) if rng.random() < 0.6 else P(time=0.3)
            ok = True
            for _ in range(int(rng.integers(1, 4))):
                if rng.random() < 0.6:
                    p.pareto_front(), p.ideal_point(), p.nadir_point()
                    p.pareto_set()
                if p._time is None and rng.random() < 0.7:
                    p.tic(int(rng.integers(1, 8)))
                else:
                    p.time = float(rng.choice([0.1, 0.2, 0.6, 1.1]))
                f = P(time=p.time)
                A, B = p.pareto_front(), f.pareto_front()
                ok &= bool(A.shape == B.shape and np.allclose(A, B)) and np.allclose(p.ideal_point(), f.ideal_point()) and np.allclose(p.nadir_point(), f.nadir_point())
                x = rng.random((3, p.n_var)) * (p.xu - p.xl) + p.xl
                ok &= np.allclose(p.evaluate(x), f.evaluate(x))
                if p.pareto_set() is not None:
                    ok &= np.allclose(p.pareto_set(), f.pareto_set())
            e["same"] = bool(ok)
        _, err = guarded(go, timeout=60)
        e["raised"] = bool(err)
        ev.append(e)
        e = dict(k="like", raised=False, same=False, what="functional")

        def go2():
            pf, ps = rng.random((3, 2)), rng.random((3, 2))
            p = FunctionalProblem(2, [lambda x: x[0], lambda x: x[1]], xl=0, xu=1, func_pf=lambda *a, **kw: pf, func_ps=lambda *a, **kw: ps)
            e["same"] = bool(np.array_equal(p.pareto_front(), pf[np.argsort(pf[:, 0])]) and np.array_equal(p.pareto_set(), ps) and np.array_equal(p.ideal_point(), pf.min(axis=0)))
        _, err = guarded(go2, timeout=60)
        e["raised"] = bool(err)
        ev.append(e)
    return {"key": "again", "ev": ev}


def fan(z):
    out = []
    for r in z:
        out += r if isinstance(r, list) else [r]
    return out


def main():
    c = Check("C27")
    P = c.paths("MC_Optima", "SPECIFICATION Spec\nCONSTANTS MaxOps=3 Times=%s Fives={1,3}\nINVARIANTS Laws Emit\n" % ("{0,1,3}" if not THOROUGH else "{0,1,2,4}"))
    rng = np.random.default_rng(SEED)
    c.notes["cases_from_tlc"] = len(P)
    by = {}
    for q in P:
        by.setdefault(q["k"], []).append(q)
    tr = []
    S = lambda: int(rng.integers(1 << 30))
    crash = lambda t, w: {"key": "crash", "ev": [dict(k="crash")]}
    ops = [q["ops"] for q in by["cache"] if q["ops"]]
    if not THOROUGH:
        ops = [ops[i] for i in rng.permutation(len(ops))[:9000]]
    tr += fan(pmap(memory, [(S(), ops[i::16]) for i in range(16)], on_crash=crash))
    seqs = by["flow"] + by["tsp"] + by["sack"]
    tr += fan(pmap(sequencing, [(S(), seqs[i::16]) for i in range(16)], on_crash=crash))
    tr += spans()
    tr += fan(pmap(definitions, [(S(), q, 600 if THOROUGH else 60) for q in by["def"]], on_crash=crash))
    tr += fan(pmap(again, [(S(), 200 if THOROUGH else 25) for _ in range(8)], on_crash=crash))
    cat = O.catalogue()
    tasks = [(S(), nm, 12 if THOROUGH else 4, 400 if THOROUGH else 220, False) for nm in cat]
    tasks += [(S(), nm, 3, 220, True) for nm in cat if cat[nm].get("dirs") or nm in ("dtlz1/2", "dtlz2/3", "c1dtlz1", "c2dtlz2")]
    tr += fan(pmap(declared, tasks, on_crash=crash))
    c.notes["problems"] = len(cat)
    c.validate("OptimaTrace", tr)
    c.finish(rule="requests for optima up to 3 deep over two arguments, both cache switches, two other times and copies (TLC, sampled in the quick tier); every flowshop, tour and knapsack of TLC's grids with every order; %d lattices of published definitions; %d library problems whose declared optimum is searched for from its defining solutions" % (len(by["def"]), len(cat)), exhaustive=False)


if __name__ == "__main__":
    main()
