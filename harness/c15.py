"""C15: what evaluating a problem returns. Problem.tla (modules MC_Problem, ProbTrace)."""
import inspect, pickle, importlib
from runs import *
from runs import _imp
from pymoo.core.problem import Problem, ElementwiseProblem
from pymoo.core.variable import Real, Integer, Choice, Binary
from pymoo.core.evaluator import Evaluator
from pymoo.problems import get_problem
import pymoo.problems as pp
from pymoo.problems.functional import FunctionalProblem
from pymoo.problems.static import StaticProblem
from pymoo.problems.multi_to_single import MultiToSingleObjective
from pymoo.problems.zero_to_one import ZeroToOne
from pymoo.problems.util import decompose
from pymoo.decomposition.weighted_sum import WeightedSum
from pymoo.decomposition.tchebicheff import Tchebicheff
from pymoo.gradient.automatic import AutomaticDifferentiation, ElementwiseAutomaticDifferentiation
from pymoo.gradient.grad_complex import ComplexNumberGradient


class Codes:
    """equal codes: equal up to rounding"""

    def __init__(self):
        self.reps = {}

    def __call__(self, key, v):
        v = np.ravel(np.asarray(v, dtype=float))
        R = self.reps.setdefault(key, [])
        for i, r in enumerate(R):
            if r.shape == v.shape and np.allclose(r, v, rtol=1e-9, atol=1e-11 * (1.0 + np.nanmax(np.abs(np.where(np.isfinite(r), r, 0.0)), initial=0.0)), equal_nan=True):
                return i
        R.append(v)
        return len(R) - 1


# ------------------------------------------------------------------------- every problem in the library
def sub(mod, name):
    return getattr(importlib.import_module("pymoo.problems." + mod), name)


def library():
    """name -> constructor; everything get_problem knows and the problems that are not registered"""
    P = {}
    import re
    names = re.findall(r'^\s+"([^"]+)": \w+,$', inspect.getsource(pp), re.M)
    for n in names:
        if n.startswith("dascmop"):
            for d in (1, 5, 16):
                P["%s-%d" % (n, d)] = lambda n=n, d=d: get_problem(n, d)
        elif n == "knp":
            P[n] = lambda: sub("single.knapsack", "create_random_knapsack_problem")(20)
        elif n == "modact":
            continue        # needs an external library
        elif n.startswith("wfg"):
            for v, m in ((6, 2), (10, 3), (12, 5)):
                P["%s-%d" % (n, m)] = lambda n=n, v=v, m=m: get_problem(n, v, m)
        else:
            P[n] = lambda n=n: get_problem(n)
            if "dtlz" in n or n.startswith("zcat"):
                P[n + "-5"] = lambda n=n: get_problem(n, n_obj=5, n_var=9) if not n.startswith("dc") else get_problem(n)
    def add(key, mod, cls, *a, **k):
        P[key] = lambda: getattr(importlib.import_module("pymoo.problems." + mod), cls)(*a, **k)
    for i in (1, 2):
        add("mms%d" % i, "single.multimodal", "MultiModalSimple%d" % i)
    add("smm", "single.simple", "SimpleMultiModal01")
    add("omni", "multi.omnitest", "OmniTest", 3)
    for n in ("SYMPARTRotated", "SYMPART"):
        add(n, "multi.sympart", n)
    add("clutch", "multi.clutch", "Clutch"); add("csi", "multi.csi", "CSI"); add("wrm", "multi.wrm", "WRM")
    mod = importlib.import_module("pymoo.problems.dynamic.misc")
    for n, c in inspect.getmembers(mod, inspect.isclass):
        if c.__module__ == mod.__name__:
            P["dyn-" + n] = c
    mod = importlib.import_module("pymoo.problems.dynamic.cec2015")
    for n, c in inspect.getmembers(mod, inspect.isclass):
        if c.__module__ == mod.__name__ and n != "DynamicCEC2015":
            P["cec-" + n] = c
    P["tsp"] = lambda: sub("single.traveling_salesman", "create_random_tsp_problem")(7, 100, seed=1)
    P["flowshop"] = lambda: sub("single.flowshop_scheduling", "create_random_flowshop_problem")(3, 6, seed=1)
    for n in ("zdt1", "zdt2", "zdt3", "zdt4", "zdt6", "ackley", "rastrigin", "sphere", "rosenbrock", "griewank", "zakharov", "schwefel"):
        for k in (2, 1, 37) if n not in ("zdt1", "zdt2", "zdt3", "zdt4", "zdt6", "rosenbrock") else (2, 37):
            P["%s-n%d" % (n, k)] = lambda n=n, k=k: get_problem(n, n_var=k)
    return P


def make_rows(p, name, rng):
    n = p.n_var
    if name in ("tsp", "flowshop"):
        return np.array([rng.permutation(n) for _ in range(8)])
    lo, hi = np.array(p.xl, float) if p.xl is not None else np.zeros(n), np.array(p.xu, float) if p.xu is not None else np.ones(n)
    U = np.vstack([np.zeros(n), np.ones(n), np.full(n, 0.5), rng.random((6, n))])
    X = lo + U * (hi - lo)
    if name in ("zdt5", "knp") or p.vtype is bool:
        return X > (lo + hi) / 2
    return np.floor(X).astype(int) if p.vtype is int else X


def shapes(p, v, key):
    return {"F": [p.n_obj], "G": [p.n_ieq_constr], "H": [p.n_eq_constr]}.get(key)


def judge(p, X, rows, single, codes, vals, out, keep, t=0):
    """event of one evaluation"""
    vs = []
    for k in vals:
        v = np.asarray(out[k])
        rest = shapes(p, v, k)
        one = [v] if single else v
        vs.append({"key": k + str(t), "rest": rest, "shape": list(v.shape), "codes": [codes(k, r) for r in one] if np.ndim(v) else []})
    return {"k": "eval", "rows": [int(r) for r in rows], "single": single, "vals": vs, "same": bool(np.array_equal(X, keep, equal_nan=X.dtype.kind == "f"))}


def builtin(task):
    name, seed, n = task
    rng = np.random.default_rng(seed)
    ev, codes = [], Codes()

    def go():
        p = library()[name]()
        base = make_rows(p, name, rng)
        variants = [p, copy.deepcopy(p), pickle.loads(pickle.dumps(p)) if not name.startswith("cec") or True else p]
        t = 0
        for i in range(n):
            if hasattr(p, "tic") and rng.random() < 0.25:
                t = int(rng.integers(0, 3))
                for q in variants:
                    q.time = [0.0, 0.35, 1.2][t]
            q = variants[int(rng.choice([0, 0, 0, 1, 2]))]
            single = rng.random() < 0.3
            rows = [int(rng.integers(len(base)))] if single else [int(r) for r in rng.integers(0, len(base), int(rng.choice([1, 2, 3, 5, 9, 60])))]
            X = base[rows[0]].copy() if single else base[rows]
            form = int(rng.integers(0, 4))
            if not single and form == 1:
                X = np.asfortranarray(X)
            elif not single and form == 2:
                Z = np.repeat(X, 2, axis=0)
                X = Z[::2]
            keep = X.copy()
            vals = [["F"], ["F", "G", "H"], ["G", "F"], None][int(rng.integers(0, 4))]
            if rng.random() < 0.4:
                out = q.evaluate(X, return_values_of=vals)
                if vals is None:
                    vals = ["F"] + ["G"] * (p.n_ieq_constr > 0) + ["H"] * (p.n_eq_constr > 0)
                out = dict(zip(vals, out if len(vals) > 1 else [out]))
            else:
                vals = vals or ["F"]
                out = q.evaluate(X, return_values_of=vals, return_as_dictionary=True)
            ev.append(judge(p, X, rows, single, codes, vals, out, keep, t if hasattr(p, "tic") else 0))
        # as an algorithm does it
        pop = Population.new("X", base)
        Evaluator().eval(p, pop)
        out = {k: pop.get(k) if shapes(p, None, k)[0] else np.zeros((len(base), 0)) for k in ("F", "G", "H")}
        ev.append(judge(p, base, range(len(base)), False, codes, ["F", "G", "H"], out, base.copy(), t if hasattr(p, "tic") else 0))
    _, err = guarded(go, timeout=200)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "library/" + name, "ev": ev}


# ------------------------------------------------------------------------- exactly known problems
def rand_quad(rng, n, lin=False):
    return {"a": [0] * n if lin else [int(v) for v in rng.integers(-2, 3, n)], "b": [int(v) for v in rng.integers(-3, 4, n)], "c": int(rng.integers(-5, 6))}


def quad(c, x):
    s = c["c"]
    for i in range(len(c["a"])):
        s = s + c["a"][i] * x[i] * x[i] + c["b"][i] * x[i]
    return s


class Vec(Problem):
    def __init__(self, F, G, H, n, xl, xu, form=0, **kw):
        super().__init__(n_var=n, n_obj=len(F), n_ieq_constr=len(G), n_eq_constr=len(H), xl=np.array(xl, float), xu=np.array(xu, float), **kw)
        self.cs, self.form = {"F": F, "G": G, "H": H}, form

    def _evaluate(self, X, out, *a, **k):
        import pymoo.gradient.toolbox as anp
        for key, cs in self.cs.items():
            if cs:
                cols = [quad(c, [X[:, i] for i in range(self.n_var)]) + X[:, 0] * 0 for c in cs]
                out[key] = cols if self.form == 1 else cols[0] if self.form == 2 and len(cols) == 1 else anp.column_stack(cols)


class Ele(ElementwiseProblem):
    def __init__(self, F, G, H, n, xl, xu, form=0, **kw):
        super().__init__(n_var=n, n_obj=len(F), n_ieq_constr=len(G), n_eq_constr=len(H), xl=np.array(xl, float), xu=np.array(xu, float), **kw)
        self.cs, self.form = {"F": F, "G": G, "H": H}, form

    def _evaluate(self, x, out, *a, **k):
        import pymoo.gradient.toolbox as anp
        for key, cs in self.cs.items():
            if cs:
                v = [quad(c, x) + 0 * x[0] for c in cs]
                out[key] = v if self.form == 1 else v[0] if self.form == 2 and len(v) == 1 else anp.array(v)


def exact(task):
    """Known problems in every form, wrapped in every way."""
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    ints = lambda v: [int(round(float(x))) if np.isfinite(x) and abs(x - round(float(x))) < 1e-6 else -99999 for x in np.ravel(v)]
    for _ in range(n):
        nv, no, ng, nh = (int(v) for v in (rng.integers(1, 4), rng.integers(1, 4), rng.integers(0, 3), rng.integers(0, 3)))
        F, G, H = [rand_quad(rng, nv) for _ in range(no)], [rand_quad(rng, nv, True) for _ in range(ng)], [rand_quad(rng, nv) for _ in range(nh)]
        xl = [int(v) for v in rng.integers(-6, 1, nv)]
        xu = [l + 4 * int(v) for l, v in zip(xl, rng.integers(0 if rng.random() < 0.2 else 1, 4, nv))]
        kind = ["vec", "ele", "fun"][int(rng.integers(0, 3))]
        form = int(rng.integers(0, 3))
        wrap = str(rng.choice(["none", "zto", "mts", "mts-none", "decompose", "static", "static-ele", "ad", "ad-ele", "complex", "zto+mts"]))
        cfg = {"F": F, "G": G, "H": H, "xl": xl, "xu": xu, "zto": "zto" in wrap, "dec": "", "w": [1] * no, "static": wrap.startswith("static")}
        ev = []

        def go():
            nonlocal form
            args = (F, G, H, nv, xl, xu)
            k = kind
            if wrap in ("ad", "complex"):
                k = "vec"
            if wrap == "complex":
                args, cfg["G"], cfg["H"] = (F, [], [], nv, xl, xu), [], []
            if wrap in ("ad-ele", "static-ele"):
                k = "ele"
            if wrap == "static":
                k = "vec"
            if wrap == "decompose":
                form = 0        # it works on what the user's function returns
            if k == "fun":
                inner = FunctionalProblem(nv, [lambda x, c=c: quad(c, x) for c in F], constr_ieq=[lambda x, c=c: quad(c, x) for c in G], constr_eq=[lambda x, c=c: quad(c, x) for c in H], xl=np.array(xl, float), xu=np.array(xu, float))
            else:
                inner = {"vec": Vec, "ele": Ele}[k](*args, form=0 if wrap == "complex" or wrap.startswith("ad") else form)
            decl = lambda p: [p.n_var, p.n_obj, p.n_ieq_constr, p.n_eq_constr] + ints(p.xl) + ints(p.xu) + [int(p.elementwise)]
            was = decl(inner)
            p, dec = inner, str(rng.choice(["ws", "tche"]))
            want = list(was)
            rows = int(rng.integers(1, 6))
            SF = None
            if "zto" in wrap:
                p = ZeroToOne(p)
                want[4:4 + 2 * nv] = [0] * nv + [1] * nv
            if "mts" in wrap or wrap == "decompose":
                cfg["dec"], cfg["w"] = dec, [int(v) for v in rng.integers(0, 4, no)]
                D = {"ws": WeightedSum, "tche": Tchebicheff}[dec]()
                want[1] = 1
                w = np.array(cfg["w"], float)
                if wrap == "mts-none":
                    # a decomposition that needs no further arguments
                    cfg["w"] = [1] * no

                    class Ones:
                        def do(self, F, **kw):
                            return D.do(F, np.ones(no), _type="many_to_one")
                    p = MultiToSingleObjective(p, Ones())
                elif "mts" in wrap:
                    p = MultiToSingleObjective(p, D, kwargs=dict(weights=w))
                else:
                    p = decompose(p, D, w)
            if wrap.startswith("static"):
                SF = rng.integers(-9, 9, (rows, no)).astype(float)
                p = StaticProblem(p, F=SF, G=np.array([[quad(c, x) for c in G] for x in [[0] * nv] * rows], float).reshape(rows, ng), H=np.zeros((rows, nh)))
                cfg.update(G=[dict(c, a=[0] * nv, b=[0] * nv) for c in G], H=[{"a": [0] * nv, "b": [0] * nv, "c": 0} for _ in H])
                want[-1] = 0
            if wrap == "ad":
                p = AutomaticDifferentiation(p)
            elif wrap == "ad-ele":
                p = ElementwiseAutomaticDifferentiation(p)
            elif wrap == "complex":
                p = ComplexNumberGradient(p)
            ev.append({"k": "decl", "got": decl(p), "want": want, "inner": decl(inner), "was": was})
            grads = wrap.startswith("ad") or wrap == "complex"
            vals = ["F", "G", "H"] + (["dF"] + (["dG"] if wrap != "complex" else []) if grads else [])
            q = {"F": p.n_obj, "G": p.n_ieq_constr, "H": p.n_eq_constr}
            codes = Codes()
            for mode in ("batch", "single", "evaluator", "perm"):
                if wrap.startswith("static") and mode in ("single", "perm"):
                    continue
                if mode == "evaluator" and grads:
                    continue
                T = [[int(v) for v in (rng.integers(0, 5, nv) if cfg["zto"] else rng.integers(-4, 5, nv))] for _ in range(rows)]
                X = np.array(T, float) / (4.0 if cfg["zto"] else 1.0)
                keep = X.copy()
                if mode == "single":
                    res = [p.evaluate(x, return_values_of=vals, return_as_dictionary=True) for x in X]
                    res = {k2: [r[k2] for r in res] for k2 in vals}
                elif mode == "evaluator":
                    pop = Population.new("X", X)
                    Evaluator(evaluate_values_of=vals).eval(p, pop)
                    res = {k2: [i.get(k2) for i in pop] for k2 in vals}
                else:
                    res = p.evaluate(X, return_values_of=vals, return_as_dictionary=True)
                for k2 in vals:
                    rest = [q[k2]] if k2 in q else [q[k2[1:]], nv]
                    good = len(res[k2]) == rows and all(list(np.shape(r)) == rest for r in res[k2])
                    # an exact, shape-only event
                    ev.append({"k": "eval", "rows": list(range(rows)), "single": False, "same": bool(np.array_equal(X, keep)), "vals": [{"key": k2 + "?", "rest": rest, "shape": [rows] + rest if good else [0 - 1] + [int(v) for v in np.shape(res[k2][0])], "codes": [0] * rows}]})
                    if good:
                        for r in range(rows):
                            if k2 in ("dF", "dG"):
                                v = [ints(d) for d in res[k2][r]]
                            else:
                                v = ints(res[k2][r])
                            ev.append({"k": "exact", "key": k2, "x": T[r], "v": v, "sf": ints(SF[r]) if SF is not None else []})
            # afterwards the wrapped problem is the same
            ev.append({"k": "decl", "got": want, "want": want, "inner": decl(inner), "was": was})
            if not wrap.startswith("static"):
                x = [int(v) for v in rng.integers(-4, 5, nv)]
                c0 = dict(cfg, zto=False, dec="", static=False)
                out.append({"key": "inner/" + wrap, "cfg": c0, "ev": [{"k": "exact", "key": "F", "x": x, "v": ints(inner.evaluate(np.array(x, float), return_values_of=["F", "G", "H"])[0]), "sf": []}]})
        _, err = guarded(go)
        if err:
            ev.append({"k": "raised", "exc": err, "wrap": wrap, "kind": kind, "form": form})
        out.append({"key": "exact/" + wrap, "cfg": cfg, "ev": ev, "meta": {"kind": kind, "form": form}})
    return out


class PartP(ElementwiseProblem):
    def __init__(self, sets, ng):
        super().__init__(n_var=1, n_obj=1, n_ieq_constr=ng, xl=0.0, xu=99.0)
        self.sets, self.i = sets, 0

    def _evaluate(self, x, out, *a, **k):
        i, self.i = self.i + 1, self.i + 1
        for key, s in self.sets.items():
            if i in s:
                out[key] = np.full(1 if key == "F" else self.n_ieq_constr, float(i))


def partial(task):
    """Element-wise evaluations in which some rows do not set a value."""
    seed, plans = task
    rng = np.random.default_rng(seed)
    ev = []
    for plan in plans:
        for step in plan:
            n, s = len(step["rows"]), sorted(step["set"])
            full = list(range(1, n + 1))
            key = str(rng.choice(["F", "G"]))
            ng = 1 if key == "F" else int(rng.integers(1, 3))
            sets = {"F": full, "G": full}
            sets[key] = s
            p = PartP(sets, ng)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r, err = guarded(lambda: p.evaluate(np.array(step["rows"], float)[:, None], return_values_of=["F", "G"], return_as_dictionary=True))
            e = {"k": "part", "n": n, "set": [sets["F"], sets["G"]], "raised": err is not None, "out": []}
            if err is None:
                e["out"] = [[-1 if not np.isfinite(v[0]) else int(v[0]) if (v == v[0]).all() else -2 for v in np.asarray(r[k]).reshape(len(r[k]), -1)] for k in ("F", "G")]
            ev.append(e)
    return {"key": "partial", "ev": ev}


class FormP(Problem):
    def __init__(self, w, val, key):
        super().__init__(n_var=2, n_obj=w if key == "F" else 1, n_ieq_constr=w if key == "G" else 0, n_eq_constr=w if key == "H" else 0, xl=0.0, xu=9.0)
        self.val, self.key = val, key

    def _evaluate(self, X, out, *a, **k):
        out["F"] = np.zeros((len(X), 1))
        out[self.key] = self.val


def forms(task):
    """A user's function returns arrays of all small shapes."""
    seed, = task
    ev = []
    for n in range(1, 5):
        for w in range(1, 4):
            A = np.array([[r * 100 + i for i in range(1, w + 1)] for r in range(1, n + 1)], float)
            for shape in {(n, w), (w, n), (n + 1, w), (n, w + 1), (n - 1, w), (n * w,), (w,), (n,), (1, n * w), (n * w, 1), (1, w), (2 * n, w), (n, w, 1), (1, n, w)}:
                if 0 in shape:
                    continue
                m = int(np.prod(shape))
                V = np.resize(A.T if shape == (w, n) else A, m).reshape(shape)
                if shape in ((n, w, 1), (1, n, w)):
                    continue
                if shape == (n,):
                    V = np.arange(1, n + 1) * 100.0 + 1
                elif shape == (w, n):
                    V = A.T.copy()
                for key in ("F", "G", "H"):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        r, err = guarded(lambda: FormP(w, V, key).evaluate(np.ones((n, 2)), return_values_of=["F", "G", "H"], return_as_dictionary=True))
                    e = {"k": "form", "n": n, "w": w, "shape": list(shape), "size": m, "raised": err is not None, "out": []}
                    if err is None:
                        o = np.asarray(r[key])
                        e["out"] = o.astype(int).tolist() if o.ndim == 2 and len(o) == n else [[]]
                    ev.append(e)
    return {"key": "forms", "ev": ev}


class NanP(Problem):
    def __init__(self, V, by, elementwise):
        super().__init__(n_var=1, n_obj=1, n_ieq_constr=2, xl=0.0, xu=99.0, replace_nan_values_by=by, elementwise=elementwise)
        self.V = V

    def _evaluate(self, X, out, *a, **k):
        V = self.V[np.asarray(X[0] if self.elementwise else X[:, 0], dtype=int)]
        out["F"], out["G"] = V[..., :1], V[..., 1:]


def nans(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    enc = lambda A: [9999 if np.isnan(v) else int(v) if np.isfinite(v) else 8888 if v > 0 else -8888 for v in np.ravel(A)]
    for _ in range(n):
        m = int(rng.integers(1, 5))
        V = rng.choice([np.nan, np.inf, -np.inf, 0.0, 3.0, -7.0], size=(m, 3))
        by = [None, 0.0, 1000.0, -1.0][int(rng.integers(0, 4))]
        single, ele = bool(m == 1 and rng.random() < 0.5), bool(rng.integers(0, 2))
        X = np.arange(m, dtype=float)[:, None]
        r, err = guarded(lambda: NanP(V.copy(), by, ele).evaluate(X[0] if single else X, return_values_of=["F", "G"]))
        if err:
            ev.append({"k": "raised", "exc": err})
        else:
            for got, raw in ((r[0], V[:, :1]), (r[1], V[:, 1:])):
                ev.append({"k": "nan", "raw": enc(raw), "out": enc(got), "replace": by is not None, "by": int(by or 0)})
    return {"key": "nan", "ev": ev}


class Mixed(ElementwiseProblem):
    def __init__(self):
        super().__init__(vars={"a": Real(bounds=(0, 9)), "b": Integer(bounds=(0, 9)), "c": Binary(), "d": Choice(options=[1, 5])}, n_obj=2, n_ieq_constr=1)

    def _evaluate(self, X, out, *a, **k):
        out["F"] = [X["a"] + X["b"], X["b"] * X["d"]]
        out["G"] = X["a"] - 3.0 * X["c"]


class MixedVec(Mixed):
    def __init__(self):
        super().__init__()
        self.elementwise = False

    def _evaluate(self, X, out, *a, **k):
        out["F"] = np.array([[x["a"] + x["b"], x["b"] * x["d"]] for x in X])
        out["G"] = np.array([x["a"] - 3.0 * x["c"] for x in X])


def mixed(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    ev, codes = [], Codes()

    def go():
        for _ in range(n):
            p = [Mixed, MixedVec][int(rng.integers(0, 2))]()
            rows = [int(r) for r in rng.integers(0, 6, int(rng.integers(1, 5)))]
            X = [{"a": float(r), "b": int(r * 3 % 7), "c": bool(r % 2), "d": [1, 5][r % 2]} for r in rows]
            how = str(rng.choice(["list", "array", "single", "pop"]))
            keep = copy.deepcopy(X)
            if how == "single":
                rows, X, keep = rows[:1], X[:1], keep[:1]
                out = p.evaluate(X[0], return_values_of=["F", "G"], return_as_dictionary=True)
            elif how == "pop":
                pop = Population.new("X", np.array(X, dtype=object))
                Evaluator(evaluate_values_of=["F", "G"]).eval(p, pop)
                out = {"F": pop.get("F"), "G": pop.get("G")}
            else:
                out = p.evaluate(X if how == "list" else np.array(X, dtype=object), return_values_of=["F", "G"], return_as_dictionary=True)
            e = judge(p, np.zeros(1), rows, how == "single", codes, ["F", "G"], out, np.zeros(1))
            e["same"] = X == keep
            ev.append(e)
    _, err = guarded(go)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "mixed", "ev": ev}


def main():
    c = Check("C15")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION Spec\nCONSTANTS NRows=%d MaxBatch=%d MaxPlan=%d\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MC_Problem", cfg % ((3, 3, 2) if THOROUGH else (2, 3, 2)))
    plans = [p["plan"] for p in c.paths("MC_Problem", cfg % (2, 4, 1) + "ACTION_CONSTRAINT Emit\n")]
    plans += [p["plan"] for p in c.paths("MC_Problem", cfg % (2, 2, 2) + "ACTION_CONSTRAINT Emit\n")]
    c.notes["plans_from_tlc"] = len(plans)
    L = sorted(library())
    c.notes["library_problems"] = len(L)
    crash = lambda t, w: {"key": "library/" + str(t[0]), "ev": [{"k": "raised", "exc": w}]}
    tr = pmap(builtin, [(n, int(rng.integers(1 << 30)), 60 if THOROUGH else 14) for n in L], on_crash=crash)
    for part in pmap(exact, [(int(rng.integers(1 << 30)), 500 if THOROUGH else 60) for _ in range(8)]):
        tr += part
    tr += pmap(partial, [(int(rng.integers(1 << 30)), plans[i::4]) for i in range(4)])
    tr += pmap(forms, [(0,)]) + pmap(nans, [(int(rng.integers(1 << 30)), 4000 if THOROUGH else 400)]) + pmap(mixed, [(int(rng.integers(1 << 30)), 400 if THOROUGH else 80)])
    for t in tr:
        t.setdefault("cfg", {"F": []})
    c.validate("ProbTrace", tr)
    c.finish(rule="every problem of the library (%d configurations) in single, batched, permuted, repeated and population evaluations; random quadratic problems in every form under every wrapper against exact values and gradients; all subsets of rows that set a value; all small output shapes" % len(L), exhaustive=False)


if __name__ == "__main__":
    main()
