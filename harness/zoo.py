"""Optimizer configurations beyond the default ones (every operator, every variable type) and a
problem that can be copied and serialised like a user's."""
from runs import *
from runs import _imp
from pymoo.core.variable import Real, Integer, Binary, Choice
from pymoo.core.mixed import MixedVariableGA


def mixed_vars():
    return {"b": Binary(), "c": Choice(options=["red", "green", "blue"]), "i": Integer(bounds=(-2, 7)), "r": Real(bounds=(-1.5, 2.5)),
            "d": Choice(options=[3, 5, 11]), "q": Real(bounds=(0.0, 1e-3))}


class ZooProblem(Problem):
    """vtype real/int/bool as in runs.py, "perm" (permutations of n_var) or "mixed"."""

    def __init__(self, spec):
        self.spec, self.log, self.fn = spec, [], None
        vt = spec.get("vtype", "real")
        if vt == "mixed":
            super().__init__(vars=mixed_vars(), n_obj=spec["n_obj"], n_ieq_constr=spec.get("n_ieq", 0))
        elif vt == "perm":
            super().__init__(n_var=spec["n_var"], n_obj=spec["n_obj"], n_ieq_constr=spec.get("n_ieq", 0), xl=0, xu=spec["n_var"] - 1, vtype=int)
        else:
            t = {"real": float, "int": int, "bool": bool}[vt]
            super().__init__(n_var=spec["n_var"], n_obj=spec["n_obj"], n_ieq_constr=spec.get("n_ieq", 0), n_eq_constr=spec.get("n_eq", 0),
                             xl=np.array(spec["xl"], t if t is not bool else float), xu=np.array(spec["xu"], t if t is not bool else float), vtype=t)

    def __getstate__(self):
        s = dict(self.__dict__)
        s["fn"], s["log"] = None, []
        return s

    def row(self, x):
        vt = self.spec.get("vtype", "real")
        if vt == "mixed":
            h = {"red": 1, "green": 4, "blue": 2}[x["c"]] + {3: 0, 5: 2, 11: 1}[x["d"]] + int(bool(x["b"])) * 2
            a = abs(int(x["i"]) - 3) + np.floor(4 * abs(float(x["r"]) - 0.7)) + np.floor(4e3 * float(x["q"]))
            return [float(h + a), float(8 - h + a)][:self.n_obj], [float(int(x["i"]) - 5)][:self.n_ieq_constr], []
        if vt == "perm":
            x = np.asarray(x).astype(int)
            d = int(np.abs(np.diff(x)).sum())
            return [float(d), float(3 * len(x) - d + abs(int(x[0]) - 2))][:self.n_obj], [float(x[-1] - 2)][:self.n_ieq_constr], []
        if self.spec.get("drift"):
            # every objective improves towards (one of two opposite) corners of the box
            w = np.where(self.xu > self.xl, self.xu - self.xl, 1.0)
            t = (np.asarray(x, float) - self.xl) / w
            sg = np.array([1.0 if (k * 7 + self.spec["drift"]) % 3 else -1.0 for k in range(self.n_var)])
            v = float(np.sum(sg * t))
            return ([v, 0.25 * float(np.sum(t)) - v] + [v + t[0]] * self.n_obj)[:self.n_obj], [float(t[0] - 2)] * self.n_ieq_constr, [0.0] * self.n_eq_constr
        if self.fn is None:
            self.fn = value_fn(self.spec)
        return self.fn(x)

    def _evaluate(self, X, out, *args, **kwargs):
        self.log.append([dict(x) if isinstance(x, dict) else np.array(x, copy=True) for x in X])
        V = [self.row(x) for x in X]
        out["F"] = np.array([v[0] for v in V], float).reshape(len(V), self.n_obj)
        if self.n_ieq_constr:
            out["G"] = np.array([v[1] for v in V], float).reshape(len(V), self.n_ieq_constr)
        if self.n_eq_constr:
            out["H"] = np.array([v[2] for v in V], float).reshape(len(V), self.n_eq_constr)


def zspec(vt, n_obj=1, n_ieq=0, n_var=None, pseed=0, box=None):
    if vt in ("perm", "mixed"):
        return dict(vtype=vt, n_obj=n_obj, n_ieq=n_ieq, n_var=n_var or 6)
    return pspec(n_obj=n_obj, n_var=n_var or 4, n_ieq=n_ieq, vtype=vt, box=box or {"real": "skew", "int": "grid", "bool": "bin"}[vt], pseed=pseed)


def O(path, name):
    import importlib
    return getattr(importlib.import_module("pymoo.operators." + path), name)


from pymoo.core.repair import Repair


class RandomRounding(Repair):
    """what a user's repair may look like: every number to one of its two neighbouring integers"""

    def _do(self, problem, X, random_state=None, **kwargs):
        r = random_state.random(X.shape)
        return np.where(X == np.round(X), X, np.where(r < 0.5, np.floor(X), np.ceil(X))).astype(int)


def operators():
    """name -> (variable type, samplings/crossover/mutation as factories)."""
    R = {}
    fl = lambda: O("sampling.rnd", "FloatRandomSampling")()
    pm = lambda: O("mutation.pm", "PM")(eta=10)
    sbx = lambda: O("crossover.sbx", "SBX")()

    def add(name, vt, s, c, m):
        R[name] = (vt, s, c, m)
    for name, c in {
        "sbx-near": lambda: O("crossover.sbx", "SBX")(eta=30, prob=1.0, prob_var=1.0, prob_bin=0.2), "sbx-one": lambda: O("crossover.sbx", "SBX")(eta=0.5, n_offsprings=1),
        "dex": lambda: O("crossover.dex", "DEX")(), "dex-exp": lambda: O("crossover.dex", "DEX")(variant="exp", CR=0.7, F=0.4, n_diffs=2, at_least_once=False),
        "dex-dither": lambda: O("crossover.dex", "DEX")(F=None), "pcx": lambda: O("crossover.pcx", "PCX")(), "spx": lambda: O("crossover.spx", "SPX")(),
        "ux": lambda: O("crossover.ux", "UX")(), "hux": lambda: O("crossover.hux", "HUX")(), "expx": lambda: O("crossover.expx", "ExponentialCrossover")(),
        "binx": lambda: O("crossover.binx", "BX")(), "pntx3": lambda: O("crossover.pntx", "PointCrossover")(n_points=3), "nox": lambda: O("crossover.nox", "NoCrossover")(),
        "pntx1": lambda: O("crossover.pntx", "SinglePointCrossover")(),
    }.items():
        add("x-" + name, "real", fl, c, pm)
    for name, m in {
        "gauss": lambda: O("mutation.gauss", "GM")(sigma=0.3), "gauss-hi": lambda: O("mutation.gauss", "GM")(sigma=2.0, prob=1.0, prob_var=1.0),
        "pm-once": lambda: O("mutation.pm", "PM")(eta=0.5, at_least_once=True, prob=1.0), "nom": lambda: O("mutation.nom", "NoMutation")(),
    }.items():
        add("m-" + name, "real", fl, sbx, m)
    add("s-lhs", "real", lambda: O("sampling.lhs", "LHS")(), sbx, pm)
    add("s-lhs-iter", "real", lambda: O("sampling.lhs", "LHS")(smooth=False, iterations=3, criterion=None), sbx, pm)
    rr = lambda: O("repair.rounding", "RoundingRepair")()
    ints = lambda: O("sampling.rnd", "IntegerRandomSampling")()
    add("i-sbx", "int", ints, lambda: O("crossover.sbx", "SBX")(vtype=float, repair=rr()), lambda: O("mutation.pm", "PM")(vtype=float, repair=rr()))
    add("i-ux-gauss", "int", ints, lambda: O("crossover.ux", "UX")(), lambda: O("mutation.gauss", "GM")(sigma=0.4, vtype=float, repair=rr()))
    bits = lambda: O("sampling.rnd", "BinaryRandomSampling")()
    flip = lambda: O("mutation.bitflip", "BitflipMutation")()
    for n, c in {"hux": lambda: O("crossover.hux", "HUX")(), "ux": lambda: O("crossover.ux", "UX")(), "pntx2": lambda: O("crossover.pntx", "TwoPointCrossover")(), "expx": lambda: O("crossover.expx", "ExponentialCrossover")(), "bx": lambda: O("crossover.binx", "BX")(bias=0.3)}.items():
        add("b-" + n, "bool", bits, c, flip)
    perm = lambda: O("sampling.rnd", "PermutationRandomSampling")()
    inv = lambda: O("mutation.inversion", "InversionMutation")()
    add("p-ox", "perm", perm, lambda: O("crossover.ox", "OrderCrossover")(), inv)
    add("p-ox-shift", "perm", perm, lambda: O("crossover.ox", "OrderCrossover")(shift=True), lambda: O("mutation.inversion", "InversionMutation")(prob=0.5))
    add("p-erx", "perm", perm, lambda: O("crossover.erx", "ERX")(), inv)
    return R


def configurations():
    """name -> (factory(spec), spec): everything that can be run from a seed."""
    C = {}

    def base(name, m):
        def f(spec):
            return make_algo(name, m, "real", spec)[0]
        return f
    for name, (_, tr) in moo_algorithms(2).items():
        C[name] = (base(name, 2), pspec(n_obj=2, n_var=3, n_ieq=0 if tr.get("unconstr") else 1, pseed=3, box="skew"))
    for name, (_, tr) in soo_algorithms().items():
        C[name] = (base(name, 1), pspec(n_obj=1, n_var=3, pseed=5, box="skew"))
    for name, (vt, s, c, m) in operators().items():
        def g(spec, s=s, c=c, m=m):
            return _imp("soo.nonconvex.ga", "GA")(pop_size=8, sampling=s(), crossover=c(), mutation=m())
        C["GA/" + name] = (g, zspec(vt))

        def h(spec, s=s, c=c, m=m):
            return _imp("moo.nsga2", "NSGA2")(pop_size=8, sampling=s(), crossover=c(), mutation=m())
        if name.startswith(("p-", "b-", "i-")):
            C["NSGA2/" + name] = (h, zspec(vt, n_obj=2, n_ieq=1))
    from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive

    def archived(spec):
        return _imp("moo.nsga2", "NSGA2")(pop_size=10, archive=MultiObjectiveArchive(max_size=6, truncate_size=4))
    C["NSGA2/archive"] = (archived, pspec(n_obj=2, n_var=3, pseed=3, box="skew"))
    C["GA/archive"] = (lambda spec: _imp("soo.nonconvex.ga", "GA")(pop_size=10, archive=SingleObjectiveArchive(max_size=3), **dict(zip(("sampling", "crossover", "mutation"), (f() for f in operators()["i-sbx"][1:])))), pspec(n_obj=1, n_var=3, vtype="int", box="grid", pseed=5))
    for name, m, kw in [("PSO", 1, {}), ("NRBO", 1, {}), ("G3PCX", 1, {}), ("DE", 1, {}), ("GA", 1, {}), ("NSDE", 2, {}), ("GDE3", 2, {}), ("CMOPSO", 2, {}), ("DNSGA2", 2, {}), ("NSGA2", 2, {}), ("SPEA2", 2, {}), ("SMSEMOA", 2, {}), ("AGEMOEA", 2, {})]:
        cls = {"PSO": "soo.nonconvex.pso", "NRBO": "soo.nonconvex.nrbo", "G3PCX": "soo.nonconvex.g3pcx", "DE": "soo.nonconvex.de", "GA": "soo.nonconvex.ga", "CMOPSO": "moo.cmopso", "GDE3": "moo.gde3",
               "NSDE": "moo.nsde", "DNSGA2": "moo.dnsga2", "NSGA2": "moo.nsga2", "SPEA2": "moo.spea2", "SMSEMOA": "moo.sms", "AGEMOEA": "moo.age"}[name]
        C["round/" + name] = (lambda spec, name=name, cls=cls: _imp(cls, name)(pop_size=10, repair=RandomRounding()), pspec(n_obj=m, n_var=3, vtype="int", box="grid", pseed=5))
    C["MixedVariableGA"] = (lambda spec: MixedVariableGA(pop_size=8), zspec("mixed"))
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
    C["MixedVariableGA-moo"] = (lambda spec: MixedVariableGA(pop_size=8, survival=RankAndCrowding()), zspec("mixed", n_obj=2, n_ieq=1))
    try:
        import optuna  # noqa
        optuna.logging.set_verbosity(optuna.logging.ERROR)
        C["Optuna"] = (lambda spec: _imp("soo.nonconvex.optuna", "Optuna")(), zspec("mixed"))
    except Exception:  # noqa
        pass
    return C
