"""Problems, optimizer configurations and the recorder shared by the checks on whole runs.

Nothing here depends on private names of the code under test: runs are observed through the problem
(every evaluated row), the stopping criterion, the display, the callback and the archive objects a user
may pass in, and through the documented attributes of the algorithm between public calls.
"""
import copy
from common import *

pymoo = import_repo()
import numpy as np
from pymoo.core.callback import Callback
from pymoo.core.problem import Problem, ElementwiseProblem
from pymoo.core.population import Population
from pymoo.core.termination import Termination
from pymoo.core.individual import Individual


# ------------------------------------------------------------------------------------------ problems
def value_fn(spec):
    """The declared function of one row: integer-valued objectives and constraints (ties occur)."""
    rng = np.random.default_rng(spec.get("pseed", 0))
    nv, no = spec["n_var"], spec["n_obj"]
    xl, xu = np.array(spec["xl"], float), np.array(spec["xu"], float)
    w = np.where(xu > xl, xu - xl, 1.0)
    C = rng.random((no, nv))
    W = rng.integers(1, 4, (max(1, spec.get("n_ieq", 0) + spec.get("n_eq", 0)), nv)).astype(float)
    K, mode = spec.get("K", 40), spec.get("feas", "some")
    B = {"easy": 0.9, "some": 0.5, "hard": 0.2, "never": -0.5, "always": 2.0}[mode]

    def f(x):
        t = (np.asarray(x, float) - xl) / w
        F = [float(np.floor(K * sum((t[i] - C[j, i]) ** 2 for i in range(nv)) / nv)) for j in range(no)]
        G = [float(np.floor(20 * (sum(W[k, i] * t[i] for i in range(nv)) / sum(W[k]) - B))) for k in range(spec.get("n_ieq", 0))]
        H = [float(np.floor(12 * abs(sum(W[-1 - k, i] * t[i] for i in range(nv)) / sum(W[-1 - k]) - 0.4))) for k in range(spec.get("n_eq", 0))]
        return F, G, H
    return f


class RecProblem(Problem):
    """A vectorised problem that remembers every row it was asked to evaluate."""

    def __init__(self, spec):
        self.spec, self.fn, self.log, self.on_eval = spec, value_fn(spec), [], None
        vt = {"real": float, "int": int, "bool": bool}[spec.get("vtype", "real")]
        super().__init__(n_var=spec["n_var"], n_obj=spec["n_obj"], n_ieq_constr=spec.get("n_ieq", 0), n_eq_constr=spec.get("n_eq", 0),
                         xl=np.array(spec["xl"], vt if vt is not bool else float), xu=np.array(spec["xu"], vt if vt is not bool else float), vtype=vt)

    def __deepcopy__(self, memo):
        return self

    def _evaluate(self, X, out, *args, **kwargs):
        X = np.asarray(X)
        self.log.append(X.copy())
        V = [self.fn(x) for x in X]
        out["F"] = np.array([v[0] for v in V]).reshape(len(X), self.n_obj)
        if self.n_ieq_constr:
            out["G"] = np.array([v[1] for v in V]).reshape(len(X), self.n_ieq_constr)
        if self.n_eq_constr:
            out["H"] = np.array([v[2] for v in V]).reshape(len(X), self.n_eq_constr)
        if self.on_eval:
            self.on_eval(X)


class RecElementwise(ElementwiseProblem):
    def __init__(self, spec, **kw):
        self.spec, self.fn, self.log, self.on_eval = spec, value_fn(spec), [], None
        super().__init__(n_var=spec["n_var"], n_obj=spec["n_obj"], n_ieq_constr=spec.get("n_ieq", 0), n_eq_constr=spec.get("n_eq", 0),
                         xl=np.array(spec["xl"], float), xu=np.array(spec["xu"], float), **kw)

    def __deepcopy__(self, memo):
        return self

    def _evaluate(self, x, out, *args, **kwargs):
        x = np.asarray(x)
        self.log.append(x[None, :].copy())
        F, G, H = self.fn(x)
        out["F"] = F
        if self.n_ieq_constr:
            out["G"] = G
        if self.n_eq_constr:
            out["H"] = H
        if self.on_eval:
            self.on_eval(x[None, :])


def pspec(n_obj=2, n_var=3, n_ieq=0, n_eq=0, feas="some", K=40, vtype="real", box="unit", pseed=0):
    xl, xu = {"unit": ([0.0] * n_var, [1.0] * n_var),
              "skew": ([-3.0 + i for i in range(n_var)], [0.5 + 2 * i for i in range(n_var)]),
              "tiny": ([1e-9 * i for i in range(n_var)], [1e-9 * i + 1e-7 for i in range(n_var)]),
              "flat": ([0.25 if i == n_var - 1 else 0.0 for i in range(n_var)], [0.25 if i == n_var - 1 else 1.0 for i in range(n_var)]),
              "huge": ([-1e6] * n_var, [2e6] * n_var),
              "grid": ([-2] * n_var, [5] * n_var),
              "bin": ([0] * n_var, [1] * n_var)}[box]
    return dict(n_obj=n_obj, n_var=n_var, n_ieq=n_ieq, n_eq=n_eq, feas=feas, K=K, vtype=vtype, xl=xl, xu=xu, pseed=pseed, box=box)


# ------------------------------------------------------------------------------------ configurations
def ops(vtype):
    """Operators for integer and binary spaces."""
    from pymoo.operators.sampling.rnd import IntegerRandomSampling, BinaryRandomSampling
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.pntx import TwoPointCrossover
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.repair.rounding import RoundingRepair
    if vtype == "int":
        return dict(sampling=IntegerRandomSampling(), crossover=SBX(prob=0.9, eta=3.0, vtype=float, repair=RoundingRepair()),
                    mutation=PM(prob=0.9, eta=3.0, vtype=float, repair=RoundingRepair()))
    if vtype == "bool":
        return dict(sampling=BinaryRandomSampling(), crossover=TwoPointCrossover(), mutation=BitflipMutation())
    return {}


def RD(m, p):
    from pymoo.util.ref_dirs import get_reference_directions
    return get_reference_directions("das-dennis", m, n_partitions=p)


class DM:
    def makeDecision(self, F):
        return np.argsort(np.argsort(F.sum(axis=1), kind="stable"), kind="stable") + 1

    def makePairwiseDecision(self, F):
        return self.get_pairwise_ranks_func(F, np.ones(F.shape[1]), dm=lambda P: "a" if P[0].sum() < P[1].sum() else "b")


def _imp(path, name):
    import importlib
    return getattr(importlib.import_module("pymoo.algorithms." + path), name)


def moo_algorithms(m=2, vtype="real"):
    """name -> (factory, traits). traits: constr (handles constraints by feasibility), eas (set-based elitist)"""
    o = ops(vtype)
    rd = lambda: RD(m, 5 if m == 2 else 3)
    A = {}

    def add(name, f, **t):
        A[name] = (f, t)
    add("NSGA2", lambda **k: _imp("moo.nsga2", "NSGA2")(pop_size=10, **o, **k), gen=True)
    add("NSGA2-off4", lambda **k: _imp("moo.nsga2", "NSGA2")(pop_size=11, n_offsprings=4, **o, **k), gen=True)
    add("NSGA2-off1", lambda **k: _imp("moo.nsga2", "NSGA2")(pop_size=6, n_offsprings=1, **o, **k), gen=True)
    add("NSGA2-dup", lambda **k: _imp("moo.nsga2", "NSGA2")(pop_size=10, eliminate_duplicates=False, **o, **k), gen=True)
    add("NSGA3", lambda **k: _imp("moo.nsga3", "NSGA3")(rd(), pop_size=12, **o, **k), gen=True)
    add("UNSGA3", lambda **k: _imp("moo.unsga3", "UNSGA3")(rd(), pop_size=12, **o, **k), gen=True)
    add("RNSGA2", lambda **k: _imp("moo.rnsga2", "RNSGA2")(ref_points=np.array([[5.0] * m, [10.0] + [2.0] * (m - 1)]), pop_size=10, **o, **k), gen=True)
    add("RNSGA3", lambda **k: _imp("moo.rnsga3", "RNSGA3")(ref_points=np.array([[0.4] * m, [0.8] + [0.2] * (m - 1)]), pop_per_ref_point=6, **o, **k), gen=True)
    add("CTAEA", lambda **k: _imp("moo.ctaea", "CTAEA")(rd(), **o, **k), gen=True)
    add("SPEA2", lambda **k: _imp("moo.spea2", "SPEA2")(pop_size=10, **o, **k), gen=True)
    add("SMSEMOA", lambda **k: _imp("moo.sms", "SMSEMOA")(pop_size=8, **o, **k), gen=True)
    add("AGEMOEA", lambda **k: _imp("moo.age", "AGEMOEA")(pop_size=10, **o, **k), gen=True)
    add("AGEMOEA2", lambda **k: _imp("moo.age2", "AGEMOEA2")(pop_size=10, **o, **k), gen=True)
    add("RVEA", lambda **k: _imp("moo.rvea", "RVEA")(rd(), **o, **k), gen=True, shrink=True)
    add("DNSGA2-A", lambda **k: _imp("moo.dnsga2", "DNSGA2")(version="A", pop_size=10, **o, **k), gen=True, unconstr=True)
    add("DNSGA2-B", lambda **k: _imp("moo.dnsga2", "DNSGA2")(version="B", pop_size=10, **o, **k), gen=True, unconstr=True)
    if vtype != "real":
        return A
    add("MOEAD", lambda **k: _imp("moo.moead", "MOEAD")(rd(), n_neighbors=3, **k), unconstr=True)
    add("ParallelMOEAD", lambda **k: _imp("moo.moead", "ParallelMOEAD")(rd(), n_neighbors=3, **k), unconstr=True)
    add("OmniOptimizer", lambda **k: _imp("moo.omni", "OmniOptimizer")(pop_size=10, **k), gen=True)
    add("NSDE", lambda **k: _imp("moo.nsde", "NSDE")(pop_size=10, **k), gen=True)
    add("GDE3", lambda **k: _imp("moo.gde3", "GDE3")(pop_size=10, variant="DE/rand/1/bin", F=(0.2, 0.9), **k), gen=True)
    add("GDE3MNN", lambda **k: _imp("moo.gde3", "GDE3MNN")(pop_size=10, **k), gen=True)
    add("GDE3PCD", lambda **k: _imp("moo.gde3", "GDE3PCD")(pop_size=10, **k), gen=True)
    add("GDE32NN", lambda **k: _imp("moo.gde3", "GDE32NN")(pop_size=10, **k), gen=True)
    add("NSDER", lambda **k: _imp("moo.nsder", "NSDER")(rd(), pop_size=12, **k), gen=True)
    add("MOPSO_CD", lambda **k: _imp("moo.mopso_cd", "MOPSO_CD")(pop_size=8, archive_size=10, **k))
    add("CMOPSO", lambda **k: _imp("moo.cmopso", "CMOPSO")(pop_size=10, elite_size=4, **k))
    add("PINSGA2", lambda **k: _imp("moo.pinsga2", "PINSGA2")(pop_size=10, tau=3, eta=3, vf_type="linear", opt_method="trust-constr", automated_dm=DM(), **k), gen=True, slow=True)
    add("KGB", lambda **k: _imp("moo.kgb", "KGB")(pop_size=10, ps={}, **k), gen=True, dynamic=True, unconstr=True)
    return A


def soo_algorithms(vtype="real"):
    o = ops(vtype)
    A = {}

    def add(name, f, **t):
        A[name] = (f, t)
    add("GA", lambda **k: _imp("soo.nonconvex.ga", "GA")(pop_size=8, **o, **k), elitist=True, gen=True)
    add("GA-off1", lambda **k: _imp("soo.nonconvex.ga", "GA")(pop_size=6, n_offsprings=1, **o, **k), elitist=True, gen=True)
    add("NicheGA", lambda **k: _imp("soo.nonconvex.ga_niching", "NicheGA")(pop_size=8, **o, **k), gen=True)
    if vtype != "real":
        return A
    for v in ("DE/best/1/bin", "DE/rand/1/exp", "DE/rand/2/bin"):
        add(v, lambda v=v, **k: _imp("soo.nonconvex.de", "DE")(pop_size=8, variant=v, **k), elitist=True, one2one=True)
    add("DE-off5", lambda **k: _imp("soo.nonconvex.de", "DE")(pop_size=8, n_offsprings=5, **k), elitist=True, one2one=True)
    add("PSO", lambda **k: _imp("soo.nonconvex.pso", "PSO")(pop_size=8, **k), elitist=True, one2one=True)
    add("PSO-noadapt", lambda **k: _imp("soo.nonconvex.pso", "PSO")(pop_size=8, adaptive=False, pertube_best=False, initial_velocity="zero", **k), elitist=True, one2one=True)
    add("EPPSO", lambda **k: _imp("soo.nonconvex.pso_ep", "EPPSO")(pop_size=10, **k), elitist=True, one2one=True)
    add("EPPSO-ring", lambda **k: _imp("soo.nonconvex.pso_ep", "EPPSO")(pop_size=10, topology="ring", init_V="random", **k), elitist=True, one2one=True)
    add("ES", lambda **k: _imp("soo.nonconvex.es", "ES")(n_offsprings=14, rule=1.0 / 7.0, **k), elitist=True)
    add("SRES", lambda **k: _imp("soo.nonconvex.sres", "SRES")(n_offsprings=14, rule=1.0 / 7.0, **k))
    add("ISRES", lambda **k: _imp("soo.nonconvex.isres", "ISRES")(n_offsprings=14, rule=1.0 / 7.0, **k))
    add("NRBO", lambda **k: _imp("soo.nonconvex.nrbo", "NRBO")(pop_size=8, max_iteration=8, **k), elitist=True, one2one=True)
    add("BRKGA", lambda **k: _imp("soo.nonconvex.brkga", "BRKGA")(n_elites=4, n_offsprings=6, n_mutants=3, **k), elitist=True, gen=True)
    add("NelderMead", lambda **k: _imp("soo.nonconvex.nelder", "NelderMead")(n_sample_points=5, **k), elitist=True, loop=True)
    add("NelderMead-x0", lambda **k: _imp("soo.nonconvex.nelder", "NelderMead")(x0="center", **k), elitist=True, loop=True)
    add("PatternSearch", lambda **k: _imp("soo.nonconvex.pattern", "PatternSearch")(n_sample_points=5, **k), elitist=True, loop=True)
    add("CMAES", lambda **k: _imp("soo.nonconvex.cmaes", "CMAES")(x0="center", sigma=0.3, **k), elitist=True, loop=True, cma=True)
    add("BIPOPCMAES", lambda **k: _imp("soo.nonconvex.cmaes", "BIPOPCMAES")(x0="center", sigma=0.3, restarts=1, **k), elitist=True, loop=True, cma=True)
    add("SimpleCMAES", lambda **k: _imp("soo.nonconvex.cmaes", "SimpleCMAES")(x0="center", sigma=0.3, **k), elitist=True, loop=True, cma=True)
    add("DIRECT", lambda **k: _imp("soo.nonconvex.direct", "DIRECT")(**k), elitist=True, loop=True)
    add("G3PCX", lambda **k: _imp("soo.nonconvex.g3pcx", "G3PCX")(pop_size=20, n_offsprings=4, **k), elitist=True, loop=True)
    add("RandomSearch", lambda **k: _imp("soo.nonconvex.random_search", "RandomSearch")(n_points_per_iteration=7, **k), elitist=True)
    return A


def make_algo(name, m, vtype, spec, **kw):
    """Builds a configured algorithm for the problem description."""
    A = moo_algorithms(m, vtype) if m > 1 else soo_algorithms(vtype)
    f, tr = A[name]
    if name in ("NelderMead-x0", "CMAES", "BIPOPCMAES", "SimpleCMAES"):
        x0 = (np.array(spec["xl"], float) + np.array(spec["xu"], float)) / 2
        if name == "NelderMead-x0":
            return _imp("soo.nonconvex.nelder", "NelderMead")(x0=x0, **kw), tr
        if name == "CMAES":
            return _imp("soo.nonconvex.cmaes", "CMAES")(x0=x0, sigma=0.3, **kw), tr
        if name == "BIPOPCMAES":
            return _imp("soo.nonconvex.cmaes", "BIPOPCMAES")(x0=x0, sigma=0.3, restarts=1, **kw), tr
        return _imp("soo.nonconvex.cmaes", "SimpleCMAES")(x0=x0, sigma=0.3, **kw), tr
    return f(**kw), tr


# ----------------------------------------------------------------------------------------- recording
class Ids:
    """Stable small integers for objects (kept alive) and for exact rows of values."""

    def __init__(self):
        self.o, self.keep, self.r = {}, [], {}

    def obj(self, x):
        k = id(x)
        if k not in self.o:
            self.keep.append(x)
            self.o[k] = len(self.keep)
        return self.o[k]

    def row(self, x):
        if isinstance(x, dict):
            k = repr(sorted((a, repr(b)) for a, b in x.items()))
        else:
            a = np.asarray(x)
            k = (a.astype(float) + 0.0).tobytes() if a.dtype != object else repr(a.tolist())
        return self.r.setdefault(k, len(self.r) + 1)


def gen_termination(n):
    from pymoo.termination.max_gen import MaximumGenerationTermination
    return MaximumGenerationTermination(n)


class Tape:
    """Collects the events of one run; copies of the run (history) record nothing."""

    def __init__(self):
        self.ev, self.on = [], True

    def __deepcopy__(self, memo):
        t = Tape()
        t.on = False
        return t

    def __call__(self, kind, **kw):
        if self.on:
            kw["k"] = kind
            self.ev.append(kw)


def tap_termination(term, tape):
    cls = term.__class__

    def update(self, algorithm):
        v = cls.update(self, algorithm)
        self._tape("term", n=algorithm.n_iter, n_eval=algorithm.evaluator.n_eval, perc=self.perc, stop=self.has_terminated())
        return v
    term.__class__ = type(cls.__name__, (cls,), {"update": update})
    term._tape = tape
    return term


def members(x):
    """The solutions handed out by infill(): a population or a single one."""
    return [] if x is None else [x] if isinstance(x, Individual) else list(x)


class TapeDisplay:
    def __init__(self, tape):
        self.tape = tape

    def __call__(self, algorithm):
        self.tape("disp", n=algorithm.n_iter)

    def finalize(self):
        self.tape("fin")


class TapeArchive:
    def __init__(self, tape):
        self.tape = tape

    def add(self, infills):
        self.tape("arch", size=len(members(infills)), ids=[id(x) for x in members(infills)])
        return self


def snap(pop):
    """Everything visible of a population."""
    if pop is None:
        return None
    pop = members(pop)
    d = {"ids": [id(x) for x in pop], "keep": list(pop), "n": len(pop)}
    for k in ("X", "F", "G", "H", "CV", "FEAS", "n_gen", "n_iter"):
        d[k] = [np.array(i.get(k), copy=True) if i.get(k) is not None else None for i in pop]
    d["ev"] = [sorted(i.evaluated) for i in pop]
    return d


class TapeCallback(Callback):
    def __init__(self, tape):
        super().__init__()
        self.tape = tape

    def initialize(self, algorithm):
        self.tape("cb-init", n=algorithm.n_iter)

    def notify(self, algorithm):
        h = algorithm.history
        self.tape("cb", n=algorithm.n_iter, n_eval=algorithm.evaluator.n_eval, hist=len(h) if h is not None else 0,
                  hist_n=[x.n_iter for x in h] if h else [], pop=snap(algorithm.pop), opt=snap(algorithm.opt), off=snap(algorithm.off),
                  hpop=snap(h[-1].pop) if h else None, hopt=snap(h[-1].opt) if h else None)


def tap(algo, tape):
    """Records the two protocol methods of this object without changing what they do."""
    cls = algo.__class__

    def infill(self):
        before = self.n_iter if self.is_initialized else 1
        r = cls.infill(self)
        self._tape("infill", n=self.n_iter, before=before, nil=r is None, force=bool(self.termination.force_termination),
                   ids=[id(x) for x in members(r)], keep=members(r),
                   stamps=[(x.get("n_gen"), x.get("n_iter")) for x in members(r)])
        return r

    def advance(self, infills=None, **kw):
        self._tape("adv", n=self.n_iter)
        r = cls.advance(self, infills=infills, **kw)
        from pymoo.core.result import Result
        self._tape("done", n=self.n_iter, next=bool(self.has_next()), init=bool(self.is_initialized), n_eval=self.evaluator.n_eval,
                   off=infills is self.off, result=isinstance(r, Result), opt_ret=(r is self.opt) or isinstance(r, Result))
        return r
    algo.__class__ = type(cls.__name__, (cls,), {"infill": infill, "advance": advance})
    algo._tape = tape
    return algo


def is_loopwise(algo):
    from pymoo.core.algorithm import LoopwiseAlgorithm
    return isinstance(algo, LoopwiseAlgorithm)


def record(name, m, spec, term, seed=1, history=False, archive=True, drive="run", elementwise=False, algo_kw={}, timeout=90):
    """One run on the tape: returns (tape events, algorithm, problem, traits, error)."""
    tape = Tape()
    prob = RecElementwise(spec) if elementwise else RecProblem(spec)
    algo, tr = make_algo(name, m, spec.get("vtype", "real"), spec, **algo_kw)
    tap(algo, tape)
    prob.on_eval = lambda X: tape("eval", rows=np.array(X, copy=True), vals=[prob.fn(x) for x in X])
    kw = dict(seed=seed, callback=TapeCallback(tape), termination=tap_termination(copy.deepcopy(term), tape), display=TapeDisplay(tape), save_history=history)
    if archive:
        kw["archive"] = TapeArchive(tape)

    def go():
        if drive == "run":
            from pymoo.optimize import minimize
            t = kw.pop("termination")
            res = minimize(prob, algo, t, copy_algorithm=False, copy_termination=False, **kw)
            return res
        algo.setup(prob, **kw)
        if drive == "next":
            while algo.has_next():
                algo.next()
        elif drive == "ask":
            while algo.has_next():
                inf = algo.ask()
                if inf is not None:
                    algo.evaluator.eval(prob, inf)
                    algo.tell(infills=inf)
                else:
                    algo.tell()
        elif drive == "static":
            from pymoo.core.evaluator import Evaluator
            from pymoo.problems.static import StaticProblem
            while algo.has_next():
                inf = algo.ask()
                if inf is None:
                    algo.tell()
                    continue
                new = Population.create(*[i for i in members(inf) if not i.evaluated])
                X = np.array([i.X for i in new])
                out = {k: v for k, v in prob.evaluate(X, return_as_dictionary=True).items()}
                algo.evaluator.eval(StaticProblem(prob, **out), new)
                algo.tell(infills=inf)
        return algo.result()
    res, err = guarded(go, timeout=timeout)
    return dict(ev=tape.ev, algo=algo, prob=prob, traits=tr, err=err, res=res)
