"""C23: direct search moves. Direct.tla (modules MC_Direct, DirTrace)."""
from common import *
import_repo()
import numpy as np
from pymoo.core.problem import Problem
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.evaluator import Evaluator
from pymoo.algorithms.soo.nonconvex.nelder import NelderMead, adaptive_params, default_params
from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
from pymoo.algorithms.soo.nonconvex.direct import DIRECT
from pymoo.algorithms.soo.univariate.golden import GoldenSectionSearch
from pymoo.algorithms.soo.univariate.quadr_interp import QuadraticInterpolationSearch
from pymoo.algorithms.soo.univariate.exp import ExponentialSearch
from pymoo.algorithms.soo.univariate import wolfe
from pymoo.algorithms.base.line import LineSearchProblem


class Out(Exception):
    """the script of answers is used up"""


class Fun(Problem):
    """answers[k] (a level: positive is a violation) for the k-th point, or a function of the variables"""

    def __init__(self, n, xl, xu, answers=None, fun=None, rng=None, con=True):
        super().__init__(n_var=n, n_obj=1, n_ieq_constr=1 if con else 0, xl=xl, xu=xu)
        self.answers, self.fun, self.k, self.rng = answers, fun, 0, rng

    def _evaluate(self, X, out, *args, **kwargs):
        F, G = [], []
        for x in X:
            if self.answers is not None:
                if self.k >= len(self.answers):
                    raise Out()
                v = self.answers[self.k]
                # what an infeasible solution has as an objective does not matter
                f, g = (float(min(v, 0)) if v <= 0 else float(self.rng.integers(-9, 9))), float(v if v > 0 else -int(self.rng.integers(0, 3)))
            else:
                f, g = self.fun(x)
            self.k += 1
            F.append(f), G.append(g)
        out["F"] = np.array(F)[:, None]
        if self.n_ieq_constr:
            out["G"] = np.array(G)[:, None]


def vals_of(inds, constr=True):
    return [[float(i.CV[0]) if constr else 0.0, float(i.F[0])] for i in inds]


def rank_vals(evs, keys):
    """values of all events as ranks (0 stays the rank of no violation)"""
    cv, f = [0.0], []
    for e in evs:
        for k in keys:
            for v in e[k]:
                cv.append(v[0]), f.append(v[1])
    rc, rf = Ranks(np.array(cv)), Ranks(np.array(f or [0.0]))
    for e in evs:
        for k in keys:
            e[k] = [[int(rc(v[0])), int(rf(v[1]))] for v in e[k]]


# ------------------------------------------------------------------------------------ simplex method
def drive(algo, prob, steps, rec):
    """ask, evaluate, tell; rec(algo, None) before and rec(algo, infills, done) after; one record per batch"""
    for _ in range(steps):
        if not algo.has_next():
            return None
        n0 = algo.n_iter
        try:
            pre = rec(algo, None, None, False)
            inf = algo.ask()
            if inf is None:
                return None
            seq = Population.create(inf) if isinstance(inf, Individual) else inf
            old = [len(np.atleast_1d(i.F)) > 0 and i.evaluated != set() and "F" in i.evaluated for i in seq]
            algo.evaluator.eval(algo.problem, inf, algorithm=algo)
            algo.tell(infills=inf)
        except Out:
            return None
        rec(algo, pre, (seq, old), algo.n_iter != n0)
    return None


def nm_units(P, lo, hi, n):
    """origin and unit: the extent of the simplex is 1000 (400) units"""
    d = max(float(np.abs(P[:, None] - P[None]).max()), 1e-300)
    return P[0], d / (1000.0 if n <= 3 else 400.0)


def nm_trace(n, prob, x0, params, scale, seed, steps, key, meta=None, n_sample=6):
    evs = []
    kw = dict(func_params=adaptive_params if params == "adaptive" else default_params)
    if scale is not None:
        kw["init_simplex_scale"] = scale
    if x0 is not None:
        kw["x0"] = x0
    else:
        kw["n_sample_points"] = n_sample
    algo = NelderMead(**kw)
    xl, xu = prob.xl, prob.xu
    st = {"R": None, "P": None}

    def rec(a, pre, inf, done):
        if pre is None:
            if st["P"] is None and a.pop is not None and len(a.pop) == n + 1:
                st["P"] = np.array([i.X.copy() for i in a.pop])
            return {"x": 0}
        seq, old = inf
        X = np.array([i.X for i in seq])
        P = st["P"]
        ev = dict(k="nm", raised=False, old=[bool(b) for b in old], vals=vals_of(seq, prob.n_ieq_constr > 0), done=bool(done), X=[], P=[], R=[], lo=[], hi=[], D=[], pop=[])
        first = P is None
        if len(X) and not (first and len(X) != n + 1) and (not first or st.get("started")):
            B = X if first else P
            o, u = nm_units(B, xl, xu, n)
            if u < 1e-11 * (1 + np.abs(B).max()):
                raise Out()
            q = lambda x: np.round(np.clip((np.asarray(x) - o) / u, -5000, 5000)).astype(int).tolist()
            if not first and len(X) == 1 and st["R"] is None:
                st["R"] = X[0].copy()
            d = (scale or 0.05) * (xu - xl) if xl is not None else np.where((scale or 0.05) * X[0] == 0, 0.00025, (scale or 0.05) * X[0])
            ev.update(X=q(X), P=q(B), R=q(st["R"]) if st["R"] is not None else [0] * n, D=np.round(np.clip(d / u, -5000, 5000)).astype(int).tolist(),
                      lo=q(xl) if xl is not None else [-5000] * n, hi=q(xu) if xu is not None else [5000] * n)
        st["started"] = True
        if done:
            ev["pop"] = vals_of(a.pop, prob.n_ieq_constr > 0)
            st["P"], st["R"] = (np.array([i.X.copy() for i in a.pop]) if len(a.pop) == n + 1 and evs else None), None
        evs.append(ev)

    # fewer digits than the numbers have: not judged beyond
    def go():
        algo.setup(prob, termination=("n_gen", 10 ** 6), seed=seed)
        try:
            drive(algo, prob, steps, rec)
        except Out:
            pass
    _, err = guarded(go, timeout=60)
    if err is not None:
        evs.append(dict(k="nm", raised=True, exc=err, old=[], vals=[], done=False, X=[], P=[], R=[], lo=[], hi=[], D=[], pop=[]))
    # numerically collapsed simplices are left out
    for i, e in enumerate(evs):
        if e["P"] and (np.ptp(np.array(e["P"]), axis=0) < 2).any() and i > 1:
            evs = evs[:i]
            break
    rank_vals(evs, ["vals", "pop"])
    n_ = n
    be, ga, de = ([n_ + 2, n_], [3 * n_ - 2, 4 * n_], [n_ - 1, n_]) if params == "adaptive" else ([2, 1], [1, 2], [1, 20])
    return dict(key=key, cfg=dict(m="nm", n=n, be=be, ga=ga, de=de), ev=evs, meta=meta)


def smooth(rng, n, kind, con, lo, hi):
    c = lo + rng.random(n) * (hi - lo)
    if kind == "edge":
        c = np.where(rng.random(n) < .6, lo - .3 * (hi - lo), c)
    s = rng.integers(1, 5, n)
    w = rng.normal(size=n)
    r = hi - lo
    t = float(np.sum(w * (c - lo) / r)) + rng.normal() * .2

    def f(x):
        z = (np.asarray(x) - c) / r
        if kind == "steps":
            v = float(np.sum(np.floor(np.abs(z) * 8) * s))
        elif kind == "waves":
            v = float(np.sum(s * z ** 2) + .3 * np.sum(np.cos(9 * z)))
        elif kind == "noise":
            v = float(np.floor(50 * abs(np.sin(1e4 * np.sum(z)))))
        else:
            v = float(np.sum(s * z ** 2))
        g = float(np.sum(w * (np.asarray(x) - lo) / r) - t) if con else -1.0
        return v, g
    return f


def nm_paths(task):
    L, seed = task
    rng = np.random.default_rng(seed)
    out = []
    for p in L:
        n = p["n"]
        lo, hi = [(-4.0, 4.0), (0.0, 1.0), (-1e3, 1e6)][int(rng.integers(3))]
        x0 = lo + (.4 + .2 * rng.random(n)) * (hi - lo) if rng.random() < .7 else np.where(rng.random(n) < .5, hi, lo + rng.random(n) * (hi - lo))
        prob = Fun(n, lo, hi, answers=p["v"], rng=rng)
        params = "adaptive" if n > 1 and rng.random() < .5 else "default"
        out.append(nm_trace(n, prob, np.asarray(x0, float), params, [None, .1, .3][int(rng.integers(3))], int(rng.integers(1 << 30)), 40, "nm/path-%s" % params, meta=p))
    return out


def nm_runs(task):
    seed, k = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(k):
        n = int(rng.integers(1, 6))
        lo = np.round(rng.normal(size=n) * 3, 2)
        hi = lo + np.round(10.0 ** rng.uniform(-1, 2, n), 2) + .1
        kind = ["bowl", "edge", "steps", "waves", "noise"][int(rng.integers(5))]
        con = rng.random() < .4
        params = "adaptive" if n > 1 and rng.random() < .6 else "default"
        unb = rng.random() < .15
        f = smooth(rng, n, kind, con, lo, hi)
        prob = Fun(n, None if unb else lo, None if unb else hi, fun=f, con=con)
        x0 = lo + rng.random(n) * (hi - lo) if unb or rng.random() < .5 else None
        if x0 is not None and not unb and rng.random() < .3:
            x0 = np.where(rng.random(n) < .5, hi, x0)
        out.append(nm_trace(n, prob, x0, params, [None, None, .2][int(rng.integers(3))], int(rng.integers(1 << 30)), 60, "nm/%s-%s" % (params, "free" if unb else "box")))
    return out


# ------------------------------------------------------------------------------------ pattern search
UNIT = 1.0 / 16384


def ps_trace(n, prob, lo, hi, x0, delta, q, p, seed, steps, key, meta=None):
    algo = PatternSearch(init_delta=delta, init_rho=1.0 / q, step_size=p[0] / p[1], **(dict(x0=np.array(x0, float)) if x0 is not None else dict(n_sample_points=4)))
    evs = []
    con = prob.n_ieq_constr > 0
    st = {"first": True}
    qz = lambda x: np.round(np.asarray(x, float) / UNIT).astype(int).tolist()

    def rec(a, pre, inf, done):
        if pre is None:
            return {"x": 0}
        seq, _ = inf
        if st["first"]:
            st["first"] = False
            b = a.x0
            evs.append(dict(k="ps", raised=False, x=qz(b.X), v=vals_of([b], con), done=bool(done), pop=vals_of([b, b], con)))
            return
        for i in seq:
            evs.append(dict(k="ps", raised=False, x=qz(i.X), v=vals_of([i], con), done=bool(done), pop=vals_of(a.pop, con) if done else []))
        if done and np.any((d := np.abs(a.pop[1].X - a.pop[0].X)) * (d < 8 * UNIT) > 0):
            raise Out()   # a direction of rounding errors
        if a.n_not_improved >= (9 if q == 2 else 5):
            raise Out()

    def go():
        algo.setup(prob, termination=("n_gen", 10 ** 6), seed=seed)
        try:
            drive(algo, prob, steps, rec)
        except Out:
            pass
    _, err = guarded(go, timeout=60)
    if err is not None:
        evs.append(dict(k="ps", raised=True, exc=err, x=[0] * n, v=[[0.0, 0.0]], done=False, pop=[]))
    rank_vals(evs, ["v", "pop"])
    for e in evs:
        e["v"] = e["v"][0]
    return dict(key=key, cfg=dict(m="ps", n=n, lo=qz(lo), hi=qz(hi), D=qz(delta * (np.asarray(hi) - np.asarray(lo))), q=q, p=p, tol=3), ev=evs, meta=meta)


def ps_paths(task):
    L, seed = task
    rng = np.random.default_rng(seed)
    out = []
    for h in L:
        n = h["n"]
        prob = Fun(n, 0.0, 64.0, answers=h["v"], rng=rng)
        x0 = [8.0 * (j + 1) for j in range(n)] if rng.random() < .4 else rng.integers(0, 65, n).astype(float)
        out.append(ps_trace(n, prob, [0.0] * n, [64.0] * n, x0, .25, 2, [1, 1], int(rng.integers(1 << 30)), 40, "ps/path", meta=h))
    return out


def ps_runs(task):
    seed, k = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(k):
        n = int(rng.integers(1, 5))
        lo = rng.integers(-8, 8, n).astype(float)
        hi = lo + 2.0 ** rng.integers(1, 6, n)
        con = rng.random() < .4
        f = smooth(rng, n, ["bowl", "edge", "steps", "waves"][int(rng.integers(4))], con, lo, hi)
        prob = Fun(n, lo, hi, fun=f, con=con)
        x0 = lo + np.round(rng.random(n) * (hi - lo)) if rng.random() < .7 else None
        q = int(rng.choice([2, 2, 4]))
        p = [[1, 1], [2, 1], [1, 2]][int(rng.integers(3))]
        out.append(ps_trace(n, prob, lo, hi, x0, float(rng.choice([.25, .25, .5, .125])), q, p, int(rng.integers(1 << 30)), 70 if q == 2 else 40, "ps/run"))
    return out


# ------------------------------------------------------------------------------------ divisions
def dv_trace(n, prob, k, seed, rounds, key, kw, meta=None):
    algo = DIRECT(**kw)
    xl, r = np.asarray(prob.xl, float), np.asarray(prob.xu, float) - np.asarray(prob.xl, float)
    S = 2 * 3 ** k
    ids, evs = {}, []
    keep = []

    def z(x):
        v = (np.asarray(x, float) - xl) / r * S
        assert np.abs(v - np.round(v)).max() < 1e-3, "not on the grid"
        return np.round(v).astype(int).tolist()

    def cell(i):
        keep.append(i)
        c = dict(id=ids.setdefault(id(i), len(ids) + 1), x=z(i.X), lo=z(i.get("xl")), hi=z(i.get("xu")), v=[0, 0])
        if "F" in i.evaluated:
            c["v"] = [int(round(float(i.CV[0]))) if prob.n_ieq_constr else 0, int(round(float(i.F[0])))]
        return c
    bad = {"v": None}

    def go():
        algo.setup(prob, termination=("n_gen", 10 ** 6), seed=seed)
        for g in range(rounds):
            first = g == 0
            before = [] if first else [cell(i) for i in algo.pop]
            if before and min(min(np.array(c["hi"]) - np.array(c["lo"])) for c in before) < 6:
                return
            inf = algo.ask()
            if not first:
                evs.append(dict(k="dv", raised=False, before=before, after=[cell(i) for i in algo.pop], offs=[cell(i) for i in inf]))
            try:
                algo.evaluator.eval(prob, inf, algorithm=algo)
            except Out:
                return
            algo.tell(infills=inf)
    _, err = guarded(go, timeout=120)
    if err is not None:
        evs.append(dict(k="dv", raised=True, exc=err, before=[], after=[], offs=[]))
    N = kw.get("n_max_archive", 400)
    return dict(key=key, cfg=dict(m="dv", max=N, keep=int(kw.get("archive_reduct", .66) * N), ncand=kw.get("n_max_candidates", 10)), ev=evs, meta=meta)


def dv_paths(task):
    L, seed = task
    rng = np.random.default_rng(seed)
    out = []
    for h in L:
        lo = float(rng.choice([0.0, -3.7, 10.0]))
        out.append(dv_trace(h["n"], Fun(h["n"], lo, lo + float(rng.choice([1.0, 7.3])), answers=[-v for v in h["v"]], rng=rng, con=False), 5, 1, 9, "dv/path", {}, meta=h))
    return out


def dv_runs(task):
    seed, k = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(k):
        n = int(rng.integers(1, 4))
        lo = np.round(rng.normal(size=n) * 3, 1)
        hi = lo + (np.round(10.0 ** rng.uniform(-1, 2, n), 1) + .1)
        con = rng.random() < .3
        g = smooth(rng, n, ["bowl", "steps", "waves", "noise"][int(rng.integers(4))], False, lo, hi)
        amp = int(rng.choice([3, 20, 100]))
        c, off = rng.normal(size=n), float(rng.choice([.3, 0, -.5]))
        f = lambda x: (float(np.round(g(x)[0] * amp)), 10.0 * min(3, max(0, int(np.ceil((float(np.sum(c * (x - lo) / (hi - lo))) / abs(c).sum() - off) * 6)))) if con else 0.0)
        kw = {} if rng.random() < .3 else dict(n_max_candidates=int(rng.integers(2, 7)), n_max_archive=int(rng.integers(12, 40)), archive_reduct=float(rng.choice([.5, .66, .75])))
        out.append(dv_trace(n, Fun(n, lo, hi, fun=f, con=con), 9, int(rng.integers(1 << 30)), 9 if not kw else 14, "dv/run", kw))
    return out


# ------------------------------------------------------------------------------------ bracketing
def brackets(task):
    L, seed = task
    rng = np.random.default_rng(seed)
    out = []
    for h in L:
        out.append(golden(rng, h["v"] if h else None, h))
        out.append(quad(rng, h["v"] if h else None, h))
    return out


def line_fun(rng, script, lo, hi):
    if script is not None:
        # the two ends are asked first
        ans = [-int(v) for v in rng.integers(0, 3, 2)] + [-v for v in script]
        return Fun(1, lo, hi, answers=ans, rng=rng, con=False)
    f = smooth(rng, 1, ["bowl", "steps", "waves", "noise", "edge"][int(rng.integers(5))], False, np.array([lo]), np.array([hi]))
    return Fun(1, lo, hi, fun=lambda x: (f(x)[0], 0.0), con=False)


def bracket_run(algo, prob, seed, steps, rec, setup):
    def go():
        algo.setup(prob, termination=("n_gen", 10 ** 6), seed=seed, **setup)
        for g in range(steps):
            before = None if algo.pop is None else list(algo.pop)
            try:
                algo.next()
            except Out:
                return
            if before is not None and g > 0:
                rec(before, list(algo.pop))
    return guarded(go, timeout=60)[1]


def where(rng):
    lo = float(np.round(rng.normal() * 4, 2))
    hi = lo + float(np.round(10.0 ** rng.uniform(-1, 2), 2)) + .1
    # ends of the interval: of the problem, given when the algorithm is set up, or when it is created
    how = ["problem", "setup", "create"][int(rng.integers(3))]
    a, b = (lo, hi) if how == "problem" else (lo + .1 * (hi - lo), hi - .2 * (hi - lo))
    ends = {} if how == "problem" else dict(a=Individual(X=np.array([a])), b=Individual(X=np.array([b])))
    return lo, hi, a, b, how, ends


def start_event(pop, a, b, kind):
    x = [float(i.X[0]) for i in pop]
    w = b - a
    q = [int(round((v - a) / w * 10 ** 6)) for v in x]
    R = (5 ** .5 - 1) / 2
    want = [0, int(round((1 - R) * 10 ** 6)), int(round(R * 10 ** 6)), 10 ** 6] if kind == "golden" else [0, 10 ** 6, 500000]
    return dict(k="begin", x=q, want=want)


def golden(rng, script, meta):
    lo, hi, a, b, how, ends = where(rng)
    prob = line_fun(rng, script, lo, hi)
    algo = GoldenSectionSearch(**(ends if how == "create" else {}))
    evs, ids, keep = [], {}, []
    no = lambda i: (keep.append(i), ids.setdefault(id(i), len(ids) + 1))[1]

    def rec(p, q):
        if not evs:
            evs.append(start_event(p, a, b, "golden"))
        x = [float(i.X[0]) for i in p]
        y = [float(i.X[0]) for i in q]
        s = lambda v: int(round((v - x[0]) / (x[3] - x[0]) * 10 ** 6))
        if x[3] - x[0] < 1e-9 * (abs(x[0]) + 1):
            return
        r = Ranks(np.array([float(i.F[0]) for i in p]))
        evs.append(dict(k="golden", raised=False, x=[s(v) for v in x], v=[int(r(float(i.F[0]))) for i in p], ids=[no(i) for i in p], nx=[s(v) for v in y], nids=[no(i) for i in q]))
    err = bracket_run(algo, prob, 1, 18, rec, ends if how == "setup" else {})
    if err:
        evs.append(dict(k="golden", raised=True, exc=err))
    return dict(key="golden/" + how, cfg=dict(m="golden"), ev=evs, meta=meta)


def quad(rng, script, meta):
    lo, hi, a, b, how, ends = where(rng)
    prob = line_fun(rng, script, lo, hi)
    algo = QuadraticInterpolationSearch(**(ends if how == "create" else {}))
    evs, ids, keep = [], {}, []
    no = lambda i: (keep.append(i), ids.setdefault(id(i), len(ids) + 1))[1]
    stop = {"v": False}

    def rec(p, q):
        if stop["v"]:
            return
        if not evs:
            evs.append(start_event(p, a, b, "quad"))
        x = [float(i.X[0]) for i in p]
        w = x[1] - x[0]
        if w < 1e-4 * (abs(x[0]) + abs(hi - lo)):
            stop["v"] = True
            return
        s = lambda v: int(round(np.clip((v - x[0]) / w, -500, 500) * 10 ** 6))
        old = [no(i) for i in p]
        new = [i for i in q if id(i) not in ids]
        # a point which was dropped at once is not in the population any more, but in infills
        d = algo.infills if isinstance(algo.infills, Individual) else algo.infills[0]
        F = [float(i.F[0]) for i in p]
        fd = float(d.F[0])
        r = Ranks(np.array(F + [fd]))
        vertex, known = 0, False
        shaped = F[2] < F[0] and F[2] < F[1]
        if shaped and min(x[2] - x[0], x[1] - x[2]) > 1e-2 * w:
            # vertex of the parabola through the three points, relative to the bracket
            t = (x[2] - x[0]) / w
            c2 = ((F[1] - F[0]) * t - (F[2] - F[0])) / (t - t * t)
            c1 = (F[1] - F[0]) - c2
            vertex = -c1 / (2 * c2)
            known = True
        # which of two points closer than the digits recorded is the left one stays open
        tie = bool(abs(x[2] - float(d.X[0])) < 2e-6 * w)
        evs.append(dict(k="quad", raised=False, ids=old, x=[s(v) for v in x], v=[int(r(v)) for v in F], d=no(d), dx=s(float(d.X[0])), fd=int(r(fd)), nids=[no(i) for i in q],
                        known=known, vertex=int(round(vertex * 10 ** 6)), tie=tie, shaped=shaped))
    err = bracket_run(algo, prob, 1, 14, rec, ends if how == "setup" else {})
    if err and not stop["v"]:
        evs.append(dict(k="quad", raised=True, exc=err))
    return dict(key="quad/" + how, cfg=dict(m="quad"), ev=evs, meta=meta)


def expo(rng):
    hi = float(rng.choice([1.0, 10.0, 37.5]))
    c = float(rng.random() * hi * 1.3)
    steps = rng.random() < .3
    delta = float(rng.choice([.05, .1, 1.0 / 64]))
    prob = Fun(1, 0.0, hi, fun=lambda x: (float(np.floor(abs(x[0] - c) * 3)) if steps else float(abs(x[0] - c)), 0.0), con=False)
    evs = []
    U = hi / 10 ** 6
    f0 = [None]

    def go():
        algo = ExponentialSearch(delta=delta)
        algo.setup(prob, termination=("n_gen", 40), seed=1)
        first = True
        while algo.has_next():
            inf = algo.ask()
            algo.evaluator.eval(prob, inf, algorithm=algo)
            algo.tell(infills=inf)
            if first:
                first = False
                f0[0] = float(inf[0].F[0])
                continue
            evs.append(dict(k="expo", x=int(round(float(inf[0].X[0]) / U)), f=float(inf[0].F[0]), over=not algo.has_next()))
    _, err = guarded(go, timeout=30)
    r = Ranks(np.array([e["f"] for e in evs] + [f0[0] if f0[0] is not None else 0.0]))
    for e in evs:
        e["f"] = int(r(e["f"]))
    if err:
        evs.append(dict(k="holds", ok=False, what="raised", exc=err))
    if not evs:
        evs.append(dict(k="holds", ok=False, what="no step"))
    return dict(key="expo", cfg=dict(m="expo", alpha=int(round(delta / U)), f=int(r(f0[0])) if f0[0] is not None else 0, hi=10 ** 6, tol=60), ev=evs)


class Grad(Problem):
    def __init__(self, n, A, c, quart):
        super().__init__(n_var=n, n_obj=1, xl=-20.0, xu=20.0)
        self.A, self.c, self.quart = A, c, quart

    def f(self, x):
        z = x - self.c
        return float(z @ self.A @ z + self.quart * np.sum(z ** 4) + .5 * np.sum(np.cos(2 * z)))

    def df(self, x):
        z = x - self.c
        return 2 * self.A @ z + 4 * self.quart * z ** 3 - np.sin(2 * z)

    def _evaluate(self, X, out, *args, **kwargs):
        out["F"] = np.array([[self.f(x)] for x in X])
        out["dF"] = np.array([[self.df(x)] for x in X])


def wolfe_case(rng):
    n = int(rng.integers(1, 4))
    B = rng.normal(size=(n, n))
    prob = Grad(n, B @ B.T + .1 * np.eye(n), rng.normal(size=n), float(rng.choice([0, .01, .1])))
    x = rng.normal(size=n) * 4
    d = -prob.df(x) * float(10.0 ** rng.uniform(-3, .5))
    evs = []
    if np.linalg.norm(d) < 1e-6:
        d = -np.ones(n) * 1e-3
    c1, c2 = [(1e-4, .9), (.1, .5), (.01, .1)][int(rng.integers(3))]
    sol = Individual(X=x)
    ev = Evaluator()

    def go():
        ev.eval(prob, sol, evaluate_values_of=["F", "CV", "dF"])
        return wolfe.wolfe_line_search(prob, sol, d, c1=c1, c2=c2, max_iter=30, evaluator=ev)
    r, err = guarded(go, timeout=20)
    if err:
        evs.append(dict(k="holds", ok=False, what="raised", exc=err))
    else:
        al = float(r.get("alpha"))
        f0, g0 = prob.f(x), float(prob.df(x) @ d)
        tol = 1e-9 * (abs(f0) + 1)
        evs.append(dict(k="holds", ok=bool(np.allclose(r.X, x + al * d)), what="on the line"))
        evs.append(dict(k="holds", ok=bool(abs(prob.f(r.X) - float(r.F[0])) <= tol), what="its own value"))
        evs.append(dict(k="holds", ok=bool(prob.f(r.X) <= f0 + c1 * al * g0 + tol), what="sufficient decrease"))
        evs.append(dict(k="holds", ok=bool(g0 >= 0 or al > 0 and abs(float(prob.df(r.X) @ d)) <= -c2 * g0 + tol), what="curvature condition"))
    return dict(key="wolfe", cfg=dict(m="wolfe"), ev=evs)


def wolfe_class():
    prob = Grad(2, np.eye(2), np.zeros(2), 0.0)
    sol = Individual(X=np.array([3.0, 4.0]))

    def go():
        Evaluator().eval(prob, sol, evaluate_values_of=["F", "CV", "dF"])
        r = wolfe.WolfeSearch().setup(LineSearchProblem(prob, sol, -prob.df(sol.X)), seed=1, termination=("n_gen", 3)).run()
        return float(np.ravel(r.F)[0])
    r, err = guarded(go, timeout=20)
    return dict(key="wolfe-class", cfg=dict(m="wolfe"), ev=[dict(k="holds", ok=err is None, what="raised", exc=err or "")])


def line_problem(rng):
    """a line through a box: the points are those of the problem, cut at its bounds"""
    n = int(rng.integers(2, 4))
    lo, hi = -3.0, 5.0
    f = lambda x: (float(np.sum(np.arange(1, n + 1) * np.asarray(x))), 0.0)
    prob = Fun(n, lo, hi, fun=f, con=False)
    p = Individual(X=rng.integers(-3, 6, n).astype(float))
    d = rng.integers(-3, 4, n).astype(float)
    strict = bool(rng.random() < .7)
    evs = []

    def go():
        line = LineSearchProblem(prob, p, d, strict_bounds=strict)
        al = rng.integers(0, 6, 4).astype(float)[:, None]
        return al, line.evaluate(al, return_as_dictionary=True), line
    r, err = guarded(go, timeout=10)
    if err:
        evs.append(dict(k="holds", ok=False, what="raised", exc=err))
    else:
        al, out, line = r
        evs.append(dict(k="line", p=p.X, d=d, lo=int(lo), hi=int(hi), a=al[:, 0], strict=strict, v=np.round(out["F"][:, 0]).astype(int), n=line.n_var, inner=prob.n_var))
    return dict(key="line", cfg=dict(m="line"), ev=evs)


def univariate(task):
    seed, k = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(k):
        out += [golden(rng, None, None), quad(rng, None, None), expo(rng), wolfe_case(rng), line_problem(rng)]
    return out


def one(t):
    return {"nm": nm_paths, "ps": ps_paths, "dv": dv_paths, "br": brackets, "nr": nm_runs, "pr": ps_runs, "dr": dv_runs, "u": univariate}[t[0]](t[1])


def crash(t, why):
    return [dict(key="task/" + t[0], cfg=dict(m=t[0]), ev=[dict(k="holds", ok=False, what=why)])]


def main():
    c = Check("C23")
    rng = np.random.default_rng(SEED)
    S = lambda: int(rng.integers(1 << 30))
    cfg = 'SPECIFICATION Spec\nCONSTANTS Mode="%s" N=%d K=%d L=%d\nVIEW View\nACTION_CONSTRAINT Out\nINVARIANT NMSorted NMFull PSInside Tiling BRInside EmitInv\nPROPERTY NMBest NMWorst PSCentre PSHalve\nCHECK_DEADLOCK FALSE\n'
    plan = [("nm", 1, 0, 2, 700), ("nm", 2, 0, 2, 1500), ("ps", 1, 9, 0, 250), ("ps", 2, 9, 0, 350), ("dv", 1, 1, 1, 150), ("dv", 2, 0, 1, 150), ("br", 1, 9, 1, 128)]
    if THOROUGH:
        plan = [("nm", 1, 0, 3, 4000), ("nm", 2, 0, 2, 6000), ("nm", 3, 0, 1, 6000), ("ps", 1, 10, 0, 2500), ("ps", 2, 10, 0, 3000), ("dv", 1, 1, 2, 1000), ("dv", 1, 2, 1, 1000), ("dv", 2, 1, 1, 1500), ("br", 1, 12, 1, 1000)]
    tasks = []
    for m, n, k, l, lim in plan:
        P = c.paths("MC_Direct", cfg % (m, n, k, l))
        c.notes["histories_%s_%d" % (m, n)] = len(P)
        P = [P[i] for i in rng.permutation(len(P))[:lim]]
        tasks += [(m, (P[i::8], S())) for i in range(8) if P[i::8]]
    k = 12 if THOROUGH else 1
    for t, n in (("nr", 14), ("pr", 14), ("dr", 8), ("u", 25)):
        tasks += [(t, (S(), n)) for _ in range(8 * k)]
    tr = [wolfe_class()]
    for part in pmap(one, tasks, on_crash=crash):
        tr += [x for x in part if x["ev"]]
    c.validate("DirTrace", tr)
    c.finish(rule="decisions of the simplex method, pattern search, interval divisions and bracketing enumerated by TLC as sequences of answers and replayed; seeded runs on bounded, edge-optimal, stepped, noisy and constrained functions; every move judged", exhaustive=False)


if __name__ == "__main__":
    main()
