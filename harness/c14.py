"""C14: constraint violation, feasibility, constraint wrappers. CV.tla (modules MC_CV, CVTrace)."""
import pickle
from fractions import Fraction
from runs import *
from runs import _imp
from pymoo.core.individual import calc_cv, constr_to_cv
from pymoo.core import population as popmod
from pymoo.core.evaluator import Evaluator
from pymoo.constraints.as_obj import ConstraintsAsObjective
from pymoo.constraints.as_penalty import ConstraintsAsPenalty
from pymoo.constraints.from_bounds import ConstraintsFromBounds
from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling

M = 576
FUNCS = {"sum": np.sum, "max": np.max, "mean": np.mean}


def real_cfg(c, u=1.0, cache=True, plain=False):
    rule = lambda r: dict(scale=None if r["scale"] == 0 else float(r["scale"]), eps=r["eps"] * u, pow=None if r["pow"] == 0 else r["pow"], func=FUNCS[r["func"]])
    return dict(cache=cache, cv_eps=c["cveps"] * u / M, cv_ieq=rule(c["ieq"]), cv_eq=rule(c["eq"]))


def num(v, u=1.0):
    """observed value times M as an integer (-1: it is none)"""
    t = float(v) / u * M
    return int(round(t)) if np.isfinite(t) and abs(t - round(t)) <= 1e-6 * max(1.0, abs(t)) and abs(t) < 2**30 else -1


def rand_cfg(rng, powers=True):
    r = lambda: {"eps": int(rng.choice([0, 0, 1, 2])), "scale": int(rng.choice([0, 1, 2, 4])), "pow": int(rng.choice([0, 1, 2])) if powers else 0, "func": str(rng.choice(["sum", "max", "mean"]))}
    return {"ieq": r(), "eq": r(), "cveps": int(rng.choice([0, 0, M, 2 * M + 1, 144000]))}


DEFAULT = {"ieq": {"eps": 0, "scale": 0, "pow": 0, "func": "sum"}, "eq": {"eps": 1, "scale": 0, "pow": 0, "func": "sum"}, "cveps": 0}


def readers(rng, g, h, cfg, u):
    """The same row, read in every way there is: (name, value, feasible or None)."""
    G, H = np.array(g, float) * u, np.array(h, float) * u
    rc = real_cfg(cfg, u)
    yield "function", float(calc_cv(G=G, H=H, config=rc)), None
    yield "parts", float(constr_to_cv(G, **rc["cv_ieq"])) + float(constr_to_cv(np.abs(H), **rc["cv_eq"])), None
    # in a batch with other rows, at a random place
    n = int(rng.integers(1, 5))
    k = int(rng.integers(0, n))
    GB, HB = (np.array([rng.integers(-3, 9, len(v)) * u if i != k else np.array(v, float) * u for i in range(n)]).reshape(n, len(v)) for v in (g, h))
    b = calc_cv(G=GB, H=HB, config=rc)
    yield "batch", float(b[k]) if np.shape(b) == (n,) else np.nan, None
    pop = Population.new(G=GB, H=HB, X=np.zeros((n, 1)))
    yield "population", float(popmod.calc_cv(pop, rc)[k]), None
    pop.apply(lambda i: i.set("config", rc))
    yield "get", float(pop.get("CV")[k, 0]), bool(pop.get("FEAS")[k, 0])
    yield "again", float(pop.get("cv")[k]), bool(pop.get("feas")[k])
    ind = Individual(config=real_cfg(cfg, u, cache=bool(rng.integers(0, 2))), G=G, H=H)
    if rng.random() < 0.5:
        ind.FEAS
    yield "individual", float(ind.cv), bool(ind.feas)
    ind = Individual(config=rc)
    if rng.random() < 0.5:
        ind.CV            # nothing known yet
    ind.H = H
    ind.set_by_dict(G=G)
    yield "individual-later", float(ind.CV[0]), bool(ind.FEAS[0])
    if not h:
        yield "without-h", float(calc_cv(G=G, config=rc)), None
    if not g:
        yield "without-g", float(calc_cv(H=H, config=rc)), None


def on_grid(cfg, u):
    """a tolerance that rounding of the aggregate cannot reach, unless the aggregate is exact"""
    if cfg["cveps"] and ("mean" in (cfg["ieq"]["func"], cfg["eq"]["func"]) or u in (1e-4, 1e-9, 1e6)):
        return dict(cfg, cveps=cfg["cveps"] + 1)
    return cfg


def cases(task):
    seed, rows = task
    rng = np.random.default_rng(seed)
    ev = []
    for g, h, cfg, u in rows:
        cfg = on_grid(cfg, u)
        def go():
            for via, v, feas in readers(rng, g, h, cfg, u):
                ev.append({"k": "cv", "g": g, "h": h, "cfg": cfg, "v": num(v, u), "zero": v == 0.0, "via": via})
                if feas is not None:
                    ev.append({"k": "feas", "g": g, "h": h, "cfg": cfg, "feas": feas, "via": via})
            # order of the constraints
            a, b = rng.permutation(len(g)), rng.permutation(len(h))
            v = float(calc_cv(G=np.array(g, float)[a] * u if g else None, H=np.array(h, float)[b] * u if h else None, config=real_cfg(cfg, u)))
            ev.append({"k": "cv", "g": g, "h": h, "cfg": cfg, "v": num(v, u), "zero": v == 0.0, "via": "shuffled"})
            # default configuration: equalities are met within 1e-4
            w = 1e-4
            for via, v, f in (("default", (i := Individual(G=np.array(g, float) * w, H=np.array(h, float) * w)).cv, i.feas), ("default-function", calc_cv(np.array(g, float) * w, np.array(h, float) * w), None)):
                ev.append({"k": "cv", "g": g, "h": h, "cfg": DEFAULT, "v": num(v, w), "zero": v == 0.0, "via": via})
                if f is not None:
                    ev.append({"k": "feas", "g": g, "h": h, "cfg": DEFAULT, "feas": bool(f), "via": via})
        _, err = guarded(go)
        if err:
            ev.append({"k": "raised", "exc": err, "g": g, "h": h})
    return {"key": "cases", "ev": ev}


CFGS = [{"ieq": {"eps": 0, "scale": 0, "pow": 0, "func": "sum"}, "eq": {"eps": 0, "scale": 0, "pow": 0, "func": "sum"}, "cveps": 0},
        {"ieq": {"eps": 1, "scale": 2, "pow": 0, "func": "max"}, "eq": {"eps": 0, "scale": 0, "pow": 2, "func": "mean"}, "cveps": M}]


def histories(task):
    seed, hs, style = task
    rng = np.random.default_rng(seed)
    out = []
    for hist in hs:
        ev = []

        def go():
            ind = Individual(config=real_cfg(CFGS[0], cache=bool(rng.integers(0, 2))))
            pop = Population.create(Individual(), ind)
            cache = ind.config["cache"]
            for op, val in hist:
                if op in ("G", "H"):
                    v = np.array(val, float)
                    if style == 0:
                        setattr(ind, op, v)
                    elif style == 1:
                        ind.set(op, v)
                    elif style == 2:
                        pop[1:].set(op, [v])
                    else:
                        pop.set(**{op: np.array([v, v])})
                    ev.append({"k": op, "val": val})
                elif op == "config":
                    c = real_cfg(CFGS[val[0] - 1], cache=cache)
                    if style == 0:
                        ind.config = c
                    elif style == 1:
                        ind.set("config", c)
                    else:
                        pop.apply(lambda i: i.set("config", c))
                    ev.append({"k": "config", "val": val[0]})
                elif op == "reset":
                    ind.reset(data=bool(rng.integers(0, 2)))
                    ev.append({"k": "reset"})
                elif op == "copy":
                    ind = [lambda: ind.copy(), lambda: copy.deepcopy(ind), lambda: pickle.loads(pickle.dumps(ind)), lambda: ind.copy(deep=False)][int(rng.integers(0, 4))]()
                    pop[1] = ind
                    ev.append({"k": "copy"})
                else:
                    v, f = (ind.cv, ind.feas) if style < 2 else (pop.get("CV")[1, 0], pop.get("FEAS")[1, 0])
                    ev.append({"k": "read", "v": num(v), "zero": float(v) == 0.0, "feas": bool(f)})
        _, err = guarded(go)
        if err:
            ev.append({"k": "raised", "exc": err})
        out.append({"key": "history/%d" % style, "cfg": {"cfgs": CFGS}, "ev": ev})
    return out


class Int(Problem):
    """Integer-valued objectives and constraints of the first variables."""

    def __init__(self, no, ng, nh, nv=2, elementwise=False, u=1.0):
        super().__init__(n_var=nv, n_obj=no, n_ieq_constr=ng, n_eq_constr=nh, xl=-2.0, xu=3.0, elementwise=elementwise)
        self.calls, self.u = 0, u

    def row(self, x):
        t = int(sum(x))
        return [int(x[0]) * (j + 1) - t for j in range(self.n_obj)], [t - j for j in range(self.n_ieq_constr)], [int(x[0]) - j for j in range(self.n_eq_constr)]

    def _evaluate(self, X, out, *a, **k):
        self.calls += 1 if self.elementwise else len(X)
        R = [self.row(x) for x in ([X] if self.elementwise else X)]
        for i, key, n in ((0, "F", self.n_obj), (1, "G", self.n_ieq_constr), (2, "H", self.n_eq_constr)):
            if n:
                v = np.array([r[i] for r in R], float) * self.u
                out[key] = v[0] if self.elementwise else v


def wrappers(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        no, ng, nh = (int(v) for v in (rng.integers(1, 4), rng.integers(0, 3), rng.integers(0, 3)))
        nv = int(rng.integers(1, 4))
        how = str(rng.choice(["objective", "only", "penalty", "bounds", "bounds-removed"]))
        pen = int(rng.choice([0, 1, 3, 100]))
        # with the default configuration equalities are met within 1e-4, which is the unit then
        dflt = how == "penalty" or rng.random() < 0.5
        cfg, u = (DEFAULT, 1e-4) if dflt else (dict(rand_cfg(rng), cveps=0), 1.0)
        if how.startswith("bounds"):
            u = 1.0
        inner = Int(no, ng, nh, nv, elementwise=bool(rng.integers(0, 2)), u=u)
        rows = [[int(v) for v in rng.integers(-4, 5, nv)] for _ in range(int(rng.integers(1, 6)))]
        X = np.array(rows, float)
        keep = X.copy()

        def go():
            rc = None if dflt else real_cfg(cfg)
            P = {"objective": lambda: ConstraintsAsObjective(inner, config=rc), "only": lambda: ConstraintsAsObjective(inner, config=rc, append=False), "penalty": lambda: ConstraintsAsPenalty(inner, penalty=float(pen)),
                 "bounds": lambda: ConstraintsFromBounds(inner), "bounds-removed": lambda: ConstraintsFromBounds(inner, remove_bonds=True)}[how]()
            bounds = how.startswith("bounds")
            want = dict(wnobj=no + 1 if how == "objective" else 1 if how == "only" else no, wnieq=ng + 2 * nv if bounds else 0, wneq=nh if bounds else 0)
            # through an evaluator, as an algorithm does
            pop, e = Population.new("X", X), Evaluator()
            e.eval(P, pop)
            k = e.n_eval
            e.eval(P, pop)
            F, G, H = pop.get("F", "G", "H")
            two = lambda A: [int(v) for v in np.shape(A)] if np.ndim(A) == 2 else [len(rows), 0] if np.size(A) == 0 else [0 - 1, np.ndim(A)]
            ev.append(dict({"k": "decl", "how": how, "nobj": P.n_obj, "nieq": P.n_ieq_constr, "neq": P.n_eq_constr, "n": len(rows), "shapeF": two(F), "shapeG": two(G), "shapeH": two(H),
                            "inputsame": bool(np.array_equal(X, keep)), "again": e.n_eval - k}, **want))
            # directly, whole batch, single row and dictionary
            out = P.evaluate(X.copy())
            D = P.evaluate(X.copy(), return_as_dictionary=True)
            only = np.asarray(P.evaluate(X.copy(), return_values_of=["F"]))
            single = P.evaluate(X[0].copy(), return_as_dictionary=True)
            F1 = np.asarray(out[0] if isinstance(out, tuple) else out)
            for i, x in enumerate(rows):
                f, g, h = inner.row(x)
                for src in (F, F1, D["F"], only, [single["F"]] if i == 0 else F):
                    o = [num(v, u) for v in np.ravel(src[i])]
                    b = {"k": "wrap", "how": how.split("-")[0], "f": f, "g": g, "h": h, "cfg": cfg, "pen": pen, "out": o if not bounds else [int(v) for v in np.ravel(src[i])]}
                    if bounds:
                        b.update(x=x, xl=[-2] * nv, xu=[3] * nv, gout=[int(v) for v in np.ravel(G[i])])
                    ev.append(b)
        _, err = guarded(go)
        if err:
            ev.append({"k": "raised", "exc": err, "how": how})
    return {"key": "wrap", "ev": ev}


def adapt(task):
    name, ieq, eq, until, seed, kind = task
    spec = pspec(n_obj=1, n_var=3, n_ieq=ieq, n_eq=eq, feas="hard", K=60, pseed=seed % 17)
    ev = []

    def go():
        algo = AdaptiveEpsilonConstraintHandling(make_algo(name, 1, "real", spec)[0], perc_eps_until=until[0] / until[1])
        prob = RecProblem(spec)
        algo.setup(prob, termination=gen_termination(14) if kind == "gen" else ("n_eval", 150), seed=seed, verbose=False)
        first = None
        inner = algo
        used = []
        while algo.has_next() and len(used) < 60:
            pop = algo.ask()
            algo.evaluator.eval(prob, pop, algorithm=algo)
            if first is None:
                first = float(np.mean(pop.get("cv")))
            algo.tell(infills=pop)
            # outside of a generation the default tolerance applies
            for ind in members(algo.pop):
                ev.append({"k": "within", "cv": int(round(float(ind.CV[0]) * 1e4)), "eps": int(round(algo.config["cv_eps"] * 1e4)), "feas": bool(ind.feas)})
            t = float(algo.termination.perc)
            used.append(t)
            eps = algo.adapted_config["cv_eps"] / first if first else 0.0
            if first and len(used) > 1:
                # the tolerance was set with the progress at the end of its generation
                ev.append({"k": "adapt", "eps": int(round(eps * 1e6)), "perc": int(round(used[-2] * 1e6)), "num": until[1], "den": until[0], "until": int(np.ceil(1e6 * until[0] / until[1]))})
        res = algo.result()
        for ind in members(res.opt):
            ev.append({"k": "within", "cv": int(round(float(ind.CV[0]) * 1e4)), "eps": 0, "feas": bool(ind.feas)})
    _, err = guarded(go)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "adapt/" + name, "ev": ev, "meta": {"task": str(task)}}


def rowset(rng):
    """small vectors completely, then random longer ones with units and configurations"""
    V = [[]] + [[a] for a in range(-1, 4)] + [[a, b] for a in range(-1, 4) for b in range(-1, 4)]
    H = [[]] + [[a] for a in range(-2, 4)] + [[a, b] for a in range(-2, 4) for b in range(-1, 4)]
    allc = [(g, h) for g in V for h in H]
    rows = []
    for g, h in allc if THOROUGH else [allc[i] for i in rng.choice(len(allc), 420, replace=False)]:
        for _ in range(6 if THOROUGH else 1):
            rows.append((g, h, rand_cfg(rng), 1.0))
    for _ in range(6000 if THOROUGH else 700):
        u = float(rng.choice([1.0, 2.0 ** -20, 2.0 ** 20, 1e-4, 1e-9, 1e6]))
        rows.append(([int(v) for v in rng.integers(-4, 6, int(rng.choice([0, 1, 2, 3, 4])))], [int(v) for v in rng.integers(-4, 5, int(rng.choice([0, 1, 2, 3, 4])))], rand_cfg(rng, powers=u == 1.0), u))
    return rows


def main():
    c = Check("C14")
    rng = np.random.default_rng(SEED)
    cfg = 'SPECIFICATION Spec\nCONSTANTS Mode="%s" MaxHist=%d Top=%d EqRules="%s"\n%sCHECK_DEADLOCK FALSE\n'
    c.model_check("MC_CV", cfg % (("cases", 0, 3, "all", "INVARIANT Laws\n") if THOROUGH else ("cases", 0, 2, "few", "INVARIANT Laws\n")))
    H = [p["h"] for p in c.paths("MC_CV", cfg % ("hist", 5 if THOROUGH else 4, 2, "few", "ACTION_CONSTRAINT Out\n".replace("ACTION_CONSTRAINT", "ACTION_CONSTRAINT")))]
    c.notes["histories_from_tlc"] = len(H)
    tr = []
    for st in range(4):
        sel = [H[i] for i in rng.choice(len(H), min(len(H), 20000 if THOROUGH else 900), replace=False)]
        # longer ones
        for _ in range(2000 if THOROUGH else 120):
            sel.append([x for _ in range(int(rng.integers(3, 9))) for x in H[int(rng.integers(len(H)))][-2:]])
        sel = [[[o, v] for o, v in h] for h in sel]
        for part in pmap(histories, [(int(rng.integers(1 << 30)), sel[i:i + 300], st) for i in range(0, len(sel), 300)]):
            tr += part
    rows = rowset(rng)
    tr += pmap(cases, [(int(rng.integers(1 << 30)), rows[i:i + 100]) for i in range(0, len(rows), 100)])
    tr += pmap(wrappers, [(int(rng.integers(1 << 30)), 800 if THOROUGH else 60) for _ in range(8)])
    A = [(n, ieq, eq, u, int(rng.integers(1 << 20)), k) for n in ("GA", "DE/rand/1/bin", "PSO", "ES") if n in soo_algorithms() for ieq, eq in ((1, 0), (2, 1)) for u in ((1, 2), (4, 5)) for k in ("gen", "eval")]
    tr += pmap(adapt, A, on_crash=lambda t, w: {"key": "adapt", "ev": [{"k": "raised", "exc": w}]})
    c.validate("CVTrace", tr)
    c.finish(rule="all vectors of up to 2 inequalities and 2 equalities over small integers (sampled in quick) and random ones of up to 4 at several units, under random configurations, read in ten ways; individuals through all histories of writes, configuration, copies and reads; wrappers over random integer problems", exhaustive=False)


if __name__ == "__main__":
    main()
