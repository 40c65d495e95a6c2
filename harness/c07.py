"""C07: duplicate elimination and the infill loop. Mating.tla (modules MC_Mating, MateTrace)."""
import itertools
from memo import *
from runs import _imp
from pymoo.core.duplicate import DefaultDuplicateElimination, ElementwiseDuplicateElimination, HashDuplicateElimination, NoDuplicateElimination
from pymoo.core.infill import InfillCriterion
from pymoo.core.initialization import Initialization
from pymoo.core.mixed import MixedVariableDuplicateElimination, MixedVariableMating


class Equal(ElementwiseDuplicateElimination):
    def is_equal(self, a, b):
        return bool(np.all(np.asarray(a.X) == np.asarray(b.X)))


class NpEqual(ElementwiseDuplicateElimination):
    def is_equal(self, a, b):
        return np.all(np.asarray(a.X) == np.asarray(b.X))


def f_attr(pop):
    return pop.get("F")


REAL = {1: [0.5, 0.0], 2: [0.5, 1e-9], 3: [0.0, 0.5], 4: [1e9, 1.0]}
VALUES = {
    "real": REAL, "wide": {k: np.r_[np.array(v), np.zeros(1200) + 0.25] if k != 3 else np.r_[np.array(REAL[1]), np.zeros(1199) + 0.25, 7.0] for k, v in REAL.items()},
    "int": {1: [1, 2], 2: [2, 1], 3: [1, 3], 4: [-2, -1]}, "bool": {1: [True, False], 2: [False, True], 3: [True, True], 4: [False, False]},
    "perm": {1: [0, 1, 2], 2: [1, 0, 2], 3: [2, 1, 0], 4: [1, 2, 0]},
    "mixed": {1: {"a": 1, "b": "x"}, 2: {"a": 1, "b": "y"}, 3: {"a": 0, "b": "x"}, 4: {"a": True, "b": "z"}},
}
# for big populations: many keys, pairs of which differ by a rounding-sized amount only
MANY = {k: [0.1 * (k // 2), 1e-9 * (k % 2)] for k in range(1, 161)}
VALUES["many"] = MANY
VALUES["many-int"] = {k: [k // 13, k % 13] for k in range(1, 161)}
CRIT = {"default": (DefaultDuplicateElimination, ("real", "wide", "int", "bool", "perm")), "default-zero": (lambda: DefaultDuplicateElimination(epsilon=0.0), ("real", "int", "perm")),
        "elementwise": (Equal, ("real", "int", "bool", "perm")), "elementwise-np": (NpEqual, ("real", "int")),
        "mixed": (MixedVariableDuplicateElimination, ("mixed",)), "hash": (HashDuplicateElimination, ("real", "wide", "int", "bool", "perm", "mixed")),
        "hash-str": (lambda: HashDuplicateElimination(func=lambda ind: str(ind.X)), ("int", "mixed")), "by-F": (lambda: DefaultDuplicateElimination(func=f_attr), ("byF",))}


def make(keys, vt, tag=0):
    if vt == "byF":
        pop = Population.new("X", np.random.default_rng(len(keys)).random((len(keys), 2)))
        pop.set("F", np.array([[float(k), -float(k)] for k in keys]).reshape(len(keys), 2))
        return pop
    from pymoo.core.individual import Individual
    return Population.create(*[Individual(X=np.array(VALUES[vt][k]) if vt != "mixed" else dict(VALUES[vt][k])) for k in keys])


def elim(task):
    crit, vt, cases = task
    ev = []
    for v, args, to_itself, ret in cases:
        pop, others = make(v, vt), [make(a, vt) for a in args]
        before = [digest([x.X, x.F]) for x in pop]
        obj = list(pop)
        d = CRIT[crit][0]()

        def go():
            r = d.do(pop, *others, to_itself=to_itself, return_indices=ret)
            r, yes, no = r if ret else (r, [], [])
            at = {id(o): i for i, o in enumerate(obj)}
            kept = [at.get(id(x), -1) + 1 for x in r]
            return {"k": "elim", "v": v, "o": [y for a in args for y in a], "self": to_itself, "kept": kept, "ret": ret, "yes": [int(i) + 1 for i in yes], "no": [int(i) + 1 for i in no],
                    "same": [digest([x.X, x.F]) for x in obj] == before and len(pop) == len(obj) and all(a is b for a, b in zip(pop, obj))}
        r, err = guarded(go)
        ev.append(r if not err else {"k": "raised", "exc": err, "v": v, "o": args})
    return {"key": "elim/%s/%s" % (crit, vt), "ev": ev}


def near(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    from pymoo.util.misc import find_duplicates, get_duplicates
    for _ in range(n):
        k, eps = int(rng.integers(1, 9)), int(rng.integers(0, 3))
        X = rng.integers(0, 5, (k, 2)).astype(float)
        D = [[i + 1, j + 1] for i in range(k) for j in range(i + 1, k) if (X[i] - X[j]) @ (X[i] - X[j]) <= eps * eps]
        pop = Population.new("X", X)
        obj = list(pop)

        def go():
            r = DefaultDuplicateElimination(epsilon=float(eps)).do(pop)
            at = {id(o): i for i, o in enumerate(obj)}
            return [at.get(id(x), -1) + 1 for x in r]
        r, err = guarded(go)
        if eps == 0 or not chain(D):
            ev.append({"k": "near", "n": k, "near": D, "kept": r, "same": bool(np.all(pop.get("X") == X))} if not err else {"k": "raised", "exc": err})
        keys = [int(a) for a in X[:, 0] * 5 + X[:, 1] + 1]
        r, err = guarded(lambda: [int(i) + 1 for i in np.where(~find_duplicates(X))[0]])
        ev.append({"k": "elim", "v": keys, "o": [], "self": True, "kept": r, "ret": False, "yes": [], "no": [], "same": True} if not err else {"k": "raised", "exc": err})
        r, err = guarded(lambda: [[int(i) + 1 for i in g] for g in get_duplicates(X)])
        ev.append({"k": "groups", "v": keys, "groups": r} if not err else {"k": "raised", "exc": err})
    return {"key": "near", "ev": ev}


def chain(D):
    """with a tolerance closeness is not transitive; the rule is only definite without chains"""
    P = {tuple(d) for d in D}
    return any((a, d) not in P for a, b in P for c, d in P if b == c and a < d) or any(len({a, b} & {c, d}) == 1 and tuple(sorted({a, b} ^ {c, d})) not in P for a, b in P for c, d in P)


class Scripted(InfillCriterion):
    def __init__(self, batches, vt, **kw):
        super().__init__(**kw)
        self.batches, self.vt, self.ev = list(batches), vt, []

    def _do(self, problem, pop, n_offsprings, **kwargs):
        b = self.batches.pop(0) if self.batches else []
        self.ev.append({"k": "batch", "b": b, "want": int(n_offsprings)})
        return make(b, self.vt)


def key_of(ind, vt):
    x = ind.X
    for k, v in VALUES[vt].items():
        if (vt == "mixed" and x == v) or (vt != "mixed" and np.shape(x) == np.shape(v) and np.all(np.asarray(x) == np.asarray(v))):
            return k
    return -1


def scripted(task):
    crit, vt, paths = task
    out = []
    for p in paths:
        m = Scripted(p["batches"], vt, eliminate_duplicates=CRIT[crit][0](), n_max_iterations=p["max"])
        r, err = guarded(lambda: m.do(None, make(p["pop"], vt), p["n"]))
        ev = m.ev + [{"k": "result", "off": [key_of(x, vt) for x in r]} if not err else {"k": "raised", "exc": err}]
        out.append({"key": "infill/%s/%s" % (crit, vt), "cfg": {"pop": p["pop"], "n": p["n"], "max": p["max"]}, "ev": ev})
    return out


def xkey(ind):
    x = ind.X
    if isinstance(x, dict):
        return repr(sorted((k, v.item() if hasattr(v, "item") else v) for k, v in x.items()))
    x = np.asarray(x)
    return repr((x + 0.0 if x.dtype.kind == "f" else x).tolist())


def small_configs():
    """Few possible solutions: the mating runs out of new ones."""
    C = {}
    tiny = dict(pspec(n_obj=2, n_var=2, vtype="int", box="grid", pseed=2), xl=[0, 0], xu=[2, 2])
    ops = operators()
    for n in ("i-sbx", "i-ux-gauss"):
        vt, s, c, m = ops[n]
        C["tiny/NSGA2/" + n] = (lambda spec, s=s, c=c, m=m: _imp("moo.nsga2", "NSGA2")(pop_size=7, sampling=s(), crossover=c(), mutation=m()), tiny)
        C["tiny/NSGA2-more/" + n] = (lambda spec, s=s, c=c, m=m: _imp("moo.nsga2", "NSGA2")(pop_size=6, n_offsprings=5, sampling=s(), crossover=c(), mutation=m()), tiny)
    bits = dict(pspec(n_obj=1, n_var=3, vtype="bool", box="bin", pseed=2))
    for n in ("b-hux", "b-pntx2"):
        vt, s, c, m = ops[n]
        C["tiny/GA/" + n] = (lambda spec, s=s, c=c, m=m: _imp("soo.nonconvex.ga", "GA")(pop_size=6, sampling=s(), crossover=c(), mutation=m()), bits)
    vt, s, c, m = ops["p-ox"]
    C["tiny/GA/p-ox"] = (lambda spec, s=s, c=c, m=m: _imp("soo.nonconvex.ga", "GA")(pop_size=5, sampling=s(), crossover=c(), mutation=m()), zspec("perm", n_var=3))
    for crit in ("elementwise", "hash"):
        vt, s, c, m = ops["i-sbx"]
        C["crit/%s/GA" % crit] = (lambda spec, crit=crit, s=s, c=c, m=m: _imp("soo.nonconvex.ga", "GA")(pop_size=6, sampling=s(), crossover=c(), mutation=m(), eliminate_duplicates=CRIT[crit][0]()), dict(tiny, n_obj=1))
    C["crit/mixed-default"] = (lambda spec: MixedVariableGA(pop_size=8, mating=MixedVariableMating()), zspec("mixed"))
    return C


def run(task):
    name, seed = task
    factory, spec = (small_configs() | configurations())[name]
    ev, meta = [], {"spec": spec}

    def go():
        a = factory(spec)
        mat = getattr(a, "mating", None)
        if not isinstance(mat, InfillCriterion):
            return
        checked = not isinstance(mat.eliminate_duplicates, NoDuplicateElimination)
        tries = [0]
        inner = mat._do

        def counted(*args, **kw):
            tries[0] += 1
            return inner(*args, **kw)
        mat._do = counted
        init = getattr(a, "initialization", None)
        sampled = []
        if init is not None and callable(init.sampling):
            samp = init.sampling

            def sampling(*args, **kw):
                r = samp(*args, **kw)
                sampled[:] = [xkey(x) for x in r]
                return r
            init.sampling = sampling
            rep = init.repair

            def repairing(*args, **kw):
                r = rep(*args, **kw)
                sampled[:] = [xkey(x) for x in r]
                return r
            init.repair = repairing
        a.setup(ZooProblem(spec), termination=gen_termination(6), seed=seed, verbose=False)
        seen = {}

        def ids(k):
            return seen.setdefault(k, len(seen) + 1)
        first = True
        while a.has_next():
            before = [ids(xkey(x)) for x in members(a.pop)] if a.pop is not None else []
            tries[0] = 0
            n_eval = a.evaluator.n_eval
            inf = a.ask()
            if inf is None:
                # dynamic optimizers evaluate their candidates themselves
                a.tell()
                own = a.evaluator.n_eval - n_eval
                if tries[0]:
                    ev.append({"k": "ended", "candidates": own, "stopped": not a.has_next()})
                continue
            off = [ids(xkey(x)) for x in members(inf)]
            if first:
                if init is not None and sampled and not isinstance(init.eliminate_duplicates, NoDuplicateElimination):
                    ev.append({"k": "init", "off": off, "n": len(sampled), "sampled": [ids(x) for x in sampled]})
            elif checked and tries[0] > 0:
                ev.append({"k": "mated", "pop": before, "off": off, "n": int(a.n_offsprings) + int(getattr(a, "n_mutants", 0)), "tries": tries[0], "max": int(mat.n_max_iterations)})
            first = False
            a.evaluator.eval(a.problem, inf)
            a.tell(infills=inf)
    _, err = guarded(go, timeout=60)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "run/" + name, "ev": ev, "meta": meta}


def main():
    c = Check("C07")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION Spec\nCONSTANTS V={1,2,3} MaxPop=%d MaxN=%d MaxTries=%d\nINVARIANTS Inv Partial\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MC_Mating", cfg % ((2, 3, 4) if THOROUGH else (2, 3, 3)) + "PROPERTY Ends\nVIEW view\n")
    P = c.paths("MC_Mating", cfg % (1, 2, 2) + "ACTION_CONSTRAINT Out\n")
    c.notes["infill_histories_from_tlc"] = len(P)
    tr = []
    # every sequence of up to 4 keys against every short other population
    seqs = [list(q) for k in range(0, 5 if THOROUGH else 4) for q in itertools.product((1, 2, 3), repeat=k)]
    longer = [[int(x) for x in rng.integers(1, 5, int(rng.integers(4, 9)))] for _ in range(60)]
    oth = [[], [[1]], [[1, 2]], [[1], [3]], [[], [2, 2]], [[]]]
    cases = [(v, o, s, r) for v in seqs + longer for o in oth for s, r in ((True, False), (True, True), (False, True))]
    T = [(cr, vt, [cases[i] for i in sorted(rng.choice(len(cases), len(cases) if vt in ("real", "int") or THOROUGH else 250, replace=False))]) for cr, (_, vts) in CRIT.items() for vt in vts]
    tr += pmap(elim, T, on_crash=lambda t, w: {"key": "elim/" + t[0], "ev": [{"k": "raised", "exc": w}]})
    tr += pmap(near, [(int(rng.integers(1 << 30)), 300 if THOROUGH else 80) for _ in range(8)], on_crash=lambda t, w: {"key": "near", "ev": [{"k": "raised", "exc": w}]})
    # populations far beyond the sizes any shortcut could be written for
    big = []
    for _ in range(40 if THOROUGH else 12):
        k, o = int(rng.choice([30, 60, 110])), int(rng.choice([40, 60, 90]))
        big.append(([int(x) for x in rng.integers(1, 161, k)], [[int(x) for x in rng.integers(1, 161, o)]] + ([[1, 3]] if rng.random() < 0.5 else []), bool(rng.random() < 0.7), bool(rng.random() < 0.5)))
    tr += pmap(elim, [(cr, vt, big) for cr, vt in (("default", "many"), ("default", "many-int"), ("elementwise", "many"), ("hash", "many"), ("default-zero", "many-int"))], on_crash=lambda t, w: {"key": "elim/" + t[0], "ev": [{"k": "raised", "exc": w}]})
    n = len(P) if THOROUGH else 2500
    sel = [P[i] for i in rng.permutation(len(P))[:n]]
    for g in pmap(scripted, [(cr, vt, sel[k::6]) for k, (cr, vt) in enumerate([("default", "real"), ("default", "bool"), ("default", "perm"), ("default-zero", "int"), ("hash", "mixed"), ("hash", "real")])], on_crash=lambda t, w: [{"key": "infill/" + t[0], "cfg": {"pop": [], "n": 0, "max": 0}, "ev": [{"k": "raised", "exc": w}]}]):
        tr += g
    names = list(small_configs()) + list(configurations())
    R = pmap(run, [(nm, int(rng.integers(1 << 20))) for nm in names for _ in range(6 if THOROUGH else 2)], on_crash=lambda t, w: {"key": "run/" + t[0], "ev": [{"k": "raised", "exc": w}]})
    c.notes["generations_judged"] = sum(e["k"] == "mated" for t in R for e in t["ev"])
    c.notes["runs_out_of_candidates"] = sum(e["k"] == "ended" for t in R for e in t["ev"])
    c.notes["shortfalls"] = sum(e["k"] == "mated" and len(e["off"]) < e["n"] for t in R for e in t["ev"])
    tr += [t for t in R if t["ev"]]
    c.validate("MateTrace", tr)
    c.finish(rule="infill loop explored over all batch sequences and replayed; elimination of all key sequences up to 3 (thorough 4) plus longer ones, per criterion and variable type; every genetic optimizer run", exhaustive=False)


if __name__ == "__main__":
    main()
