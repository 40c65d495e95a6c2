"""Recording of runs as values (C09, C10): what a run looks like after every generation, as a number."""
import hashlib, io, pickle, random, contextlib
from zoo import *
from runs import _imp

VOLATILE = {"snaps", "cache", "log", "fn", "start_time", "time", "tape", "exec_time", "end_time"}


def num(b):
    return int.from_bytes(hashlib.sha1(b).digest()[:3], "big")


def norm(x):
    """Plain data that is the same for equal values."""
    if isinstance(x, dict):
        return ("d",) + tuple(sorted((str(k), norm(v)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o",) + tuple(norm(v) for v in x.tolist())
        return ("a", str(x.dtype.kind), x.shape, np.ascontiguousarray(x).tobytes() if x.dtype.kind not in "US" else str(x.tolist()))
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return norm(x.item())
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(norm(v) for v in x)
    return repr(x)


def digest(x):
    return num(repr(norm(x)).encode())


def pop_data(pop):
    return [] if pop is None else [[x.get(k) for k in ("X", "F", "G", "H", "CV", "n_gen", "rank")] for x in members(pop)]


def view(algo, rows):
    """Everything visible of a run between two generations, and the rows evaluated in the last one."""
    return digest([algo.evaluator.n_eval, pop_data(algo.pop), pop_data(algo.opt), rows])


def globals_digest():
    s = np.random.get_state()
    return num(repr((s[0], s[1].tobytes(), s[2:], random.getstate())).encode())


def perturb(k):
    np.random.seed(k)
    np.random.random(k % 7)
    random.seed(k)


def structure(o, seen=None, depth=0):
    """A description of an object and all that hangs on it (shared parts once)."""
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return repr(o)
    if isinstance(o, (np.ndarray, np.generic)) and getattr(o, "dtype", None) is not None and o.dtype != object and type(o) is np.ndarray or isinstance(o, np.generic):
        return norm(o)
    if id(o) in seen:
        return "#%d" % seen[id(o)][0]
    seen[id(o)] = (len(seen), o)
    if isinstance(o, dict):
        return ("d",) + tuple(sorted(((repr(k) if not isinstance(k, type) else k.__name__), structure(v, seen)) for k, v in o.items() if k not in VOLATILE))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(structure(v, seen) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("s",) + tuple(sorted(repr(v) for v in o))
    if isinstance(o, np.random.Generator):
        return repr(o.bit_generator.state)
    if isinstance(o, np.ndarray):
        return ("o", o.shape) + tuple(structure(v, seen) for v in o.ravel().tolist()) + (structure(getattr(o, "__dict__", None), seen),)
    if isinstance(o, type) or callable(o) and hasattr(o, "__qualname__"):
        return o.__qualname__
    d = getattr(o, "__dict__", None)
    return (type(o).__qualname__, structure(d, seen) if d is not None else "-")


def shape(o):
    return num(repr(structure(o)).encode())


def bare(algo):
    """The same without the evaluated rows, for entries of a history."""
    return digest([algo.evaluator.n_eval, pop_data(algo.pop), pop_data(algo.opt)])


class Gens(Callback):
    """Remembers the view of every generation; survives the copying of the algorithm."""

    def __init__(self, prob):
        super().__init__()
        self.prob, self.ds, self.bs = prob, [], []

    def __deepcopy__(self, memo):
        return self

    def update(self, algorithm):
        rows, self.prob.log[:] = list(self.prob.log), []
        self.ds.append(view(algorithm, rows))
        self.bs.append(bare(algorithm))


def whole(factory, spec, seed, budget, algo=None, term=None, verbose=False, history=False, prob=None, **kw):
    """A run in one call. Returns (event, error)."""
    from pymoo.optimize import minimize
    prob = prob if prob is not None else ZooProblem(spec)
    term = gen_termination(budget) if term is None else term
    cb = Gens(prob)
    prob.log[:] = []

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return minimize(prob, factory(spec) if algo is None else algo, term, seed=seed, callback=cb, verbose=verbose, save_history=history, **kw)
    r, err = guarded(go, timeout=90)
    if err:
        return {"k": "raised", "exc": err}, err
    res = digest([r.X, r.F, r.G, r.H, r.CV, pop_data(r.algorithm.archive), pop_data(r.pop), pop_data(r.opt), r.algorithm.evaluator.n_eval, r.algorithm.n_iter])
    if history:
        prob.snaps = [{"k": "snap", "cfg": 2, "seed": seed, "gen": i + 1, "d": d} for bs in (cb.bs, [bare(h) for h in r.history]) for i, d in enumerate(bs)]
    return {"k": "whole", "cfg": 1, "seed": seed, "budget": budget, "ds": cb.ds, "res": res, "g": globals_digest()}, None


def windows(n_obj):
    """A criterion that remembers the last generations (the code 77 stands for it as a budget)."""
    from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
    if n_obj > 1:
        return lambda budget: DefaultMultiObjectiveTermination(xtol=0.01, ftol=0.05, n_skip=1, period=3, n_max_gen=16, n_max_evals=400)
    return lambda budget: DefaultSingleObjectiveTermination(xtol=1e-3, ftol=0.5, period=4, n_max_gen=16, n_max_evals=400)


def duplicate(algo, how):
    if how == "copy":
        return copy.deepcopy(algo)
    if how == "pickle":
        try:
            return pickle.loads(pickle.dumps(algo))
        except (AttributeError, TypeError, pickle.PicklingError):    # locally defined functions: as documented, with dill
            import dill
            return dill.loads(dill.dumps(algo))
    import dill
    return dill.loads(dill.dumps(algo))


def replay(factory, spec, hist, budget, finish=True, extend=0, seeds=(11, 12, 13), ev=None, tellmode=False, cfg=1, term=gen_termination):
    """Carries out a history of the specification on the code; returns the events."""
    ev = [] if ev is None else ev
    rows, slots, off = {}, [], sum(1 for e in ev if e["k"] in ("start", "copy"))

    def add(**kw):
        kw["g"] = globals_digest()
        ev.append(kw)

    def remember(i):
        rows[i] = list(slots[i].problem.log)
        return rows[i]

    def step(i):
        a = slots[i]
        if a is None or not a.has_next():
            return
        a.problem.log[:] = []

        def go():
            n = a.n_iter if a.is_initialized else 1
            with contextlib.redirect_stdout(io.StringIO()):
                for _ in range(500):     # some optimizers create the solutions of a generation one by one
                    if tellmode:
                        inf = a.ask()
                        if inf is not None:
                            a.evaluator.eval(a.problem, inf)
                            a.tell(infills=inf)
                        else:
                            a.tell()
                    else:
                        a.next()
                    if a.n_iter != n or not a.has_next():
                        return
        _, err = guarded(go, timeout=60)
        if err:
            ev.append({"k": "raised", "exc": err})
            slots[i] = None
            return
        add(k="step", r=i + 1 + off, d=view(a, remember(i)))
    for h in hist:
        if h["a"] == "start":
            def go():
                a = factory(spec)
                a.setup(ZooProblem(spec), termination=term(budget), seed=seeds[h["s"] - 1], verbose=False)
                return a
            a, err = guarded(go, timeout=60)
            if err:
                ev.append({"k": "raised", "exc": err})
                return ev
            slots.append(a)
            add(k="start", r=len(slots) + off, cfg=cfg, seed=seeds[h["s"] - 1])
        elif h["a"] == "perturb":
            perturb(1000 + len(ev))
            add(k="perturb")
        elif h["a"] == "step":
            step(h["r"] - 1)
        else:
            a = slots[h["r"] - 1]
            if a is None:
                slots.append(None)
                continue
            b, err = guarded(lambda: duplicate(a, h["a"]), timeout=60)
            if err:
                ev.append({"k": "raised", "exc": err, "how": h["a"]})
                return ev
            slots.append(b)
            last = rows[len(slots) - 1] = rows.get(h["r"] - 1, [])
            add(k="copy", r=h["r"] + off, to=len(slots) + off, how=h["a"], old=view(a, last), new=view(b, last))
    if finish:
        # the slots take turns until every one has used its budget
        while any(a is not None and a.has_next() for a in slots):
            for i in range(len(slots)):
                step(i)
        for i, a in enumerate(slots):
            if a is not None:
                ev.append({"k": "end", "r": i + 1 + off, "budget": budget, "d": digest([pop_data(a.archive), pop_data(a.opt)])})
    if extend:
        for i in range(len(slots)):
            a = slots[i]
            if a is None or a.n_iter != budget + 1:    # ended for another reason than its budget
                continue
            a.termination = gen_termination(extend)
            ev.append({"k": "extend", "r": i + 1 + off, "d": view(a, rows.get(i, [])), "more": bool(a.has_next())})
            while a is slots[i] and a.has_next():
                step(i)
            ev.append({"k": "end", "r": i + 1 + off, "budget": extend, "d": digest([pop_data(a.archive), pop_data(a.opt)])})
    return ev
