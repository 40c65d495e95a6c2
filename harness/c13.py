"""C13: evaluation by concurrent workers. Parallel.tla (modules MC_Parallel, ParTrace).

The workers of every runner are held at gates and let through in exactly the order of a schedule that TLC
enumerated; dask and ray (not installed) are represented by stand-ins with the same interface."""
import copy, pickle, threading, types
from common import *
import_repo()
import numpy as np
from multiprocessing.pool import ThreadPool
from pymoo.core.problem import ElementwiseProblem, LoopedElementwiseEvaluation
from pymoo.core.evaluator import Evaluator
from pymoo.core.population import Population
from pymoo.core.callback import Callback
from pymoo.optimize import minimize
import runs


class Boom(Exception):
    pass


# ---------------------------------------------------------------------------------------- stand-ins
class Future:
    """what dask and ray hand out for a submitted task"""

    def __init__(self, f, args):
        self.value = self.error = None
        self.thread = threading.Thread(target=self.run, args=(f, args), daemon=True)
        self.thread.start()

    def run(self, f, args):
        try:
            self.value = f(*args)
        except BaseException as e:  # noqa
            self.error = e

    def done(self):
        return not self.thread.is_alive()

    def exception(self, timeout=None):
        self.thread.join(timeout)
        return self.error

    @property
    def status(self):
        return "pending" if not self.done() else "error" if self.error else "finished"

    def result(self, timeout=None):
        self.thread.join(timeout)
        if self.error is not None:
            raise self.error
        return self.value


class Resource:
    """holds something that can neither be copied nor serialised"""

    def __init__(self):
        self.lock, self.futures = threading.Lock(), []

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle 'Resource' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot copy 'Resource' object")

    def launch(self, f, args):
        self.futures.append(Future(f, args))
        return self.futures[-1]

    def join(self):
        for f in self.futures:
            f.thread.join(20)
        self.futures = []


class Starmap(Resource):
    """a starmap whose workers may run in any order; the results come in the order of the arguments"""

    def __init__(self, lazy=False):
        super().__init__()
        self.lazy = lazy

    def __call__(self, f, args, chunksize=None):
        L = [self.launch(f, tuple(a)) for a in args]
        return (x.result() for x in L) if self.lazy else [x.result() for x in L]


class ShuffledStarmap(Resource):
    def __init__(self, seed):
        super().__init__()
        self.rng = np.random.default_rng(seed)

    def __call__(self, f, args, chunksize=None):
        args = [tuple(a) for a in args]
        res = [None] * len(args)
        for i in self.rng.permutation(len(args)):
            res[i] = f(*args[i])
        return res


class Client(Resource):
    def submit(self, f, *args, **kw):
        return self.launch(f, args)

    def map(self, f, *its, **kw):
        return [self.submit(f, *a) for a in zip(*its)]

    def gather(self, futures, errors="raise", **kw):
        return [x.result() for x in futures if errors == "raise" or x.exception() is None]

    def scatter(self, x, **kw):
        return x


def fake_ray():
    R, m = Resource(), types.ModuleType("ray")

    class Remote:
        def __init__(self, fn):
            self.fn = fn

        def options(self, **kw):
            return Remote(self.fn)

        def remote(self, *a):
            return R.launch(self.fn, a)
    m.remote, m.resource, m.put, m.init, m.is_initialized = Remote, R, (lambda x: x), (lambda **k: None), (lambda: True)
    m.get = lambda x, timeout=None: [y.result() for y in x] if isinstance(x, list) else x.result()

    def wait(refs, num_returns=1, timeout=None, **kw):
        import time
        while True:
            d = [x for x in refs if x.done()]
            if len(d) >= num_returns:
                d = d[:num_returns]
                return d, [x for x in refs if x not in d]
            time.sleep(0.0005)
    m.wait = wait
    return m


RAY = fake_ray()
sys.modules["ray"] = RAY
from pymoo.parallelization import StarmapParallelization, DaskParallelization, JoblibParallelization, RayParallelization  # noqa: E402


def end_loky():
    from joblib.externals.loky import get_reusable_executor
    get_reusable_executor().shutdown(wait=True)


def runner(kind, workers=4, seed=0):
    """the runner, and what to wait for afterwards"""
    if kind in ("starmap", "starmap-lazy"):
        s = Starmap(kind == "starmap-lazy")
        return StarmapParallelization(s), s.join
    if kind == "shuffled":
        return StarmapParallelization(ShuffledStarmap(seed)), lambda: None
    if kind == "threads":
        p = ThreadPool(workers)
        return StarmapParallelization(p.starmap), lambda: (p.close(), p.join())
    if kind == "dask":
        c = Client()
        return DaskParallelization(c), c.join
    if kind == "ray":
        return RayParallelization({"num_cpus": 1}), RAY.resource.join
    if kind == "joblib":
        return JoblibParallelization(n_jobs=workers, backend="threading", batch_size=1, pre_dispatch="all"), lambda: None
    if kind == "joblib-auto":
        return JoblibParallelization(n_jobs=workers, backend="threading"), lambda: None
    if kind == "loky":
        return JoblibParallelization(n_jobs=2), end_loky
    if kind == "processes":
        import multiprocessing
        p = multiprocessing.get_context("fork").Pool(2)
        return StarmapParallelization(p.starmap), lambda: (p.terminate(), p.join())
    return LoopedElementwiseEvaluation(), lambda: None


# ------------------------------------------------------------------------------------ gated workers
class Gates:
    """lets the workers through one at a time, in the order of the schedule"""

    def __init__(self, sched, ev, fine, patience):
        self.sched, self.pos, self.free, self.fine = [(t["b"], t["i"], t["p"]) for t in sched], 0, False, fine
        self.cv, self.busy, self.ev = threading.Condition(), None, ev
        self.failing = {(b, i) for b, i, p in self.sched if p == "fail"}
        self.patience = patience
        self.free = patience == 0

    def leave(self, key):
        with self.cv:
            if self.busy == key:
                self.busy = None
                self.cv.notify_all()

    def enter(self, key, last):
        self.leave(key)
        with self.cv:
            while not self.free and not (self.busy is None and self.pos < len(self.sched) and self.sched[self.pos][:2] == key):
                at = self.pos
                if not self.cv.wait(self.patience) and at == self.pos and self.busy is None:
                    self.free = True             # whoever is next in the schedule never comes
                    self.cv.notify_all()
            if self.free:
                return "fail" if last and key in self.failing else "go"
            p = self.sched[self.pos][2]
            self.pos += 1
            self.busy = key
            self.cv.notify_all()
            return p

    def note(self, **e):
        with self.cv:
            self.ev.append(e)


class Gated(ElementwiseProblem):
    def __init__(self, gates, codes, **kw):
        super().__init__(n_var=1, n_obj=1, n_ieq_constr=1, xl=0.0, xu=100.0, requires_kwargs=True, **kw)
        self.gates, self.codes = gates, codes

    def _evaluate(self, x, out, *args, off=0, **kwargs):
        x = int(np.ravel(x)[0])
        key, g = self.codes.get(x, (9, 9)), self.gates
        try:
            g.enter(key, False)
            g.note(k="call", b=key[0], x=x, off=int(off))
            if g.fine and g.enter(key, False) == "fail":
                g.note(k="fail", b=key[0])
                raise Boom("boom %d" % x)
            out["F"] = [7.0 * x + 1 + off]
            if g.enter(key, True) == "fail":
                g.note(k="fail", b=key[0])
                raise Boom("boom %d" % x)
            out["G"] = [x - 2.0]
        finally:
            g.leave(key)


def num(v):
    v = np.asarray(v, dtype=object).ravel()
    if len(v) == 0 or v[0] is None:
        return -77
    return int(v[0]) if len(v) == 1 and np.isfinite(float(v[0])) and float(v[0]) == int(v[0]) else -78


def held(pop):
    return [{"F": num(i.F), "G": num(i.G)} for i in pop]


def marked(pop):
    return sum(1 for i in pop if {"F", "G"} <= set(i.evaluated))


def is_boom(e):
    seen = 0
    while e is not None and seen < 6:
        if isinstance(e, Boom) or "boom" in str(e):
            return True
        e, seen = e.__cause__ or e.__context__, seen + 1
    return False


def scheduled(kind, h, stalls, again, individual=False):
    """one or two batches of gated evaluations under one schedule"""
    ev = []
    codes = {10 * b + i: (b, i) for b in range(1, h["m"] + 1) for i in range(1, h["n"] + 1)}
    g = Gates(h["s"], ev, h["fine"], 0 if stalls[0] > 4 else 0.4)
    r, join = runner(kind, h["w"])
    prob = Gated(g, codes, elementwise_runner=r)
    jobs = []
    for b in range(1, h["m"] + 1):
        X = [10 * b + i for i in range(1, h["n"] + 1)]
        pop = Population.new("X", np.array(X, float)[:, None])
        evl = Evaluator()
        if again:          # values of an earlier evaluation are held and asked for anew
            pop.set("F", np.array([[5.0 + i] for i in range(len(X))]), "G", np.array([[-3.0]] * len(X)))
            pop.set("F", np.array([[5.0 + i] for i in range(len(X))]))
            pop.set("G", np.array([[-3.0]] * len(X)))
            evl.n_eval = 4
        ev.append(dict(k="batch", X=X, off=100 * b, before=held(pop), marked=marked(pop), n_eval=evl.n_eval))
        jobs.append((b, pop, evl))

    def work(b, pop, evl):
        err = None
        try:
            evl.eval(prob, pop, off=100 * b, skip_already_evaluated=not again)
        except Exception as e:  # noqa
            err = e
        return err
    res = {}
    ts = [threading.Thread(target=lambda j=j: res.__setitem__(j[0], work(*j)), daemon=True) for j in jobs]
    [t.start() for t in ts]
    [t.join(30) for t in ts]
    guarded(join, timeout=20)
    for b, pop, evl in jobs:
        e = res.get(b, Boom("hang")) if b in res else RuntimeError("hang")
        ev.append(dict(k="end", b=b, raised=e is not None, right=is_boom(e), exc=repr(e)[:100], vals=held(pop), marked=marked(pop), n_eval=evl.n_eval, counted=True))
    stalls[0] += g.free and g.patience > 0
    return {"key": kind, "ev": ev}


def schedules(task):
    kind, L = task
    stalls, out = [0], []
    for k, h in enumerate(L):
        if h["n"] > h["w"] and kind not in ("threads", "joblib"):
            continue
        if kind == "serial":
            # the only schedule a loop can follow; a failure ends it
            h = dict(h, m=1, s=[t for i in range(1, h["n"] + 1) for t in h["s"] if (t["b"], t["i"]) == (1, i)])
            bad = [t["i"] for t in h["s"] if t["p"] == "fail"]
            h["s"] = [t for t in h["s"] if not bad or t["i"] <= bad[0]]
        out.append(scheduled(kind, h, stalls, again=k % 3 == 2))
    return out


# ----------------------------------------------------------------------------------- free batches
class Plain(ElementwiseProblem):
    """what its workers did is remembered in a file, so that it does not matter where they ran"""

    def __init__(self, path, fail=(), how="raise", **kw):
        super().__init__(n_var=1, n_obj=1, n_ieq_constr=1, xl=0.0, xu=100.0, requires_kwargs=True, **kw)
        self.path, self.fail, self.how = path, fail, how

    def _evaluate(self, x, out, *args, off=0, **kwargs):
        x = int(np.ravel(x)[0])
        with open(self.path, "a") as f:
            f.write("%d %d\n" % (x, off))
        if x in self.fail:
            if self.how == "stop":
                raise StopIteration("boom")
            if self.how == "exit":
                raise ArithmeticError("boom")
            raise Boom("boom %d" % x)
        out["F"] = [7.0 * x + 1 + off]
        out["G"] = [x - 2.0]


def free_batches(task):
    """batches of many sizes with repeated solutions on real pools"""
    kind, seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    d = tempfile.mkdtemp(prefix="verif-c13-")
    import itertools
    for k in range(n):
        N = int(rng.choice([1, 1, 2, 3, 7, 16]))
        X = [int(v) for v in rng.integers(0, 12, N)]
        fail, how = ((int(rng.choice(X)),) if rng.random() < 0.4 else ()), str(rng.choice(["raise", "exit"]))
        r, join = (StarmapParallelization(itertools.starmap), lambda: None) if kind == "itertools" else runner(kind, int(rng.integers(1, 5)), seed + k)
        if kind == "itertools" and fail and rng.random() < 0.5:
            how = "stop"
        path = os.path.join(d, "calls-%d" % k)
        open(path, "w").close()
        prob = Plain(path, fail, how, elementwise_runner=r)
        pop, evl, ev = Population.new("X", np.array(X, float)[:, None]), Evaluator(), []
        ev.append(dict(k="batch", X=X, off=100, before=held(pop), marked=0, n_eval=0))
        box = {}

        def go():
            try:
                evl.eval(prob, pop, off=100)
            except Exception as e:  # noqa
                box["e"] = e
        _, hang = guarded(go, timeout=60)
        e = box.get("e") or (RuntimeError("hang") if hang else None)
        guarded(join, timeout=20)
        for line in open(path):
            a, o = line.split()
            ev.append(dict(k="call", b=1, x=int(a), off=int(o)))
            if int(a) in fail:
                ev.append(dict(k="fail", b=1))
        if fail:       # which of several equal solutions failed does not matter
            ev = [x for i, x in enumerate(ev) if x["k"] != "fail" or all(y["k"] != "fail" for y in ev[:i])]
        ev.append(dict(k="end", b=1, raised=e is not None, right=is_boom(e) or how == "stop", exc=repr(e)[:100], vals=held(pop), marked=marked(pop), n_eval=evl.n_eval, counted=True))
        out.append({"key": "batch-" + kind, "ev": ev})
    shutil.rmtree(d, ignore_errors=True)
    return out


# ------------------------------------------------------------------------------------- whole runs
class Rec(runs.RecElementwise):
    fail_at, calls = None, 0

    def __getstate__(self):
        return {k: v for k, v in super().__getstate__().items() if k not in ("fn", "log")}

    def __setstate__(self, s):
        self.__dict__.update(s)
        self.fn, self.log = runs.value_fn(self.spec), []

    def _evaluate(self, x, out, *args, **kwargs):
        self.calls += 1
        if self.calls == self.fail_at:
            raise Boom("boom")
        super()._evaluate(x, out, *args, **kwargs)


class Gens(Callback):
    def __init__(self):
        super().__init__()
        self.gens = []

    def notify(self, algorithm):
        q = algorithm.pop if algorithm.pop is not None else Population()
        o = algorithm.opt if algorithm.opt is not None else Population()
        self.gens.append(hashlib.sha1(b"|".join([np.asarray(p.get(k), float).tobytes() for p in (q, o) for k in ("X", "F", "G")])).hexdigest())


def a_run(name, m, spec, kind, seed, fail_at=None, n_gen=4):
    r, join = runner(kind, 3, seed)
    prob = Rec(spec, elementwise_runner=r)
    prob.fail_at = fail_at
    algo, _ = runs.make_algo(name, m, "real", spec)
    cb, box = Gens(), {}

    def go():
        box["r"] = minimize(prob, algo, ("n_gen", n_gen), seed=1, callback=cb, save_history=(kind != "serial" and seed % 2 == 0))
    _, err = guarded(go, timeout=60)
    guarded(join, timeout=20)
    return cb.gens, prob.calls, (int(box["r"].algorithm.evaluator.n_eval) if "r" in box else -1), err


def whole_runs(task):
    name, m, kind, seed = task
    spec = runs.pspec(n_obj=m, n_var=3, n_ieq=1 if m == 2 and name not in NO_CONSTR else 0, feas="easy", pseed=seed)
    g0, c0, n0, e0 = a_run(name, m, spec, "serial", seed)
    if e0:
        return []
    g1, c1, n1, e1 = a_run(name, m, spec, kind, seed)
    ids = {}
    code = lambda g: [ids.setdefault(x, len(ids) + 1) for x in g]
    ev = [dict(k="run", serial=code(g0), gens=code(g1), raised=e1 is not None, fails=False, counted=kind not in ("loky", "processes"), calls=c1, n_eval=n1, exc=e1 or "")]
    for j in range(2):
        if kind in ("loky", "processes"):
            break
        at = int(np.random.default_rng(seed + j).integers(1, c0 + 1))
        g2, c2, n2, e2 = a_run(name, m, spec, kind, seed, fail_at=at)
        ev.append(dict(k="run", serial=code(g0), gens=code(g2), raised=e2 is not None and "boom" in e2, fails=True, counted=False, calls=c2, n_eval=n2, exc=e2 or ""))
    return [{"key": "run-%s-%s" % (name, kind), "ev": ev}]


NO_CONSTR = set()


# ----------------------------------------------------------------------------------------- copies
class Simple(ElementwiseProblem):
    def __init__(self, **kw):
        super().__init__(n_var=2, n_obj=2, n_ieq_constr=1, xl=np.array([0.0, -1.0]), xu=np.array([1.0, 2.0]), **kw)
        self.note = {"a": [1, 2, 3]}

    def _evaluate(self, x, out, *args, **kwargs):
        out["F"] = [x[0] + x[1], (1 - x[0]) ** 2]
        out["G"] = [x[1] - 1]


def reach(o, kinds, depth=0, seen=None):
    """is a resource of a runner reachable from o?"""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 12:
        return False
    seen.add(id(o))
    if isinstance(o, kinds):
        return True
    if isinstance(o, types.MethodType):
        return reach(o.__self__, kinds, depth + 1, seen)
    if isinstance(o, dict):
        return any(reach(v, kinds, depth + 1, seen) for v in o.values())
    if isinstance(o, (list, tuple, set)) or (isinstance(o, np.ndarray) and o.dtype == object):
        return any(reach(v, kinds, depth + 1, seen) for v in (o.ravel() if isinstance(o, np.ndarray) else o))
    if hasattr(o, "__dict__") and not isinstance(o, (type, types.ModuleType, types.FunctionType)):
        return any(reach(v, kinds, depth + 1, seen) for v in vars(o).values())
    return False


HOWS = {"deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o))}


def plain_state(r):
    return {k: v for k, v in vars(r).items() if not isinstance(v, (Resource, types.ModuleType, types.MethodType))}


def copies(task):
    kind, seed = task
    rng = np.random.default_rng(seed)
    out = []
    for how, dup in HOWS.items():
        for what in ("problem", "algorithm", "result"):
            r, join = runner(kind, 2, seed)
            prob = Simple(elementwise_runner=r)
            X = rng.random((5, 2))
            want = Simple().evaluate(X)
            ok = lambda p: all(np.array_equal(a, b) for a, b in zip(p.evaluate(X), want))
            box = {}

            def go():
                if what == "problem":
                    q = dup(prob)
                    box["p"], box["q"] = q, q
                    box["same"] = (q.n_var, q.n_obj, q.n_ieq_constr, q.note) == (2, 2, 1, prob.note) and np.array_equal(q.xl, prob.xl) and np.array_equal(q.xu, prob.xu) and bool(q.elementwise)
                elif what == "algorithm":
                    a = runs._imp("moo.nsga2", "NSGA2")(pop_size=6)
                    a.setup(prob, termination=("n_gen", 5), seed=1)
                    a.next(), a.next()
                    q = dup(a)
                    box["q"], box["p"] = q, q.problem
                    box["same"] = q.n_gen == a.n_gen and np.array_equal(q.pop.get("X"), a.pop.get("X")) and q.evaluator.n_eval == a.evaluator.n_eval and q.has_next()
                    a.next()
                    q.problem.elementwise_runner = LoopedElementwiseEvaluation()
                    q.next()
                    box["same"] = box["same"] and np.array_equal(q.pop.get("X"), a.pop.get("X")) and np.array_equal(q.pop.get("F"), a.pop.get("F"))
                else:
                    res = minimize(prob, runs._imp("moo.nsga2", "NSGA2")(pop_size=6), ("n_gen", 3), seed=1, save_history=True)
                    q = dup(res)
                    box["q"], box["p"] = q, q.algorithm.problem
                    box["same"] = len(q.history) == 3 and np.array_equal(q.X, res.X) and np.array_equal(q.F, res.F)
                q = box["p"].elementwise_runner
                box["has"] = reach(box["q"], (Resource, ThreadPool))
                if kind in ("joblib", "ray") and what == "problem":
                    box["same"] = box["same"] and plain_state(q) == plain_state(r)
                box["works"] = ok(prob)
                p = box["p"]
                p.elementwise_runner = LoopedElementwiseEvaluation()
                box["again"] = ok(p) and ok(prob)
            _, err = guarded(go, timeout=60)
            guarded(join, timeout=20)
            out.append({"key": "copy-%s-%s-%s" % (kind, what, how), "ev": [dict(k="copy", raised=err is not None, exc=err or "", has=box.get("has", False), same=box.get("same", False),
                                                                                works=box.get("works", False), again=box.get("again", False))]})
    return out


def crash(task, why):
    return [{"key": "crash-%s" % (task[0],), "ev": [dict(k="crash")]}]


def main():
    c = Check("C13")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION %s\nCONSTANTS Batches=%d N=%d Workers=%d Faults=%d Fine=%s\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
    # the design: every interleaving of workers and the caller
    for k in [(1, 3, 3, 1, "TRUE"), (2, 2, 2, 1, "FALSE")] + ([(2, 2, 2, 2, "FALSE"), (1, 4, 2, 2, "TRUE")] if THOROUGH else []):
        c.model_check("MC_Parallel", cfg % (("Spec",) + k))
    # the schedules to replay
    H = {}
    for k in [(1, 3, 3, 0, "TRUE"), (1, 3, 3, 1, "TRUE"), (2, 2, 2, 1, "FALSE"), (1, 4, 2, 1, "FALSE")] + ([(1, 4, 4, 1, "FALSE"), (1, 3, 3, 2, "TRUE")] if THOROUGH else []):
        H[k] = c.paths("MC_Parallel", cfg % (("SpecS",) + k) + "ACTION_CONSTRAINT Emit\n")
    c.notes["schedules_from_tlc"] = sum(len(v) for v in H.values())
    tasks = []
    f = 6 if THOROUGH else 1
    for kind, n in [("starmap", 140), ("starmap-lazy", 60), ("dask", 140), ("ray", 140), ("threads", 100), ("joblib", 60), ("serial", 40)]:
        for rep in range(f):
            L = []
            for v in H.values():
                L += [v[i] for i in rng.choice(len(v), min(len(v), n), replace=False)]
            rng.shuffle(L)
            tasks += [("s", kind, L[i::2]) for i in (0, 1)]
    for kind, n in [("threads", 40), ("joblib-auto", 30), ("processes", 6), ("loky", 5), ("itertools", 60), ("shuffled", 60), ("dask", 40), ("ray", 40), ("serial", 40)]:
        tasks.append(("f", kind, int(rng.integers(1 << 30)), n * (5 if THOROUGH and kind != "loky" else 1)))
    moo, soo = list(runs.moo_algorithms(2)), list(runs.soo_algorithms())
    names = [(n, 2) for n in moo] + [(n, 1) for n in soo]
    for n, m in names:
        if n == "AGEMOEA2" and not THOROUGH:
            continue
        for kind in ["shuffled"] + ([] if n == "AGEMOEA" else [str(rng.choice(["threads", "dask", "ray", "joblib-auto"]))] if not THOROUGH else ["threads", "dask", "ray", "joblib-auto", "starmap-lazy"]):
            tasks.insert(0 if "AGE" in n else len(tasks), ("r", n, m, kind, int(rng.integers(1 << 20))))
    tasks += [("r", "NSGA2", 2, "processes", 3), ("r", "GA", 1, "loky", 4)]
    for kind in ("starmap", "threads", "dask", "ray", "joblib", "serial"):
        tasks.append(("c", kind, int(rng.integers(1 << 20))))
    tr = []
    for part in pmap(one, tasks, on_crash=crash, timeout=600):
        tr += part
    c.validate("ParTrace", tr)
    c.assumptions.append("dask and ray are represented by stand-ins with their documented interface (neither is installed); joblib, thread and process pools are real")
    c.finish(rule="all schedules of three workers in three steps, of two overlapping batches and of a pool of two workers, with every single failure (sampled per runner); batches on real pools; every optimizer run under shuffled and concurrent workers, also with a failing evaluation", exhaustive=False)


def one(t):
    t0 = time.time()
    try:
        return one_(t)
    finally:
        if os.environ.get("VERIF_TIMES"):
            print("%.1f" % (time.time() - t0), str(t)[:70], file=sys.stderr)


def one_(t):
    return {"s": schedules, "f": free_batches, "r": whole_runs, "c": copies}[t[0]](t[1:])


if __name__ == "__main__":
    main()
