"""C29: what a run reports about itself. Report.tla (modules MC_Report, ReportTrace)."""
from zoo import *
import contextlib, io, math
os.environ.setdefault("MPLBACKEND", "Agg")
from pymoo.core.callback import Callback, CallbackCollection
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.recorder import DefaultMultiObjectiveRecorder, DefaultSingleObjectiveRecorder
from pymoo.optimize import minimize
from pymoo.util.display.column import Column
from pymoo.util.display.display import Display
from pymoo.util.display.multi import MultiObjectiveOutput
from pymoo.util.display.progress import ProgressBar
from pymoo.util.display.single import SingleObjectiveOutput
from pymoo.util.running_metric import RunningMetric
from pymoo.util.sliding_window import SlidingWindow

DEBUG = os.environ.get("VERIF_DEBUG")
OWN = {"PSO": ["f", "S", "w", "c1", "c2"], "NicheGA": ["n_niches"],
       "CMA": ["sigma", "min_std", "max_std", "axis", "run", "fpop", "n_pop"]}


def num(v):
    """a shown or recorded number in units of 1e-4"""
    v = float(v)
    inf = not math.isfinite(v)
    return dict(inf=inf, v=0 if inf else max(-2 * 10**7, min(2 * 10**7, int(round(v * 1e4)))))


def cell(text):
    t = text.strip()
    c = dict(blank=t == "-", v=2 * 10**7, k=int(t) if t.isdigit() and len(t) < 10 else -1, text=t)
    try:
        c["v"] = num(t)["v"]
    except ValueError:
        pass
    return c


class Toy(Problem):
    """small integer objectives; cons: "", "some" or "none" feasible; pf: declares its front"""

    def __init__(self, m, cons, pf, front=None):
        super().__init__(n_var=4, n_obj=m, n_ieq_constr=1 if cons else 0, xl=0.0, xu=1.0)
        self.cons, self.declared, self.count, self.front = cons, pf, 0, front

    def _calc_pareto_front(self, *args, **kwargs):
        if not self.declared:
            return None
        if self.front is not None:
            return np.array(self.front, float)
        return np.array({1: [[-2]], 2: [[0, 4], [1, 3], [2, 2], [3, 1], [4, 0]], 3: [[0, 0, 4], [0, 4, 0], [4, 0, 0], [1, 1, 2]]}[self.n_obj], float)

    def _evaluate(self, X, out, *args, **kwargs):
        self.count += len(X)
        u, s = X[:, 0], np.abs(X[:, 2:] - 0.5).mean(1) * 2
        if self.n_obj == 1:
            F = [np.floor(4.99 * u) + np.floor(2.99 * s) - 2]
        elif self.declared:
            F = [np.floor(4.99 * u) + np.floor(2.99 * s), np.floor(4.99 * (1 - u)) + np.floor(2.99 * s), np.floor(4.99 * X[:, 1])]
        else:
            F = [np.floor(3.99 * u), np.minimum(3, np.floor(3.99 * (1 - u)) + np.floor(1.99 * s)), np.floor(3.99 * X[:, 1])]
        out["F"] = np.column_stack(F[:self.n_obj])
        if self.cons:
            out["G"] = (np.floor(3.99 * X[:, 1]) + 1 if self.cons == "none" else 1 - np.floor(3.99 * X[:, 1]))[:, None]


def snap(pop):
    return [[int(v) for v in r] for r in pop.get("F")], [int(v) for v in pop.get("cv")]


def table(out, single, cons, pf, m, gens, extra):
    """lines of a printed table -> head event and the cells of every row"""
    lines = out.rstrip("\n").split("\n")
    heads = [i for i, q in enumerate(lines) if "n_gen" in q]
    cols = [q.strip() for q in lines[heads[0]].split("|")] if heads else ["n_gen"]
    rows = [q for i, q in enumerate(lines) if heads and i > heads[0] and "|" in q and "n_gen" not in q]
    e = dict(k="head", single=single, cons=bool(cons), pf=bool(pf), m=m, cols=cols, extra=extra, heads=len(heads), rows=len(rows), gens=gens,
             aligned=bool(heads) and all(len(q) == len(lines[heads[0]]) for q in rows))
    return e, [[cell(q) for q in r.split("|")] for r in rows]


def people(rng, F, cv, cons):
    pop = Population.new("X", np.arange(len(F), dtype=float)[:, None])
    pop.set("F", np.array(F, float))
    if cons:
        pop.set("G", np.array([[v if v else -int(rng.integers(0, 2))] for v in cv], float))
    for p in pop:
        p.evaluated.update(["F", "G", "H"])
    return pop


class Fake:
    """an algorithm as reports see it"""

    def __init__(self, problem):
        self.problem, self.n_gen, self.pop, self.opt = problem, 0, None, None
        self.evaluator = type("E", (), {"n_eval": 0})()
        self.termination = type("T", (), {"perc": 0.0})()


def rec_event(single, rec, before, a, oF, ocv, pf, nth, L):
    e = dict(k="rec", single=single, saved=len(rec.data) == before + 1, evals=a.evaluator.n_eval, oF=oF, ocv=ocv, pf=pf, nth=nth, L=L,
             n_evals=-1, rcv=-1, f=num(0), gap=num(0), igd=num(0), igdp=num(0))
    if len(rec.data) > before:
        d = rec.data[-1]
        e["n_evals"], e["rcv"] = int(d["n_evals"]), num(d["cv"])["v"]
        if single:
            e["f"], e["gap"] = num(d["f"]), num(d["fgap"])
        else:
            e["igd"], e["igdp"] = num(d["igd"]), num(d["igd+"])
    return e


def histories(task):
    """scripted histories of the specification through the outputs, recorders and the running metric"""
    seed, hs = task
    rng = np.random.default_rng(seed)
    out = []
    for h, pf in hs:
        cons = bool(rng.random() < 0.5) or any(not g for g in h)
        prob = Toy(2, "some" if cons else "", bool(pf), pf or None)
        L = 6 if pf and pf[-1][0] == 3 else 2
        a, o, nth = Fake(prob), MultiObjectiveOutput(), int(rng.integers(0, 6))
        rec = DefaultMultiObjectiveRecorder(nth_evals=nth or None)
        buf, ev, rv, ms = io.StringIO(), [], [], []
        d = Display(o, verbose=True)

        def go():
            for g in h:
                a.n_gen += 1
                a.evaluator.n_eval += int(rng.integers(1, 4))
                oF, ocv = (g, [0] * len(g)) if g else ([[int(v) for v in rng.integers(0, 3, 2)]], [int(rng.integers(1, 3))])
                more = int(rng.integers(0, 3)) if cons else 0
                F, cv = oF + [[3, 3]] * more, ocv + [int(v) for v in rng.integers(1, 4, more)]
                a.opt, a.pop = people(rng, oF, ocv, cons), people(rng, F, cv, cons)
                with contextlib.redirect_stdout(buf):
                    d(a)
                n = len(rec.data)
                rec(a)
                rv.append(rec_event(False, rec, n, a, oF, ocv, pf, nth, L))
                ev.append(dict(k="row", single=False, L=L, pf=pf, F=F, cv=cv, oF=oF, ocv=ocv, gen=a.n_gen, evals=a.evaluator.n_eval, extra=[]))
        _, err = guarded(go, timeout=30)
        if err:
            if DEBUG:
                print(h, pf, err)
            out.append({"key": "history/raised", "ev": [dict(k="raised")]})
            continue
        e, cells = table(buf.getvalue(), False, cons, bool(pf), 2, len(h), [])
        for r, q in zip(ev, cells):
            r.update(cols=e["cols"], cells=q)
        out.append({"key": "history/table", "ev": [e] + (ev[:len(cells)] if len(cells) == len(ev) else [])})
        out.append({"key": "history/recorder", "ev": rv})
        S = [g for g in h if g]
        if S and not pf:
            for ind in ("igd", "hv"):
                size = int(rng.choice([0, 1, 2, 3]))
                rm, ev = RunningMetric(size or None, ind), []
                cols = [list(p) for p in zip(*[f for g in S for f in g])]

                def go():
                    for g in S:
                        a.opt = people(rng, g, [0] * len(g), False)
                        with np.errstate(all="ignore"):
                            rm(a)
                        ev.append(dict(k="run", F=g, size=size, ind=ind, L=L, df=[num(v) for v in rm.delta_f], di=[num(v) for v in rm.delta_ideal], dn=[num(v) for v in rm.delta_nadir]))
                _, err = guarded(go, timeout=30)
                out.append({"key": "running/" + ind, "ev": ev + ([dict(k="raised")] if err else [])})
                if err and DEBUG:
                    print(S, err)
    return out


def others(task):
    seed, items = task
    rng = np.random.default_rng(seed)
    out = []
    for c in items:
        ev = []

        def go():
            if c["k"] == "single":
                cons = any(c["cv"]) or rng.random() < 0.5
                prob = Toy(1, "some" if cons else "", bool(c["pf"]), c["pf"] or None)
                F, cv = [[v] for v in c["F"]], c["cv"]
                b = min(range(len(F)), key=lambda i: (cv[i], F[i]))
                a, o, rec, buf = Fake(prob), SingleObjectiveOutput(), DefaultSingleObjectiveRecorder(), io.StringIO()
                a.n_gen, a.evaluator.n_eval = 1, int(rng.integers(1, 10**8))
                a.pop, a.opt = people(rng, F, cv, cons), people(rng, [F[b]], [cv[b]], cons)
                with contextlib.redirect_stdout(buf):
                    Display(o, verbose=True)(a)
                e, cells = table(buf.getvalue(), True, cons, bool(c["pf"]), 1, 1, [])
                rec(a)
                ev.append(e)
                ev.append(dict(k="row", single=True, L=1, pf=c["pf"], F=F, cv=cv, oF=[F[b]], ocv=[cv[b]], gen=1, evals=a.evaluator.n_eval, extra=[], cols=e["cols"], cells=cells[0]))
                ev.append(rec_event(True, rec, 0, a, [F[b]], [cv[b]], c["pf"], 0, 1))
            elif c["k"] == "rec":
                a = Fake(Toy(1, "", False))
                rec = DefaultSingleObjectiveRecorder(nth_evals=c["nth"] or None)
                for s in c["s"]:
                    a.evaluator.n_eval += s
                    f = int(rng.integers(0, 9))
                    a.opt = people(rng, [[f]], [0], False)
                    n = len(rec.data)
                    rec(a)
                    ev.append(rec_event(True, rec, n, a, [[f]], [0], [], c["nth"], 1))
                g = rec.get("n_evals", "f")
                assert [int(v) for v in g[0]] == [d["n_evals"] for d in rec.data] and len(g[1]) == len(rec.data)
            elif c["k"] == "perc":
                shown = []
                d = Display(None, progress=False)
                d.progress = ProgressBar(start=False)
                d.progress.obj = shown.append
                a = Fake(None)
                for s in c["s"]:
                    a.termination.perc = s / 1e4
                    d(a)
                    ev.append(dict(k="perc", perc=s, shown=num(shown[-1])["v"]))
            elif c["k"] == "win":
                w = SlidingWindow(c["size"] or None)
                for s in c["s"]:
                    w.clear() if s == 0 else w.append(s)
                    ev.append(dict(k="win", op=s, size=c["size"], got=[int(v) for v in (w.to_numpy() if rng.random() < 0.5 else w)], full=bool(w.is_full())))
            else:
                for _ in range(c["n"]):
                    w = int(rng.choice([8, 10, 13]))
                    man, ex = int(rng.integers(1000, 10000)), int(rng.integers(-6, 4) if rng.random() < 0.7 else rng.integers(-90, 90))
                    if rng.random() < 0.2:
                        man = int(rng.choice([1000, 9999, 9500, 9996]))
                    sg = -1 if rng.random() < 0.3 else 1
                    none = bool(rng.random() < 0.05)
                    x = float("%d.%03dE%d" % (man // 1000, man % 1000, ex)) * sg
                    col = Column("q", width=w)
                    col.set(None if none else np.float64(x) if rng.random() < 0.5 else x)
                    t = col.text()
                    tol = int(math.ceil(max(0.5 * 10 ** (10 - w), 0.5 * 10 ** (6 - w - ex) if -6 <= ex < 1 else 0))) + 1
                    e = dict(k="text", width=w, len=len(t), none=none, blank=t.strip() == "-", man=sg * man, exp=ex, sman=0, sexp=0, tol=tol)
                    if t.strip() != "-":
                        y = float(t)
                        m, p = ("%.3E" % y).split("E")
                        e["sman"], e["sexp"] = int(round(float(m) * 1000)), int(p)
                    ev.append(e)
        _, err = guarded(go, timeout=30)
        if err and DEBUG:
            print(c, err)
        out.append({"key": c["k"], "ev": ev + ([dict(k="raised")] if err else [])})
    return out


class Log(Callback):
    def __init__(self, i, seq, snaps=None, problem=None):
        super().__init__()
        self.i, self.seq, self.snaps, self.problem = i, seq, snaps, problem

    def initialize(self, algorithm):
        self.seq.append(["init", self.i])

    def update(self, algorithm):
        self.seq.append(["upd", self.i])
        if self.snaps is not None:
            a = algorithm
            self.snaps.append((snap(a.pop), snap(a.opt), self.problem.count, a.evaluator.n_eval,
                               {"w": getattr(a, "w", 0), "c1": getattr(a, "c1", 0), "c2": getattr(a, "c2", 0), "f": getattr(a, "f", 0), "n_niches": len(a.opt)}))


def runs(task):
    seed, cfg = task
    rng = np.random.default_rng(seed)
    name, m, cons, pf = cfg["name"], cfg["m"], cfg["cons"], cfg["pf"]
    single = m == 1
    prob = Toy(m, cons, pf)
    key = "run/" + name
    seq, snaps, rv, buf = [], [], [], io.StringIO()
    L = {1: 1, 2: 4, 3: 4}[m] if pf else 6
    front = [[int(v) for v in r] for r in prob.pareto_front()] if pf else []
    nth = int(rng.choice([0, 7, 20]))
    rec = (DefaultSingleObjectiveRecorder if single else DefaultMultiObjectiveRecorder)(nth_evals=nth or None)

    class Kept(Callback):
        def update(self, a):
            n = len(rec.data)
            rec(a)
            oF, ocv = snap(a.opt)
            rv.append(rec_event(single, rec, n, a, oF, ocv, front, nth, L))

    spec = pspec(m, 4, 1 if cons else 0)

    def go():
        own = bool(rng.random() < 0.3) and "CMAES" not in name      # who asks for the table
        a, _ = make_algo(name, m, "real", spec, **(dict(verbose=True) if own else {}))
        cb = CallbackCollection(Log(1, seq, snaps, prob), Log(2, seq), Kept(), Log(3, seq))
        with contextlib.redirect_stdout(buf):
            minimize(prob, a, ("n_gen", cfg["n_gen"]), seed=int(rng.integers(99)), callback=cb, copy_algorithm=bool(rng.random() < 0.5), save_history=bool(rng.random() < 0.3), **({} if own else dict(verbose=True)))
    with np.errstate(all="ignore"):
        _, err = guarded(go, timeout=120)
    if err:
        if DEBUG:
            print(cfg, err)
        return {"key": key, "ev": [dict(k="raised")]}
    own = OWN["PSO"] if name.startswith("PSO") else OWN["NicheGA"] if name == "NicheGA" else OWN["CMA"] if "CMAES" in name else []
    e, cells = table(buf.getvalue(), single, cons, pf, m, len(snaps), own)
    ev = [e]
    if len(cells) == len(snaps):
        for i, (c, ((F, cv), (oF, ocv), cnt, n_eval, at)) in enumerate(zip(cells, snaps)):
            ext = []
            for j, q in enumerate(e["cols"]):
                if q in ("w", "c1", "c2", "n_niches") and q in own or q == "f" and own is OWN["PSO"]:
                    ext.append([c[j]["v"], -1 if at[q] is None else num(at[q])["v"], 1 + (0 if at[q] is None or at[q] >= 0 else int(abs(at[q]) * 600))])
                    if at[q] is None and c[j]["blank"]:
                        ext[-1][0] = -1
            ev.append(dict(k="row", single=single, L=L, pf=front, F=F, cv=cv, oF=oF, ocv=ocv, gen=i + 1, evals=cnt, extra=ext, cols=e["cols"], cells=c))
    ev += rv
    ev.append(dict(k="calls", n=3, gens=len(snaps), seq=seq))
    return {"key": key, "ev": ev}


def fan(z):
    return [q for r in z for q in (r if isinstance(r, list) else [r])]


def main():
    c = Check("C29")
    P = c.paths("MC_Report", "SPECIFICATION Spec\nCONSTANTS Hi=2 Len2=2\nINVARIANTS Laws Emit\n")
    rng = np.random.default_rng(SEED)
    c.notes["cases_from_tlc"] = len(P)
    S = lambda: int(rng.integers(1 << 30))
    crash = lambda t, w: {"key": "crash", "ev": [dict(k="crash")]}
    H = [(q["h"], q["pf"]) for q in P if q["k"] == "multi"]
    gens = [q["h"][0] for q in P if q["k"] == "multi" and len(q["h"]) == 1 and not q["pf"]]
    for i in range(2500 if THOROUGH else 500):      # longer ones
        h = [gens[int(rng.integers(len(gens)))]]
        for _ in range(int(rng.integers(2, 6))):
            r = rng.random()
            g = h[-1]
            h.append(g if r < 0.15 else [g[int(j)] for j in sorted(rng.permutation(len(g))[:max(1, len(g) - 1)])] if r < 0.4 and g else gens[int(rng.integers(len(gens)))])
        H.append((h, [] if rng.random() < 0.7 else [[0, 2], [2, 0]]))
    O = [q for q in P if q["k"] != "multi"] + [dict(k="text", n=200 if THOROUGH else 60) for _ in range(16)]
    tr = fan(pmap(histories, [(S(), H[i::24]) for i in range(24)], on_crash=crash))
    tr += fan(pmap(others, [(S(), O[i::16]) for i in range(16)], on_crash=crash))
    cf = []
    for m in (1, 2, 3):
        A = soo_algorithms() if m == 1 else moo_algorithms(m)
        for name, (f, t) in A.items():
            if t.get("slow") or t.get("dynamic") or m == 3 and not THOROUGH and rng.random() < 0.6:
                continue
            for rep in range(6 if THOROUGH else 2):
                cons = str(rng.choice(["", "some", "none"], p=[0.4, 0.45, 0.15])) if not t.get("unconstr") else ""
                cf.append((S(), dict(name=name, m=m, cons=cons, pf=bool((rep + rng.integers(0, 2)) % 2) if rep > 1 else bool(rep), n_gen=6)))
    tr += fan(pmap(runs, cf, on_crash=crash))
    c.notes["runs"] = len(cf)
    c.validate("ReportTrace", tr)
    c.finish(rule="every history of one or two sets of solutions on a 3 x 3 grid with and without a declared front, longer random ones, every sequence of up to four evaluation counts, progress values and window operations (TLC); %d whole runs of every optimizer printing their table" % len(cf), exhaustive=False)


if __name__ == "__main__":
    main()
