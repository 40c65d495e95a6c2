"""C11: the archive of best solutions. Archive.tla (modules MC_Archive, ArchTrace)."""
import copy
from memo import *
from runs import _imp
from pymoo.core.individual import Individual
from pymoo.util.archive import Archive, MultiObjectiveArchive, SingleObjectiveArchive, RandomTruncation, SurvivalTruncation, default_archive
from pymoo.core.duplicate import NoDuplicateElimination

U2 = [(1, (0, 1), 0), (2, (1, 0), 0), (3, (1, 1), 0), (4, (0, 1), 0), (5, (0, 0), 1), (6, (1, 1), 1), (7, (0, 0), 2), (8, (0, 0), 0)]
U1 = [(1, (1,), 0), (2, (1,), 0), (3, (2,), 0), (4, (0,), 0), (5, (0,), 1), (6, (3,), 1), (7, (0,), 2)]


class Sketch(Problem):
    def __init__(self, n_obj):
        super().__init__(n_var=2, n_obj=n_obj, n_ieq_constr=1, xl=0.0, xu=100.0)

    def _evaluate(self, x, out, *args, **kwargs):
        raise RuntimeError("not to be evaluated")


def ind(x, f, cv):
    return Individual(X=np.array([float(x), 1.0]), F=np.array(f, float), G=np.array([float(cv)]), H=np.zeros(0), evaluated={"F", "G", "H"}, config=Individual.default_config())


def truncations(n_obj):
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
    from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival
    from pymoo.algorithms.moo.spea2 import SPEA2Survival
    T = {"random": RandomTruncation}
    for n, s in {"crowding": RankAndCrowding, "spea2": SPEA2Survival, "pcd": lambda: RankAndCrowding(crowding_func="pcd")}.items():
        T[n] = lambda s=s: SurvivalTruncation(s(), problem=Sketch(n_obj), random_state=np.random.default_rng(1))
    if n_obj == 2:
        T["hv"] = lambda: SurvivalTruncation(LeastHypervolumeContributionSurvival(), problem=Sketch(2), random_state=np.random.default_rng(1))
    return T


def replay_history(kind, n_obj, cap, trunc, batches, elim=True, mode="plain"):
    """batches of (x, f, cv); returns a trace."""
    kw = {}
    if kind != "default":
        kw["truncation"] = truncations(n_obj)[kind]()
    if not elim:
        kw["duplicate_elimination"] = NoDuplicateElimination()
    P = [dict(x=x, f=list(f), cv=int(cv)) for b in batches for x, f, cv in b]
    ev, objs, n = [], [], 0
    cfg = {"P": P, "cap": cap or 0, "trunc": cap if kind == "default" and n_obj == 1 else min(trunc, cap) if trunc and cap else cap or 0, "elim": elim}

    def go():
        nonlocal n
        if kind == "default":
            a = default_archive(Sketch(n_obj), max_size=cap, **({"truncate_size": trunc} if n_obj > 1 else {}))
        elif n_obj == 1:
            a = SingleObjectiveArchive(max_size=cap, **({"truncate_size": trunc} if trunc else {}), **kw)
        else:
            a = MultiObjectiveArchive(max_size=cap, truncate_size=trunc, **kw)
        cfg["kind"] = type(a).__name__
        for b in batches:
            new = [ind(*m) for m in b]
            objs.extend(new)
            n += len(new)
            pos = {id(o): i + 1 for i, o in enumerate(objs)}
            before = [digest([o.X, o.F, o.G]) for o in objs]
            if mode == "copied" and n % 2:
                a = copy.copy(a)
            r = a.add(Population.create(*new))
            ev.append({"k": "add", "off": [pos[id(o)] for o in new], "res": [pos.get(id(o), 0) for o in r], "after": [pos.get(id(o), 0) for o in a], "n": n,
                       "kind": type(r).__name__, "same": before == [digest([o.X, o.F, o.G]) for o in objs]})
            a = r
    _, err = guarded(go)
    if err:
        ev.append({"k": "raised", "exc": err})
        cfg.setdefault("kind", "?")
    return {"key": "archive/%d/%s/%s/%s" % (n_obj, kind, mode if elim else mode + "-keep-duplicates", "cap%s-%s" % (cap, trunc)), "cfg": cfg, "ev": ev}


def small(task):
    n_obj, kind, cap, trunc, hists = task
    U = U2 if n_obj == 2 else U1
    return [replay_history(kind, n_obj, cap, trunc, [[U[i - 1] for i in b] for b in h]) for h in hists]


def big(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        n_obj = int(rng.integers(1, 4))
        kinds = list(truncations(n_obj)) + ["default"]
        kind = str(rng.choice(kinds)) if n_obj > 1 else str(rng.choice(["random", "default"]))
        cap = None if rng.random() < 0.25 and kind != "default" else int(rng.integers(1, 9))
        trunc = None if rng.random() < 0.4 or cap is None and rng.random() < 0.5 else int(rng.integers(1, (cap or 6) + 3))
        if kind == "default" and trunc is None:
            trunc = cap
        hi = int(rng.integers(1, 7))
        infeasible = float(rng.choice([0, 0.3, 0.8, 1.0]))
        B, x, seen = [], 0, []
        for _ in range(int(rng.integers(1, 9))):
            b = []
            for _ in range(int(rng.integers(0 if B else 1, 10))):
                if seen and rng.random() < 0.2:
                    b.append(seen[int(rng.integers(len(seen)))])
                    continue
                x += 1
                b.append((x, tuple(int(v) for v in rng.integers(0, hi + 1, n_obj)), int(rng.integers(1, 4)) if rng.random() < infeasible else 0))
                seen.append(b[-1])
            B.append(b)
        out.append(replay_history(kind, n_obj, cap, trunc, B, elim=bool(rng.random() < 0.85) or cap is not None, mode=str(rng.choice(["plain", "copied"]))))
    return out


def run(task):
    """The archive an algorithm keeps while running."""
    name, seed = task
    rng = np.random.default_rng(seed)
    hv = lambda: SurvivalTruncation(_imp("moo.sms", "LeastHypervolumeContributionSurvival")(), problem=Sketch(2), random_state=np.random.default_rng(2))
    S1, S2, S3 = pspec(n_obj=1, n_var=3, vtype="int", box="grid", n_ieq=1, pseed=seed % 91), pspec(n_obj=2, n_var=3, n_ieq=1, box="skew", pseed=seed % 91), pspec(n_obj=3, n_var=4, box="unit", pseed=seed % 91)
    M = lambda **k: MultiObjectiveArchive(**k)
    C = {
        "NSGA2": (S2, lambda: _imp("moo.nsga2", "NSGA2")(pop_size=12, archive=M(max_size=8, truncate_size=5)), 8, 5, True), "NSGA2-hv": (S2, lambda: _imp("moo.nsga2", "NSGA2")(pop_size=12, archive=M(max_size=6, truncate_size=6, truncation=hv())), 6, 6, True),
        "AGEMOEA-3": (S3, lambda: _imp("moo.age", "AGEMOEA")(pop_size=12, archive=M(max_size=9, truncate_size=4)), 9, 4, True), "SPEA2": (S2, lambda: _imp("moo.spea2", "SPEA2")(pop_size=10, archive=M(max_size=50, truncate_size=20)), 50, 20, True),
        "GA": (S1, lambda: _imp("soo.nonconvex.ga", "GA")(pop_size=12, archive=SingleObjectiveArchive(max_size=3)), 3, 3, True), "PSO": (S1, lambda: _imp("soo.nonconvex.pso", "PSO")(pop_size=12, archive=SingleObjectiveArchive(max_size=2)), 2, 2, True),
        "DE": (S1, lambda: _imp("soo.nonconvex.de", "DE")(pop_size=12, archive=SingleObjectiveArchive()), 10, 10, True), "PatternSearch": (S1, lambda: _imp("soo.nonconvex.pattern", "PatternSearch")(n_sample_points=6, archive=SingleObjectiveArchive()), 10, 10, True),
        "CMOPSO": (S2, lambda: _imp("moo.cmopso", "CMOPSO")(pop_size=12, elite_size=7, mutation_rate=0.0), 12, 7, True), "MOPSO_CD": (S2, lambda: _imp("moo.mopso_cd", "MOPSO_CD")(pop_size=12, archive_size=8), 8, 8, True),
    }
    spec, make, cap, trunc, elim = C[name]
    P, ev, rows, objs = [], [], {}, []
    cfg = {"P": P, "cap": cap, "trunc": trunc, "elim": elim, "kind": "SingleObjectiveArchive" if spec["n_obj"] == 1 else "CrowdingDistanceArchive" if name == "MOPSO_CD" else "MultiObjectiveArchive"}

    def go():
        prob = ZooProblem(spec)
        a = make()
        a.setup(prob, termination=gen_termination(12 if THOROUGH else 8), seed=seed, verbose=False)
        held = lambda: a.elites if name == "CMOPSO" else a.archive
        pos = {}
        prev = None
        while a.has_next():
            inf = a.ask()
            if inf is None:
                break
            a.evaluator.eval(prob, inf)
            again = [o for o in members(a.pop)] if a.pop is not None and name in ("CMOPSO", "MOPSO_CD") and a.is_initialized else []     # these offer their whole swarm again
            before = [digest([o.X, o.F, o.G]) for o in objs]
            ret = a.tell(infills=inf)
            now = ret.archive if name != "CMOPSO" and hasattr(ret, "archive") else held()
            for o in members(inf):
                objs.append(o)
                pos[id(o)] = len(objs)
                P.append(dict(x=rows.setdefault(repr(np.asarray(o.X, float).tolist()), len(rows) + 1), fv=[float(v) for v in o.F], c=float(o.CV[0])))
            ev.append({"k": "add", "off": [pos[id(o)] for o in again + members(inf)], "res": [pos.get(id(o), 0) for o in now], "after": [pos.get(id(o), 0) for o in prev] if prev is not None else [], "n": len(objs),
                       "kind": type(now).__name__, "same": before == [digest([o.X, o.F, o.G]) for o in objs[:len(before)]]})
            prev = held()
    _, err = guarded(go)
    if err:
        ev.append({"k": "raised", "exc": err})
    cfg["kind"] = ev[0].get("kind", "?") if ev else "?"
    R = [Ranks([p["fv"][j] for p in P]) for j in range(spec["n_obj"])]
    RC = Ranks([max(p["c"], 0) for p in P], [0.0])
    for p in P:
        p["f"], p["cv"] = [int(R[j](v)) for j, v in enumerate(p.pop("fv"))], int(RC(max(p.pop("c"), 0)))
    return {"key": "run/" + name, "cfg": cfg, "ev": ev, "meta": {"spec": spec, "seed": seed}}


def main():
    c = Check("C11")
    rng = np.random.default_rng(SEED)
    tasks = []
    for n_obj, cap, trunc in ([(2, 0, 0), (2, 2, 2), (2, 2, 1), (1, 0, 0), (1, 1, 1), (1, 2, 1)] if not THOROUGH else [(2, 0, 0), (2, 1, 1), (2, 2, 2), (2, 2, 1), (2, 3, 1), (2, 3, 2), (1, 0, 0), (1, 1, 1), (1, 2, 1), (1, 2, 2)]):
        H = [p["h"] for p in c.paths("MC_Archive", "SPECIFICATION Spec\nCONSTANTS MaxAdds=3 MaxBatch=%d Cap=%d Trunc=%d Multi2=%s\nINVARIANT Inv\nPROPERTY Steps\nVIEW view\nACTION_CONSTRAINT Out\nCHECK_DEADLOCK FALSE\n" % (2 if n_obj == 1 or cap == 0 or THOROUGH else 2, cap, trunc, "TRUE" if n_obj == 2 else "FALSE"))]
        H = list({json.dumps(h): h for h in H}.values())
        c.notes["histories_cap%d_trunc%d_obj%d" % (cap, trunc, n_obj)] = len(H)
        if not THOROUGH and len(H) > 1200:
            H = [H[i] for i in sorted(rng.choice(len(H), 1200, replace=False))]
        kinds = ["random"] if cap == 0 or n_obj == 1 else (["random", "hv", "spea2", "crowding"] if THOROUGH else ["random", "hv"])
        for kind in kinds:
            for k in range(0, len(H), 300):
                tasks.append((n_obj, kind, cap or None, trunc or None, H[k:k + 300]))
    tr = []
    crash = lambda t, w: [{"key": "archive", "cfg": {"P": [], "cap": 0, "trunc": 0, "elim": True, "kind": "?"}, "ev": [{"k": "raised", "exc": w}]}]
    for g in pmap(small, tasks, on_crash=crash):
        tr += g
    for g in pmap(big, [(int(rng.integers(1 << 30)), 300 if THOROUGH else 60) for _ in range(16)], on_crash=crash):
        tr += g
    names = ["NSGA2", "NSGA2-hv", "AGEMOEA-3", "SPEA2", "GA", "PSO", "DE", "PatternSearch", "CMOPSO", "MOPSO_CD"]
    tr += pmap(run, [(n, int(rng.integers(1 << 20))) for n in names for _ in range((8 if "MOPSO" in n else 2) * (3 if THOROUGH else 1))], on_crash=lambda t, w: crash(t, w)[0])
    c.validate("ArchTrace", tr)
    c.finish(rule="all histories of up to 3 batches of 1-2 solutions of a universe with ties, duplicates, dominated and infeasible ones, per capacity; random histories; archives of running algorithms", exhaustive=False)


if __name__ == "__main__":
    main()
