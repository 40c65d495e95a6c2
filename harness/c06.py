"""C06: non-dominated sorting and dominance against module Dominance (spec/Dominance.tla)."""
import itertools
from common import *

pymoo = import_repo()
import numpy as np


def impls():
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
    from pymoo.util.nds.fast_non_dominated_sort import fast_non_dominated_sort
    from pymoo.util.dominator import Dominator
    from pymoo.functions import load_function
    D = {}
    D["nds"] = lambda F: NonDominatedSorting().do(F)
    D["nds-dominator"] = lambda F: NonDominatedSorting(dominator=Dominator()).do(F)
    D["util-fast"] = lambda F: fast_non_dominated_sort(F)
    for ty in ("python", "cython"):
        D[ty + "-fast"] = lambda F, f=load_function("fast_non_dominated_sort", ty): f(F)
        D[ty + "-ens-seq"] = lambda F, f=load_function("efficient_non_dominated_sort", ty): f(F, strategy="sequential")
        D[ty + "-ens-bin"] = lambda F, f=load_function("efficient_non_dominated_sort", ty): f(F, strategy="binary")
        D[ty + "-dda-ens"] = lambda F, f=load_function("dominance_degree_non_dominated_sort", ty): f(F, strategy="efficient")
        D[ty + "-dda-ns"] = lambda F, f=load_function("dominance_degree_non_dominated_sort", ty): f(F, strategy="fast")
    D["python-fast-biobj"] = lambda F, f=load_function("fast_non_dominated_sort", "python"): f(F, native_biobj_sorting=True)
    D["python-tree"] = lambda F, f=load_function("tree_based_non_dominated_sort", "python"): f(F)
    D["cython-best-order"] = lambda F, f=load_function("fast_best_order_sort", "cython"): f(F)
    return D


def first_impls():
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated
    from pymoo.util.dominator import Dominator
    from pymoo.functions import load_function
    D = {"nds-only-first": lambda F: NonDominatedSorting().do(F, only_non_dominated_front=True),
         "nds-dominator-only-first": lambda F: NonDominatedSorting(dominator=Dominator()).do(F, only_non_dominated_front=True),
         "find-non-dominated": find_non_dominated,
         "find-non-dominated-self": lambda F: find_non_dominated(F, F)}
    for ty in ("python", "cython"):
        D[ty + "-find-non-dominated"] = lambda F, f=load_function("find_non_dominated", ty): f(F)
    return D


def fr(fronts):
    return [[int(i) + 1 for i in f] for f in fronts]


def events(args):
    """All observations of the implementation for a list of tables."""
    scope, tabs, seed, full = args
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
    from pymoo.util.dominator import Dominator, get_relation
    from pymoo.functions import load_function
    I, FI = impls(), first_impls()
    rng = np.random.default_rng(seed)
    by = {}

    def add(key, ev):
        by.setdefault(key, []).append(ev)

    for tab in tabs:
        F = np.array(tab, dtype=float)
        R = Ranks(*[F[:, j] for j in range(0)]) if F.size == 0 else None
        E = np.stack([Ranks(F[:, j])(F[:, j]) for j in range(F.shape[1])], axis=1).tolist()
        n = len(F)
        groups = {}
        for name, f in I.items():
            if name == "python-fast-biobj" and F.shape[1] != 2:
                continue
            if name == "python-tree" and F.shape[1] < 2:
                continue
            Fi = F.copy()
            v, err = guarded(f, Fi, timeout=20)
            if err or not np.array_equal(Fi, F, equal_nan=True):
                add(name, {"op": "raised", "exc": err or "input modified", "F": E})
                continue
            k = json.dumps([sorted(x) for x in fr(v)]), all(len(set(x)) == len(x) for x in fr(v))
            groups.setdefault(k, []).append((name, fr(v)))
        for g in groups.values():
            names = "+".join(x[0] for x in g) if len(groups) > 1 else "all"
            if len(groups) == 1:
                add("sort/all", {"op": "sort", "F": E, "fronts": g[0][1], "ranks": [], "stop": 0, "nf": 0})
            else:
                for nm, v in g:
                    add("sort/" + nm, {"op": "sort", "F": E, "fronts": v, "ranks": [], "stop": 0, "nf": 0})
        v, err = guarded(lambda: NonDominatedSorting().do(F, return_rank=True))
        add("sort/nds-rank", {"op": "raised", "exc": err, "F": E} if err else
            {"op": "sort", "F": E, "fronts": fr(v[0]), "ranks": [int(x) for x in v[1]], "stop": 0, "nf": 0})
        v, err = guarded(lambda: NonDominatedSorting(dominator=Dominator()).do(F, return_rank=True))
        add("sort/nds-dominator-rank", {"op": "raised", "exc": err, "F": E} if err else
            {"op": "sort", "F": E, "fronts": fr(v[0]), "ranks": [int(x) for x in v[1]], "stop": 0, "nf": 0})
        stops = range(1, n + 1) if full else [int(rng.integers(1, n + 1))]
        for s in stops:
            for nm, f in (("nds-stop", lambda: NonDominatedSorting().do(F, n_stop_if_ranked=s)),
                          ("nds-dominator-stop", lambda: NonDominatedSorting(dominator=Dominator()).do(F, n_stop_if_ranked=s)),
                          ("cython-fast-stop", lambda: load_function("fast_non_dominated_sort", "cython")(F, n_stop_if_ranked=s))):
                v, err = guarded(f)
                add("sort/" + nm, {"op": "raised", "exc": err, "F": E} if err else
                    {"op": "sort", "F": E, "fronts": fr(v), "ranks": [], "stop": s, "nf": 0})
        nf = int(rng.integers(1, 4))
        for nm, f in (("nds-nfronts", lambda: NonDominatedSorting().do(F, n_fronts=nf)),
                      ("nds-dominator-nfronts", lambda: NonDominatedSorting(dominator=Dominator()).do(F, n_fronts=nf)),
                      ("cython-fast-nfronts", lambda: load_function("fast_non_dominated_sort", "cython")(F, n_fronts=nf))):
            v, err = guarded(f)
            add("sort/" + nm, {"op": "raised", "exc": err, "F": E} if err else
                {"op": "sort", "F": E, "fronts": fr(v), "ranks": [], "stop": 0, "nf": nf})
        for nm, f in FI.items():
            v, err = guarded(f, F.copy())
            add("first/" + nm, {"op": "raised", "exc": err, "F": E} if err else
                {"op": "first", "F": E, "idx": [int(i) + 1 for i in v]})
        # dominance relation, with violations
        CV = rng.integers(0, 3, n) if n else np.zeros(0, int)
        if rng.random() < 0.4:
            CV[:] = CV[0] if n else 0
        m = lambda M: [[int(x) for x in r] for r in M]
        ms = {"matrix": lambda: m(Dominator.calc_domination_matrix(F)),
              "matrix-two-sets": lambda: m(Dominator.calc_domination_matrix(F, F[::-1].copy()))}
        for nm, f in ms.items():
            v, err = guarded(f)
            add("rel/" + nm, {"op": "raised", "exc": err, "F": E} if err else
                {"op": "rel", "F": E, "R": E if nm == "matrix" else E[::-1], "V": [], "eps": 0, "M": v})
        if np.all(F == np.floor(F)) and np.all(np.abs(F) < 1000):
            Fi = [[int(x) for x in r] for r in F]
            v, err = guarded(lambda: m(Dominator.calc_domination_matrix(F, epsilon=1.0)))
            add("rel/matrix-eps", {"op": "raised", "exc": err, "F": E} if err else
                {"op": "rel", "F": Fi, "R": Fi, "V": [], "eps": 1, "M": v})
        G = np.column_stack([CV, -np.ones(n)]).astype(float)
        v, err = guarded(lambda: m(Dominator.calc_domination_matrix_loop(F, G)))
        add("rel/matrix-loop", {"op": "raised", "exc": err, "F": E} if err else
            {"op": "rel", "F": E, "R": E, "V": CV.tolist(), "eps": 0, "M": v})
        v, err = guarded(lambda: [[int(Dominator.get_relation(F[i], F[j], CV[i], CV[j])) for j in range(n)] for i in range(n)])
        add("rel/get-relation-cv", {"op": "raised", "exc": err, "F": E} if err else
            {"op": "rel", "F": E, "R": E, "V": CV.tolist(), "eps": 0, "M": v})

        def ind_rel():
            from pymoo.core.population import Population
            pop = Population.new(X=np.zeros((n, 1)), F=F, G=CV[:, None].astype(float))
            return [[int(get_relation(pop[i], pop[j])) for j in range(n)] for i in range(n)]
        v, err = guarded(ind_rel)
        add("rel/individuals", {"op": "raised", "exc": err, "F": E} if err else
            {"op": "rel", "F": E, "R": E, "V": CV.tolist(), "eps": 0, "M": v})
    return by


def random_tables(rng, k):
    out = []
    for _ in range(k):
        n = int(rng.integers(1, 26)) if rng.random() < 0.9 else int(rng.integers(26, 50))
        m = int(rng.choice([1, 2, 2, 3, 3, 4, 5, 8]))
        kind = rng.integers(0, 7)
        if kind == 0:
            F = rng.random((n, m))
        elif kind == 1:
            F = rng.integers(0, 3, (n, m)).astype(float)
        elif kind == 2:
            F = rng.integers(-4, 5, (n, m)).astype(float)
        elif kind == 3:                       # one long front with duplicates
            a = rng.integers(0, n + 1, n).astype(float)
            F = np.column_stack([a] + [n - a] * (m - 1)) if m > 1 else a[:, None]
        elif kind == 4:                       # chain
            a = rng.permutation(n).astype(float)
            F = np.column_stack([a] * m)
        elif kind == 5:                       # infinities, tiny and huge differences
            F = rng.choice([np.inf, -1e300, 1e-300, 0.0, 1.0, 1.0 + 2 ** -52, 1e300], (n, m))
        else:                                 # constant objective and repeated rows
            F = rng.integers(0, 4, (n, m)).astype(float)
            F[:, int(rng.integers(m))] = 1.0
            F = F[rng.integers(0, n, n)]
        out.append(F.tolist())
    return out


def main():
    c = Check("C06")
    cases = []
    scopes = [(3, 2, 2), (4, 2, 1), (3, 3, 1), (4, 1, 2)] + ([(4, 2, 2), (4, 3, 1), (5, 2, 1), (3, 2, 3)] if THOROUGH else [(4, 2, 2)])
    for n, m, v in scopes:
        cfg = ("SPECIFICATION Spec\nCONSTANTS N=%d M=%d MaxVal=%d\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (n, m, v)
               + ("PROPERTY Terminates\n" if n == 3 and m == 2 and v == 2 else ""))
        tabs = c.generate("MC_Sorting", cfg)
        cases.append((n, m, v, tabs))
    rng = np.random.default_rng(SEED)
    tasks = []
    for n, m, v, tabs in cases:
        if not THOROUGH and len(tabs) > 1500:
            tabs = [tabs[i] for i in rng.permutation(len(tabs))[:1500]]
        for i in range(0, len(tabs), 250):
            tasks.append(("exhaustive-%d-%d-%d" % (n, m, v), tabs[i:i + 250], int(rng.integers(1 << 30)), True))
    rt = random_tables(rng, 6000 if THOROUGH else 1200)
    for i in range(0, len(rt), 75):
        tasks.append(("random", rt[i:i + 75], int(rng.integers(1 << 30)), False))
    allev = {}
    for by in pmap(events, tasks):
        for k, evs in by.items():
            allev.setdefault(k, []).extend(evs)
    traces = [{"key": k, "ev": evs[i:i + 100]} for k, evs in sorted(allev.items()) for i in range(0, len(evs), 100)]
    c.validate("SortTrace", traces)
    c.notes["tables_replayed_from_tlc"] = sum(len(t[1]) for t in tasks if t[0] != "random")
    c.notes["random_tables"] = len(rt)
    c.assumptions.append("objective values enter the specification as order-preserving ranks per objective (equal floats, equal ranks)")
    c.finish(rule="every table enumerated by MC_Sorting plus random tables with ties, duplicates, infinities; each on every sorting variant", exhaustive=THOROUGH)


if __name__ == "__main__":
    main()
