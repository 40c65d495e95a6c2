"""C20: structured reference directions. RefDirs.tla (modules MC_RefDirs, RefTrace)."""
from common import *
import_repo()
import re
import numpy as np
from pymoo.util.ref_dirs import get_reference_directions
from pymoo.util.reference_direction import (UniformReferenceDirectionFactory, MultiLayerReferenceDirectionFactory, default_ref_dirs,
                                            sample_on_unit_simplex, select_points_with_maximum_distance, scale_reference_directions)
from pymoo.util.ref_dirs.das_dennis import DasDennis
from pymoo.util.ref_dirs.incremental import IncrementalReferenceDirectionFactory
from pymoo.util.ref_dirs.energy import RieszEnergyReferenceDirectionFactory as Energy, calc_potential_energy
from pymoo.util.ref_dirs.energy_layer import LayerwiseRieszEnergyReferenceDirectionFactory as LayerEnergy
from pymoo.util.ref_dirs.reduction import ReductionBasedReferenceDirectionFactory as Reduction
from pymoo.util.ref_dirs.construction import ConstructionBasedReferenceDirectionFactory as Construction
from pymoo.util.ref_dirs.sample_and_map import RandomSamplingAndMap
from pymoo.util.ref_dirs.genetic_algorithm import ReferenceDirectionGA
from pymoo.util.ref_dirs.misc import project_onto_unit_simplex_recursive
from pymoo.util.ref_dirs.performance import iterative_igd

U = 1000000


def on(X, D):
    """coordinates over the denominator D, and whether they really lie there"""
    X = np.asarray(X, float)
    if X.size == 0:
        return [], True
    Z = X * D
    ok = bool(np.isfinite(Z).all())
    Z = np.where(np.isfinite(Z), Z, -10**6)
    R = np.round(Z)
    return R.astype(int).tolist(), ok and bool(np.abs(Z - R).max() < 1e-6 * max(1, D))


def micro(X, u=U):
    X = np.asarray(X, float)
    return np.round(np.where(np.isfinite(X), np.clip(X, -1000, 1000), -999) * u).astype(int).tolist()


def lattice(kind, m, p, a, b, make, lex=True, key=""):
    D = max(p, 1) * m * b
    X, err = guarded(make, timeout=60)
    rows, exact = on(X, D) if err is None else ([], False)
    return {"key": "%s%s" % (kind, key), "ev": [dict(k="lattice", kind=kind, m=m, p=p, a=a, b=b, rows=rows, exact=exact, lex=lex and a > 0, raised=err is not None, exc=err or "")]}


def batch(m, p, a, b, reqs):
    D = max(p, 1) * m * b
    dd = DasDennis(p, m, scaling=None if a == b else a / b)
    ev = []
    for r in reqs:
        def ask():
            X = dd.next(None if r < 0 else r)
            return X, dd.has_next(), dd.number_of_points()
        v, err = guarded(ask, timeout=20)
        rows, exact = on(v[0], D) if err is None else ([], False)
        ev.append(dict(k="batch", m=m, p=p, a=a, b=b, req=r, rows=rows, exact=exact, more=bool(v[1]) if v else False, number=int(v[2]) if v else -1, raised=err is not None, exc=err or ""))
    return {"key": "portions", "ev": ev}


def points(kind, m, n):
    X, err = guarded(lambda: get_reference_directions("incremental" if kind == "inc" else "das-dennis", m, n_points=n), timeout=60)
    said = [int(x) for x in re.findall(r"= (\d+)", err or "")][1:5] if err else []
    return {"key": "points-" + kind, "ev": [dict(k="points", kind=kind, m=m, n=n, got=-1 if err else len(X), said=said if len(said) == 4 else [], raised=err is not None, exc=(err or "")[:80])]}


def method(key, m, n, make, seed=None, keep=False, corner=False, lex=True):
    """make() -> factory; two objects with the same seed"""
    def go():
        f = make()
        X = f.do(**({} if seed is None else dict(seed=seed)))
        Y = make().do(**({} if seed is None else dict(seed=seed)))
        Z = f.do(**({} if seed is None else dict(seed=seed)))      # asking the same object again
        return X, bool(np.array_equal(X, Y) and np.array_equal(X, Z))
    v, err = guarded(go, timeout=120)
    X, same = v if err is None else (np.zeros((0, m)), False)
    fin = bool(np.isfinite(X).all())
    d = len(np.unique(np.round(X, 9), axis=0))
    lexok = bool(lex) and np.array_equal(X, X[np.lexsort(X.T[::-1])])
    return {"key": key, "ev": [dict(k="method", m=m, n=n, U=U, rows=micro(X), finite=fin, same=same, lex=False, keep=keep, corner=corner, distinct=d, raised=err is not None, exc=err or ""),
                               dict(k="holds", ok=bool(lexok or not lex or err is not None), what="sorted")]}


def layers(m, ps):
    u = 10000
    def go():
        f, g = LayerEnergy(m, ps), LayerEnergy(m, ps)
        return f(), np.array(f.scalings, float), g()
    v, err = guarded(go, timeout=120)
    X, s, Y = v if err is None else (np.zeros((0, m)), np.zeros(len(ps)), None)
    return {"key": "layer-energy", "ev": [dict(k="layers", m=m, ps=ps, U=u, rows=micro(X, u), s=micro(s, u), same=bool(err is None and np.array_equal(X, Y)), raised=err is not None, exc=err or "")]}


def multi(m, L, style):
    D = m * int(np.lcm.reduce([max(p, 1) * b for p, a, b in L]))
    def go():
        fs = [UniformReferenceDirectionFactory(m, n_partitions=p, scaling=None if a == b else a / b) for p, a, b in L]
        if style == "arrays":
            return get_reference_directions("multi-layer", *[f() for f in fs])
        if style == "factories":
            return get_reference_directions("multi-layer", *fs)
        x = MultiLayerReferenceDirectionFactory(fs[0]())
        for f in fs[1:]:
            x.add_layer(f())
        return x.do()
    X, err = guarded(go, timeout=60)
    rows, exact = on(X, D) if err is None else ([], False)
    return {"key": "multi-layer-" + style, "ev": [dict(k="multi", m=m, layers=[dict(p=p, a=a, b=b, f=D // (max(p, 1) * m * b)) for p, a, b in L], rows=rows, exact=exact, raised=err is not None, exc=err or "")]}


def farthest(rng, X, n, init):
    def go():
        return [int(i) + 1 for i in select_points_with_maximum_distance(np.array(X, float), n, selected=None if not init else [i - 1 for i in init], random_state=rng)]
    s, err = guarded(go)
    return {"key": "farthest", "ev": [dict(k="farthest", X=X, n=n, init=init, sel=s or [], raised=err is not None, exc=err or "")]}


def history(task):
    L, seed = task
    rng = np.random.default_rng(seed)
    out = []
    for h in L:
        m, p, reqs = h["m"], h["p"], [-1 if r == 99 else r for r in h["hist"]]
        for a, b in ((1, 1), (1, 2)):
            if reqs:
                out.append(batch(m, p, a, b, reqs))
                continue
            sc = None if a == b else a / b
            if m > 1:
                out.append(lattice("das", m, p, a, b, lambda: get_reference_directions("das-dennis", m, n_partitions=p, scaling=sc)))
                out.append(lattice("das", m, p, a, b, lambda: UniformReferenceDirectionFactory(m, n_partitions=p, scaling=sc, lexsort=False).do(), lex=False))
                out.append(lattice("inc", m, p, a, b, lambda: get_reference_directions("incremental", m, n_partitions=p, scaling=sc)))
            else:
                out.append(lattice("das", m, p, 1, 1, lambda: get_reference_directions("uniform", m, n_partitions=p) * max(p, 1) / max(p, 1)))
    return out


def larger(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        m = int(rng.integers(2, 7))
        p = int(rng.integers(0, {2: 40, 3: 13, 4: 8, 5: 6, 6: 5}[m]))
        a, b = [(1, 1), (1, 1), (1, 2), (3, 4), (1, 10), (9, 10)][int(rng.integers(6))]
        sc = None if a == b else a / b
        out.append(lattice("das", m, p, a, b, lambda: get_reference_directions("das-dennis", m, n_partitions=p, scaling=sc)))
        q = min(p, {2: 12, 3: 8, 4: 5, 5: 3, 6: 2}[m])
        out.append(lattice("inc", m, q, a, b, lambda: IncrementalReferenceDirectionFactory(m, n_partitions=q, scaling=sc)()))
        reqs = [int(rng.integers(0, 9)) for _ in range(int(rng.integers(1, 8)))] + [-1]
        out.append(batch(m, min(p, 5), a, b, reqs))
        k = int(rng.integers(1, 4))
        L = [(int(rng.integers(0, 5 if m < 5 else 3)), *[(1, 1), (1, 2), (1, 4), (3, 4)][int(rng.integers(4))]) for _ in range(k)]
        out.append(multi(m, L, ["arrays", "factories", "added"][int(rng.integers(3))]))
        N = int(rng.integers(1, 15))
        X = rng.integers(0, 6, (N, int(rng.integers(1, 4)))).tolist() if rng.random() < .4 else rng.integers(0, 60, (N, int(rng.integers(1, 4)))).tolist()
        init = [] if rng.random() < .4 else [int(i) + 1 for i in rng.permutation(N)[:int(rng.integers(1, N + 1))]]
        out.append(farthest(np.random.default_rng(int(rng.integers(1000))), X, int(rng.integers(max(1, len(init)), N + 1)), init))
        Y = rng.integers(-60, 120, (5, m)) / 100
        Y[:, 0] += np.maximum(0, .3 - Y.sum(1))
        Y[0] = np.eye(m)[int(rng.integers(m))]
        Y[1] = rng.dirichlet(np.ones(m))
        Z, err = guarded(lambda: project_onto_unit_simplex_recursive(Y[[i for i in range(5) if (Y[i] < 0).any() or i < 2]].copy()))
        S = Y[[i for i in range(5) if (Y[i] < 0).any() or i < 2]]
        out.append({"key": "projection", "ev": [dict(k="project", m=m, U=U, src=micro(S), rows=micro(Z) if err is None else [], raised=err is not None, exc=err or "")]})
        for mp in ("sum", "kraemer"):
            N = int(rng.integers(1, 40))
            Z, err = guarded(lambda: sample_on_unit_simplex(N, m, unit_simplex_mapping=mp, seed=int(rng.integers(1000))))
            out.append({"key": "sample-" + mp, "ev": [dict(k="sample", m=m, U=U, n=N, rows=micro(Z) if err is None else [], raised=err is not None, exc=err or "")]})
    return out


def methods(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        m = int(rng.integers(2, 5))
        n = int(rng.integers(1, 16))
        s = [None, None, int(rng.integers(1, 99))][int(rng.integers(3))]
        sc = [{}, {}, dict(scaling=.5)][int(rng.integers(3))]
        lx = [{}, {}, dict(lexsort=False)][int(rng.integers(3))]
        ns = int(rng.choice([200, 1000]))
        kw = dict(**sc, **lx)
        nosc = not sc
        which = rng.permutation(7)[:3]
        for w in which:
            if w == 0:
                km = bool(rng.random() < .7)
                smp = ["kraemer", "sum"][int(rng.integers(2))]
                out.append(method("reduction", m, n, lambda: Reduction(m, n, n_sample_points=ns, kmeans=km, sampling=smp, **kw), s, keep=nosc, corner=nosc and km, lex=not lx))
            elif w == 1:
                out.append(method("construction", m, n, lambda: Construction(m, n, n_samples=30, gradient_descent=n < 8, **kw), s, corner=nosc, lex=not lx))
            elif w == 2:
                out.append(method("sample-and-map", m, n, lambda: RandomSamplingAndMap(m, n, **kw), s, corner=nosc, lex=not lx))
            elif w == 3:
                fr = bool(rng.random() < .5)
                smp = ["reduction", "construction"][int(rng.integers(2))]
                out.append(method("energy", m, n, lambda: Energy(m, n, n_max_iter=int(60), sampling=smp, freeze_edges=fr, **kw), s, keep=fr and smp == "reduction" and nosc, lex=not lx))
            elif w == 4 and n > m:
                X0 = rng.dirichlet(np.ones(m), size=n)
                out.append(method("energy-given", m, n, lambda: Energy(m, n, n_max_iter=40, X=X0.copy(), **kw), s, lex=not lx))
            elif w == 5 and m == 3:
                n0 = int(rng.integers(8, 20))
                def refs():
                    r = np.random.default_rng(7)
                    return [dict(coordinates=np.array(c), n_points=k, scale=v) for c, k, v in spec]
                spec = []
                for _ in range(int(rng.integers(1, 3))):
                    spec.append((rng.dirichlet(np.ones(3) * 5).tolist(), int(rng.integers(3, 7)), float(rng.choice([.1, .2]))))
                tot = n0 + sum(x[1] for x in spec)
                tr = method("energy-points", 3, tot, lambda: Energy(3, n0, n_max_iter=40, ref_points=refs(), **lx), s, lex=not lx)
                out.append(tr)
            elif w == 6 and n <= 6:
                out.append(method("genetic", m, n, lambda: ReferenceDirectionGA(m, n, lambda Z: float(-np.linalg.norm(Z[:, None] - Z[None], axis=2).sum()), pop_size=6, n_gen=3), s))
    return out


def fixed(task):
    out = []
    for m in (1, 2, 3):
        X, err = guarded(lambda: default_ref_dirs(m))
        out.append(lattice("das", m, {1: 1, 2: 99, 3: 12}[m], 1, 1, lambda: default_ref_dirs(m), key="-default"))
    _, err = guarded(lambda: default_ref_dirs(4))
    ok = [dict(k="holds", ok=err is not None, what="no default beyond three objectives")]
    _, err = guarded(lambda: get_reference_directions("nonsense", 3, n_partitions=2))
    ok.append(dict(k="holds", ok=err is not None, what="unknown method refused"))
    _, err = guarded(lambda: get_reference_directions("das-dennis", 3))
    ok.append(dict(k="holds", ok=err is not None, what="neither points nor partitions"))
    for nm in ("reduction", "construction"):
        _, err = guarded(lambda: Energy(3, 6, sampling="x")())
        ok.append(dict(k="holds", ok=err is not None, what="unknown sampling refused"))
    rng = np.random.default_rng(task)
    for m, p in ((2, 11), (3, 7), (4, 3)):
        X = rng.dirichlet(np.ones(m), size=5)
        v = [iterative_igd(X, n_partitions=p, batch_size=b) for b in (1, 3, 1000)]
        ok.append(dict(k="holds", ok=bool(np.ptp(v) < 1e-9), what="portions do not change the mean distance"))
    out.append({"key": "misc", "ev": ok})
    for m in range(2, 7):
        for n in range(1, 60 if m < 4 else 130):
            out.append(points("das", m, n))
            if n < (60 if m < 4 else 130) and m < 5:
                out.append(points("inc", m, n))
    out += [points("das", 1, 1), points("inc", 1, 1), points("das", 1, 2)]
    for m in (2, 3, 4, 5):
        for ps in ([1], [2], [3], [5], [2, 1], [3, 2], [4, 2, 1], [3, 1], [9, 5, 2, 1], [1, 1]) + (([2, 1, 0], [3, 2, 1, 0]) if m > 2 else ()):
            if m > 3 and sum(ps) > 8:
                continue
            out.append(layers(m, list(ps)))
    return out


F = {"h": history, "l": larger, "m": methods, "f": fixed}


def one(task):
    return F[task[0]](task[1])


def crash(task, why):
    return [{"key": "process", "ev": [dict(k="process ended: " + str(why))]}]


def main():
    c = Check("C20")
    rng = np.random.default_rng(SEED)
    H = []
    for M, P, R in ((3, 4, 6), (4, 3, 5)) if THOROUGH else ((3, 3, 5),):
        H += c.paths("MC_RefDirs", "SPECIFICATION Spec\nCONSTANTS M=%d P=%d Reqs={99,1,3} R=%d\nINVARIANT Once OnLattice Complete Counts RingForm Congruent Nested Admits EmitInv\nCHECK_DEADLOCK FALSE\n" % (M, P, R))
    c.notes["histories_from_tlc"] = len(H)
    tasks = [("f", 3)] + [("h", (H[i::8], 0)) for i in range(8)]
    tasks += [("l", (int(rng.integers(1 << 30)), 6)) for _ in range(200 if THOROUGH else 24)]
    tasks += [("m", (int(rng.integers(1 << 30)), 3)) for _ in range(160 if THOROUGH else 24)]
    tr = []
    for part in pmap(one, tasks, on_crash=crash):
        tr += part
    c.validate("RefTrace", tr)
    c.finish(rule="request histories and lattices enumerated by TLC (every dimension and partition up to the bound) replayed; lattices up to 6 objectives with scalings, multi-layer sets, n_points 1..59 / 1..129; every construction method with random settings and seeds; farthest-point subsets", exhaustive=False)


if __name__ == "__main__":
    main()
