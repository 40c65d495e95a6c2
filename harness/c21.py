"""C21: density measures, distances and scalarising functions against Density.tla / Kernels.tla (module DensTrace)."""
from runs import *
from math import lcm, isqrt
from functools import reduce
from pymoo.functions import load_function
from pymoo.operators.survival.rank_and_crowding import metrics
from pymoo.util import misc

INF = 2000000000
BAD = -1999999999


def exact(v, scale, tol=1e-7):
    """The integer v * scale, INF, or BAD if it is none."""
    v = float(v)
    if np.isnan(v):
        return BAD
    if np.isinf(v):
        return INF if v > 0 else BAD
    q = v * scale
    r = round(q)
    return int(r) if abs(q - r) <= tol * max(1.0, abs(q)) and abs(r) < INF else BAD


def uniq(F):
    out = []
    for f in F:
        if f not in out:
            out.append(f)
    return out


def scale_of(F):
    R = [max(c) - min(c) for c in zip(*F)]
    return reduce(lcm, [r for r in R if r > 0], 1)


def real(F, rng, plain=False):
    """The same table with every objective translated and positively scaled."""
    A = np.array(F, float)
    u = rng.random()
    if not plain and u < 0.3:        # units in which all the values are tiny or huge
        return A * 2.0 ** (int(rng.choice([-40, -30, 30, 40])) + rng.integers(-2, 3, A.shape[1]))
    if not plain and u < 0.85:
        A = A * 2.0 ** rng.integers(-4, 6, A.shape[1]) + rng.integers(-30, 30, A.shape[1])
    return A


def kernels():
    K = {}
    for n in ("pcd", "mnn", "2nn"):
        K[n + "/python"] = (n, True, load_function("calc_" + n, _type="python"))
        K[n + "/cython"] = (n, True, load_function("calc_" + n, _type="cython"))
        K[n + "/label"] = (n, False, metrics.get_crowding_function(n).do)
    K["pcd/alias"] = ("pcd", False, metrics.get_crowding_function("pruning-cd").do)
    K["cd/label"] = ("cd", False, metrics.get_crowding_function("cd").do)
    K["cd/kernel"] = ("cd", True, metrics.calc_crowding_distance)
    K["mnn/fast"] = ("mnn", True, lambda F, n_remove=0: metrics.calc_mnn_fast(F))
    K["2nn/fast"] = ("2nn", True, lambda F, n_remove=0: metrics.calc_2nn_fast(F))
    return K


def dens(task):
    name, cases, seed = task
    kind, raw, fn = kernels()[name]
    rng = np.random.default_rng(seed)
    ev = []
    for F in cases:
        F = [list(F[i]) for i in rng.permutation(len(F))]
        if raw and len(F) <= 2:
            continue
        if raw and kind != "cd":
            F = uniq(F)
            if name.endswith("/fast") and (len(F) <= len(F[0]) or len(F) <= 2):
                continue
            if len(F) <= 2:
                continue
        m = len(F[0])
        U = F if kind == "cd" else uniq(F)
        s = scale_of(U)
        if kind in ("mnn", "2nn"):
            nn = m if kind == "mnn" else 2
            if float(m * s * s) ** nn > 1.5e9:
                continue
            sc = s ** (2 * nn)
        else:
            sc = m * s
        r = 0 if (name.endswith("/fast") or kind == "cd" or rng.random() < 0.3) else int(rng.integers(0, len(F) + 1))
        A = real(F, rng)
        B = A.copy()
        d, err = guarded(lambda: fn(A, n_remove=r) if kind != "cd" else fn(A), timeout=20)
        if err:
            ev.append({"k": "raised", "exc": err, "F": F, "r": r})
            continue
        ev.append({"k": "dens", "kind": kind, "raw": raw, "F": F, "r": r, "scale": sc, "d": [exact(x, sc, 1e-6) for x in np.asarray(d, float).ravel()], "same": bool(np.array_equal(A, B))})
    return [{"key": "dens/" + name, "ev": ev[i:i + 150]} for i in range(0, len(ev), 150)]


def omni(task):
    cases, seed = task
    from pymoo.algorithms.moo.omni import calc_crowding_distance_in_space, BOUNDARY
    rng = np.random.default_rng(seed)
    ev = []
    for F in cases:
        F = [list(F[i]) for i in rng.permutation(len(F))]
        sc = len(F[0]) * scale_of(F)
        for space in ("objective", "variable"):
            d, err = guarded(lambda: calc_crowding_distance_in_space(real(F, rng), space=space))
            ev.append({"k": "raised", "exc": err} if err else {"k": "omni", "space": space, "F": F, "scale": sc, "d": [INF if v == BOUNDARY else exact(v, sc) for v in d]})
    return [{"key": "dens/omni", "ev": ev[i:i + 150]} for i in range(0, len(ev), 150)]


def codes(d):
    d = [round(float(x), 8) if np.isfinite(x) else float(x) for x in d]
    return [int(x) for x in Ranks(d)(d)]


def invariance(task):
    cases, seed = task
    from pymoo.algorithms.moo.omni import calc_omni_crowding_distance
    rng = np.random.default_rng(seed)
    ev = []
    for F in cases:
        F = uniq([list(f) for f in F])
        A = np.array(F, float)
        X = rng.integers(0, 20, (len(F), 2)).astype(float)
        S = real(F, rng)
        fs = {"ce": lambda Q: metrics.get_crowding_function("ce").do(Q)}
        fs["omni"] = lambda Q: calc_omni_crowding_distance(Q, X)
        fs["own"] = lambda Q: metrics.get_crowding_function(metrics.calc_crowding_distance).do(Q)
        for n, f in fs.items():
            r, err = guarded(lambda: (f(A), f(S)))
            ev.append({"k": "raised", "exc": err, "F": F, "fn": n} if err else {"k": "same", "fn": n, "F": F, "a": codes(r[0]), "b": codes(r[1])})
        if all(len(set(c)) == len(c) for c in zip(*F)):      # no ties: the order of the points does not matter either
            P = rng.permutation(len(F))
            for n in ("cd", "ce"):
                f = metrics.get_crowding_function(n).do
                r, err = guarded(lambda: (f(A)[P], f(A[P])))
                ev.append({"k": "raised", "exc": err, "F": F, "fn": n} if err else {"k": "same", "fn": n + "-order", "F": F, "a": codes(r[0]), "b": codes(r[1])})
    return [{"key": "invariance", "ev": ev[i:i + 150]} for i in range(0, len(ev), 150)]


def table(rng, n, m, v):
    return rng.integers(-v, v + 1, (n, m)).tolist()


def distances(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    ev = []
    twins = {"python": load_function("calc_perpendicular_distance", _type="python"), "cython": load_function("calc_perpendicular_distance", _type="cython")}
    import pymoo.functions.compiled.decomposition as cd
    twins["decomposition"] = cd.calc_perpendicular_distance
    d12 = {"python": load_function("calc_distance_to_weights", _type="python"), "cython": load_function("calc_distance_to_weights", _type="cython")}
    import pymoo.decomposition.util as du
    d12["util"] = du.calc_distance_to_weights
    F = {"euclid2": misc.func_euclidean_distance, "manhattan": misc.func_manhatten_distance, "tcheby": misc.func_tchebychev_distance}
    N = {"euclid2": misc.norm_eucl_dist_by_bounds, "manhattan": misc.norm_manhatten_dist_by_bounds, "tcheby": misc.norm_tchebychev_dist_by_bounds}
    for _ in range(n):
        m = int(rng.integers(1, 5))
        A, B = table(rng, int(rng.integers(1, 5)), m, 6), table(rng, int(rng.integers(1, 5)), m, 6)
        a, b = np.array(A, float), np.array(B, float)

        def dist(kind, diag, fn, tag):
            D, err = guarded(fn)
            if err:
                return {"k": "raised", "exc": err, "tag": tag}
            D = np.asarray(D, float).reshape(len(A), -1)
            return {"k": "dist", "kind": kind, "tag": tag, "A": A, "B": B, "diag": diag, "D": [[exact(v * v if kind == "euclid2" else v, 1) for v in r] for r in D]}
        for kind in F:
            ev.append(dist(kind, False, lambda: misc.vectorized_cdist(a, b, func_dist=F[kind]), "vectorized"))
            xl = rng.integers(-5, 5, m).astype(float)
            w = 2.0 ** rng.integers(-3, 4, m)
            # normalised by the bounds: the same points in other units
            ev.append(dist(kind, False, lambda: N[kind](a * w + xl, b * w + xl, xl, xl + w), "normalised"))
        ev.append(dist("euclid2", False, lambda: misc.cdist(a, b), "cdist"))
        ev.append(dist("euclid2", True, lambda: misc.vectorized_cdist(a, b, fill_diag_with_inf=True), "diagonal"))
        W = [w for w in table(rng, len(A), m, 5)]
        for w in W:
            if not any(w):
                w[0] = 1
        w = np.array(W, float)
        for tag, fn in twins.items():
            D, err = guarded(fn, a, w)
            ev.append({"k": "raised", "exc": err, "tag": tag} if err else {"k": "perp", "tag": tag, "A": A, "B": W, "D": [[exact(v * v * sum(x * x for x in W[j]), 1, 1e-6) for j, v in enumerate(r)] for r in D]})
        for tag, fn in d12.items():
            for u in (None, rng.integers(-3, 4, m)):
                r, err = guarded(lambda: fn(a, w, None if u is None else u.astype(float)))
                ev.append({"k": "raised", "exc": err, "tag": tag} if err else
                          {"k": "d12", "tag": tag, "F": A, "W": W, "u": [0] * m if u is None else u.tolist(),
                           "d1": [exact(np.sign(v) * v * v * sum(x * x for x in W[i]), 1, 1e-6) for i, v in enumerate(r[0])],
                           "d2": [exact(v * v * sum(x * x for x in W[i]), 1, 1e-6) for i, v in enumerate(r[1])]})
        # duplicates
        T = rng.integers(0, 3, (int(rng.integers(1, 7)), m)).tolist()
        r, err = guarded(lambda: misc.find_duplicates(np.array(T, float), epsilon=1e-32))
        ev.append({"k": "raised", "exc": err} if err else {"k": "dups", "F": T, "R": [int(i) + 1 for i in np.where(r)[0]]})
        r, err = guarded(lambda: misc.get_duplicates(np.array(T, float)))
        ev.append({"k": "raised", "exc": err} if err else {"k": "groups", "F": T, "G": [[int(i) + 1 for i in g] for g in r]})
    return [{"key": "kernels", "ev": ev[i:i + 150]} for i in range(0, len(ev), 150)]


# weights with an integer length, and vectors orthogonal to them of the same length
PBI = [((3, 4), (4, -3)), ((4, 3), (-3, 4)), ((1, 0), (0, 1)), ((0, 5), (5, 0)), ((5, 12), (12, -5)), ((1, 2, 2), (2, -2, 1)), ((1, 2, 2), (-2, -1, 2)), ((2, 3, 6), (6, 2, -3)), ((2, 3, 6), (3, -6, 2)), ((1,), (0,))]


def scalars(task):
    seed, n = task
    from pymoo.decomposition.weighted_sum import WeightedSum
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.pbi import PBI as Pbi
    from pymoo.decomposition.perp_dist import PerpendicularDistance
    import pymoo.functions.compiled.decomposition as cdec
    M = {"ws": WeightedSum, "tcheby": Tchebicheff, "asf": ASF, "aasf": lambda: AASF(eps=0.0, rho=0.25), "pbi": Pbi, "perp": PerpendicularDistance}
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        for meth, f in M.items():
            m = int(rng.integers(1, 4))
            nf, nw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            ty = str(rng.choice(["auto", "one_to_one", "one_to_many", "many_to_one", "many_to_many"], p=[0.6, 0.1, 0.1, 0.1, 0.1]))
            if ty == "one_to_one":
                nw = nf
            elif ty == "one_to_many":
                nf = 1
            elif ty == "many_to_one":
                nw = 1
            if m == 1 and ty == "auto" and (nf > 1 or nw > 1):
                m = 2
            u = rng.integers(-3, 3, m) if rng.random() < 0.6 else np.zeros(m, int)
            if meth == "pbi":
                opts = [(w, v) for w, v in PBI if len(w) == m]
                w0, v0 = opts[int(rng.integers(len(opts)))]
                W = [list(w0)] * nw
                F = [[int(a * x + b * y + z) for x, y, z in zip(w0, v0, u)] for a, b in rng.integers(-3, 4, (nf, 2))]
            else:
                W = rng.integers(1, 7, (nw, m)).tolist()
                F = (rng.integers(0, 7, (nf, m)) + u).tolist()
                if meth in ("asf", "aasf") and rng.random() < 0.3 and m > 1:
                    W[0][0] = 0
                if meth in ("ws", "tcheby", "perp"):
                    F = table(rng, nf, m, 6)
                    if rng.random() < 0.3 and m > 1:
                        W[0][0] = 0
                if meth == "ws" or meth == "perp":
                    u = np.zeros(m, int)
            how = int(rng.integers(3))
            kw = {}
            if u.any() or how:
                if how == 1:
                    kw["ideal_point"] = u.astype(float)
                else:
                    kw["utopian_point"] = u.astype(float)
            fa, wa = np.array(F, float), np.array(W, float)
            if ty == "auto" and nf == 1 and rng.random() < 0.5:
                fa = fa[0]
            if ty == "auto" and nw == 1 and rng.random() < 0.5:
                wa = wa[0]
            r, err = guarded(lambda: f().do(fa, wa, _type=ty, **kw))
            if err:
                ev.append({"k": "raised", "exc": err, "method": meth, "type": ty, "F": F, "W": W})
                continue
            r = np.asarray(r, float)
            shape = list(r.shape)
            kind = ty if ty != "auto" else "one_to_many" if nf == 1 and nw > 1 else "many_to_one" if nf > 1 and nw == 1 else "one_to_one" if nf == nw and nf > 1 else "many_to_many"
            ww = {"one_to_one": W, "one_to_many": W, "many_to_one": W * nf, "many_to_many": W * nf}[kind]
            sc = []
            for w in ww:
                L = reduce(lcm, [x for x in w if x > 0], 1)
                q = sum(x * x for x in w)
                sc.append({"ws": 1, "tcheby": 1, "asf": L, "aasf": 4 * L, "pbi": isqrt(q), "perp": q}[meth])
            v = [exact(min(x * x if meth == "perp" else x, 1e300) * s, 1, 1e-6) if x < 1e7 else INF for x, s in zip(r.ravel(), sc)]
            ev.append({"k": "scal", "method": meth, "type": ty, "F": F, "W": W, "u": u.tolist(), "shape": shape, "scale": sc[:r.size], "v": v})
            if meth == "pbi" and kind == "many_to_one":
                r, err = guarded(lambda: cdec.pbi(fa, np.array(W * nf, float), u.astype(float), 5.0, 0.0))
                ev.append({"k": "raised", "exc": err, "method": "pbi-kernel"} if err else
                          {"k": "scal", "method": "pbi", "type": kind, "F": F, "W": W, "u": u.tolist(), "shape": list(r.shape), "scale": sc, "v": [exact(x * s, 1, 1e-6) for x, s in zip(r, sc)]})
    return [{"key": "scalar", "ev": ev[i:i + 150]} for i in range(0, len(ev), 150)]


def crash(name):
    return lambda t, why: [{"key": name, "ev": [{"k": "raised", "exc": why, "task": str(t)[:60]}]}]


def main():
    c = Check("C21")
    rng = np.random.default_rng(SEED)
    cases = []
    for n, m, v in [(5, 2, 2), (4, 3, 1), (5, 1, 3), (2, 2, 1), (3, 2, 2)] + ([(6, 2, 2), (5, 3, 1)] if THOROUGH else []):
        out = c.model_check("MC_Density", "SPECIFICATION Spec\nCONSTANTS N=%d M=%d MaxVal=%d\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (n, m, v))
        cases += [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"CASE ')]
    c.notes["tables_from_tlc"] = len(cases)
    lim = 4000 if THOROUGH else 500
    T = []
    for name in kernels():
        L = [cases[i] for i in rng.permutation(len(cases))[:lim]]
        for _ in range(lim):
            m = int(rng.choice([1, 2, 2, 3]))
            n, v = int(rng.integers(3, 9)), {1: 9, 2: 6, 3: 3}[m]
            F = rng.integers(0, v + 1, (n, m))
            if rng.random() < 0.5 and m == 2:
                F[:, 1] = (v - F[:, 0]) if rng.random() < 0.5 else np.clip((v - F[:, 0]) + rng.integers(0, 2, n), 0, v)
            if rng.random() < 0.15:
                F[:, 0] = F[0, 0]
            L.append(F.tolist())
        T += [(name, L[i::2], int(rng.integers(1 << 30))) for i in range(2)]
    T.sort(key=lambda t: 0)
    tr = [x for L in pmap(dens, T, on_crash=lambda t, w: crash("dens/" + t[0])(t, w)) for x in L]
    big = [t for t in T if t[0] in ("cd/label", "pcd/label")]
    tr += [x for L in pmap(omni, [(t[1], t[2]) for t in big], on_crash=crash("dens/omni")) for x in L]
    tr += [x for L in pmap(invariance, [(t[1], t[2]) for t in big], on_crash=crash("invariance")) for x in L]
    c.validate("DensTrace", tr)
    k = 400 if THOROUGH else 60
    tr = [x for L in pmap(distances, [(int(rng.integers(1 << 30)), k) for _ in range(8)], on_crash=crash("kernels")) for x in L]
    tr += [x for L in pmap(scalars, [(int(rng.integers(1 << 30)), k * 2) for _ in range(8)], on_crash=crash("scalar")) for x in L]
    c.validate("DensTrace", tr)
    c.finish(rule="tables enumerated by MC_Density and larger random ones through every density measure and implementation; distance and scalarising kernels on integer data", exhaustive=False)


if __name__ == "__main__":
    main()
