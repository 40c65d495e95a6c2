"""Library problems with a declared optimum, solutions which should attain it, and a search from them (used by C27)."""
import numpy as np


def pos(rng, p, n, k):
    Z = rng.random((n, k))
    Z = np.where(rng.random((n, k)) < 0.15, np.round(Z), Z)
    return p.xl[:k] + (p.xu[:k] - p.xl[:k]) * Z


def k_of(p):
    return max(1, p.n_obj - 1)


def c_const(v):
    def f(p, X, rng):
        X[:, k_of(p):] = v
        return X
    return f


def c_c3(p, X, rng):
    """the front lies on a constraint: one distance variable brings the solution there"""
    X[:, k_of(p):] = 0.5
    X[:, k_of(p)] += rng.random(len(X)) * 0.5
    return X


def c_mw(p, X, rng):
    d, m = p.n_var, p.n_obj
    i = np.arange(m - 1, d)
    for r in range(len(X)):
        kind = rng.integers(3)
        if kind == 0:
            X[r, m - 1:] = (0.5 + i / (2 * d)) ** (1.0 / (d - m))
        elif kind == 1:
            X[r, m - 1:] = i / d
        else:
            for j in range(m - 1, d):
                X[r, j] = 1 - (X[r, j - 1] - 0.5) ** 2
        if rng.random() < 0.5:
            X[r, rng.integers(m - 1, d)] = rng.random()
    return np.clip(X, p.xl, p.xu)


def c_df(p, X, rng):
    """the distance part is zero: derived from the definition of g of each problem"""
    name, t = type(p).__name__, p.time
    N = p.n_var
    s = np.sin(0.5 * np.pi * t)
    x0 = X[:, [0]]
    if name == "DF1":
        X[:, 1:] = abs(s)
    elif name == "DF2":
        r = int((N - 1) * abs(s))
        q = X[:, r].copy()
        X[:] = abs(s)
        X[:, r] = q
    elif name == "DF3":
        X[:, 1:] = s + x0 ** (s + 1.5)
    elif name == "DF4":
        c = max(abs(s), s + 1 + abs(np.cos(0.5 * np.pi * t)))
        for i in range(1, N):
            X[:, i] = s * (X[:, 0] / c) ** 2 / (i + 1)
    elif name in ("DF5", "DF6"):
        X[:, 1:] = s
    elif name == "DF7":
        X[:, 1:] = 1 / (1 + np.exp(5 * np.cos(0.5 * np.pi * t) * (x0 - 2.5)))
    elif name == "DF8":
        X[:, 1:] = s * np.sin(4 * np.pi * x0) / (1 + abs(s))
    elif name == "DF9":
        for i in range(1, N):
            X[:, i] = np.cos(4 * t + X[:, 0] + X[:, i - 1])
    elif name == "DF10":
        X[:, 2:] = np.sin(4 * np.pi * (x0 + X[:, [1]])) / (1 + abs(s))
    elif name == "DF11":
        X[:, 2:] = 0.5 * abs(s) * x0
    elif name == "DF12":
        X[:, 2:] = np.sin(t * x0)
    else:
        X[:, 2:] = s
    return X


def w_zdt5(p, rng, n):
    X = np.ones((n, p.n_var), dtype=bool)
    for i in range(n):
        X[i, :30] = rng.permutation(30) < rng.integers(0, 31)
    return X


def w_set(p, rng, n):
    ps = np.atleast_2d(np.asarray(p.pareto_set(), float))
    I = rng.integers(0, len(ps), n)
    Z = ps[I] + rng.normal(size=(n, p.n_var)) * (p.xu - p.xl) * 10.0 ** rng.integers(-7, -1, (n, 1)) * (rng.random((n, 1)) < 0.7)
    return np.clip(Z, p.xl, p.xu)


class By:
    """solutions whose position part is free and whose distance part is completed"""
    def __init__(self, complete, power=1.0):
        self.complete, self.power = complete, power

    def __call__(self, p, rng, n):
        Z = rng.random((n, p.n_var))
        Z = np.where(rng.random(Z.shape) < 0.15, np.round(Z), Z)
        if self.power != 1.0:              # half of the solutions near the other end of a biased scale
            Z = Z ** np.where(rng.random((n, 1)) < 0.5, self.power, rng.choice([0.003, 0.01, 0.03], (n, 1)))
        return self.complete(p, p.xl + (p.xu - p.xl) * Z, rng)


def w_any(p, rng, n):
    return pos(rng, p, n, p.n_var)


def i_sphere(alpha, power=None):
    """the solutions whose objectives are a given point of a sphere, the distance shared by the distance variables"""
    def f(p, T):
        if power is not None:
            T = T ** (1.0 / power(p.n_obj))
        m, n = p.n_obj, len(T)
        X = np.full((n, p.n_var), 0.5)
        for j in range(m - 1):
            rest = np.sqrt((T[:, :m - 1 - j] ** 2).sum(axis=1))
            X[:, j] = (np.arctan2(T[:, m - 1 - j], rest) * 2 / np.pi) ** (1.0 / alpha)
        g = np.maximum(np.sqrt((T ** 2).sum(axis=1)) - 1, 0) * (1 + 1e-9)
        X[:, m - 1:] += np.sqrt(g / (p.n_var - m + 1))[:, None]
        return X
    return f


def values(p, X):
    """objectives and violation (equalities may be missed by 1e-4, inequalities by 5e-5, rounded constants of the literature)"""
    o = p.evaluate(X, return_as_dictionary=True)
    F = np.asarray(o["F"], float).reshape(len(X), -1)
    cv = np.zeros(len(X))
    if p.n_ieq_constr:
        cv += np.maximum(np.asarray(o["G"], float) - 5e-5, 0).sum(axis=1)
    if p.n_eq_constr:
        cv += np.maximum(np.abs(np.asarray(o["H"], float)) - 1.001e-4, 0).sum(axis=1)
    cv[~np.isfinite(F).all(axis=1) | ~np.isfinite(cv)] = 1e30
    return np.where(np.isfinite(F), F, 1e30), cv


def achieve(p, targets, sc, witness, rng, n_pop=48, n_gen=220, inv=None):
    """for each target: the feasible solution with the least worst-case excess over it"""
    complete = getattr(witness, "complete", None)
    W = witness(p, rng, 1200)
    isb = p.vtype is bool
    R = w_any(p, rng, 300)
    if isb:
        R = R > 0.5
    W = np.concatenate([W, R])
    if inv is not None:
        W = np.concatenate([W, np.clip(inv(p, np.asarray(targets, float)), p.xl, p.xu)])
    F, cv = values(p, W)
    nt = len(targets)
    a = lambda F, T: ((F - T) / sc).max(axis=-1)
    P, PF, PC, PA = [], [], [], []
    for T in targets:
        v = a(F, T)
        I = np.lexsort((v, cv))[:n_pop]
        P.append(W[I]); PF.append(F[I]); PC.append(cv[I]); PA.append(v[I])
    P, PF, PC, PA = np.array(P), np.array(PF), np.array(PC), np.array(PA)
    if isb:
        n_gen = 0
    for g in range(n_gen):
        i = rng.integers(0, n_pop, (3, nt, n_pop))
        r = np.arange(nt)[:, None]
        best = P[:, [0]]
        s = rng.choice([0.3, 0.6, 0.9], (nt, n_pop, 1))
        D = P + s * (best - P) * (rng.random((nt, n_pop, 1)) < 0.5) + s * (P[r, i[1]] - P[r, i[2]])
        D = np.where(rng.random(D.shape) < rng.choice([0.15, 0.9], (nt, n_pop, 1)), D, P)
        if g % 3 == 2:
            D = best + rng.normal(size=D.shape) * (p.xu - p.xl) * 10.0 ** rng.uniform(-8, -2, (nt, n_pop, 1)) * (rng.random(D.shape) < 0.3)
        D = np.clip(D, p.xl, p.xu)
        if complete is not None:
            C = complete(p, D.reshape(-1, p.n_var).copy(), rng).reshape(D.shape)
            D = np.where(rng.random((nt, n_pop, 1)) < 0.6, C, D)
        F, cv = values(p, D.reshape(-1, p.n_var))
        F, cv = F.reshape(nt, n_pop, -1), cv.reshape(nt, n_pop)
        v = a(F, np.array(targets)[:, None, :])
        up = (cv < PC) | ((cv == PC) & (v < PA))
        P[up], PF[up], PC[up], PA[up] = D[up], F[up], cv[up], v[up]
        for k in range(nt):
            J = np.lexsort((PA[k], PC[k]))
            P[k], PF[k], PC[k], PA[k] = P[k][J], PF[k][J], PC[k][J], PA[k][J]
    return P[:, 0], PF[:, 0], PC[:, 0], PA[:, 0]


def catalogue():
    """name -> (constructor, witness, times)"""
    from pymoo.problems import get_problem
    import pymoo.problems.multi.mw as MW
    import pymoo.problems.dynamic.df as DF
    from pymoo.problems.multi.sympart import SYMPART, SYMPARTRotated
    from pymoo.problems.multi.omnitest import OmniTest
    C = {}

    def put(name, make, w, **kw):
        C[name] = dict(make=make, w=w, **kw)
    for k in (1, 2, 3, 4, 6):
        for n in (30 if k < 4 else 10, 5):
            put("zdt%d/%d" % (k, n), lambda k=k, n=n: get_problem("zdt%d" % k, n_var=n), By(c_const(0.0)))
    put("zdt5", lambda: get_problem("zdt5"), w_zdt5)
    for k, w in ((1, By(c_const(0.5))), (2, By(c_const(0.5))), (3, By(c_const(0.5))), (4, By(c_const(0.5), 0.01))):
        for m in (2, 3):
            put("dtlz%d/%d" % (k, m), lambda k=k, m=m: get_problem("dtlz%d" % k, n_var=m + 4, n_obj=m), w, inv=None if k == 1 else i_sphere(100.0 if k == 4 else 1.0))
    for nm, w in (("c1dtlz1", By(c_const(0.5))), ("c1dtlz3", By(c_const(0.5))), ("c2dtlz2", By(c_const(0.5))), ("c3dtlz4", By(c_c3, 0.01)), ("sdtlz1", By(c_const(0.5)))):
        put(nm, lambda nm=nm: get_problem(nm), w, inv=i_sphere(100.0) if nm == "c3dtlz4" else i_sphere(1.0) if nm == "c2dtlz2" else None)
    for nm, w in (("convex_dtlz2", By(c_const(0.5))), ("convex_dtlz4", By(c_const(0.5), 0.01))):
        put(nm, lambda nm=nm: get_problem(nm), w, dirs=True, inv=i_sphere(100.0 if nm[-1] == "4" else 1.0, lambda m: np.array([4.0] * (m - 1) + [2.0])))
    for k in (1, 2, 3, 4, 6, 8, 12):
        put("mw%d" % k, lambda k=k: getattr(MW, "MW%d" % k)(), By(c_mw), dirs=k in (1, 2, 3, 12))
    for k in range(1, 15):
        for t in (0.0, 0.1, 0.3, 0.5, 0.7, 1.2, 1.6):
            put("df%d/%.1f" % (k, t), lambda k=k, t=t: getattr(DF, "DF%d" % k)(time=t), By(c_df))
    for k in range(1, 10):
        for m in (2, 3):
            put("wfg%d/%d" % (k, m), lambda k=k, m=m: get_problem("wfg%d" % k, n_var=10, n_obj=m), w_set, rough=True)
    put("sympart", lambda: SYMPART(), w_set)
    put("sympart_rotated", lambda: SYMPARTRotated(), w_set)
    for n in (2, 3):
        put("omnitest/%d" % n, lambda n=n: OmniTest(n_var=n), w_set)
    put("bnh", lambda: get_problem("bnh"), w_any)
    put("srn", lambda: get_problem("srn"), w_set)
    put("truss2d", lambda: get_problem("truss2d"), w_any)
    for nm in "ackley griewank rastrigin rosenbrock schwefel zakharov sphere".split():
        for n in (2, 5):
            put("%s/%d" % (nm, n), lambda nm=nm, n=n: get_problem(nm, n_var=n), w_set)
    for nm in ["himmelblau", "cantilevered_beam", "pressure_vessel"]:
        put(nm, lambda nm=nm: get_problem(nm), w_set)
    for k in range(1, 25):
        if k != 20:                    # no feasible solution is known
            put("g%d" % k, lambda k=k: get_problem("g%d" % k), w_set)
    return C
