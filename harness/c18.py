"""C18: variation operators. Recomb.tla (modules MC_Recomb, RecTrace)."""
from common import *
import_repo()
import copy as _copy
import numpy as np
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.variable import Real, Integer, Binary, Choice
import zoo
import runs

O = zoo.O


class Ids(dict):
    """small integers for values"""

    def __call__(self, v):
        return self.setdefault(v, len(self))

# crossover -> (factory(**kw), definition, number of cuts, offspring)
EXCHANGE = {
    "ux": (lambda **k: O("crossover.ux", "UX")(**k), "uniform", 0, 2),
    "hux": (lambda **k: O("crossover.hux", "HUX")(**k), "half", 0, 2),
    "spx": (lambda **k: O("crossover.spx", "SPX")(**k), "points", 1, 2),
    "single": (lambda **k: O("crossover.pntx", "SinglePointCrossover")(**k), "points", 1, 2),
    "two": (lambda **k: O("crossover.pntx", "TwoPointCrossover")(**k), "points", 2, 2),
    "three": (lambda **k: O("crossover.pntx", "PointCrossover")(n_points=3, **k), "points", 3, 2),
    "four": (lambda **k: O("crossover.pntx", "PointCrossover")(n_points=4, **k), "points", 4, 2),
    "exp": (lambda **k: O("crossover.expx", "ExponentialCrossover")(**k), "arc", 0, 2),
    "bx": (lambda **k: O("crossover.binx", "BX")(**k), "binomial", 0, 2),
    "bx1": (lambda **k: O("crossover.binx", "BX")(n_offsprings=1, bias=0.4, **k), "binomial", 0, 1),
}
ORDER = {"ox": lambda **k: O("crossover.ox", "OrderCrossover")(**k), "ox-shift": lambda **k: O("crossover.ox", "OrderCrossover")(shift=True, **k), "erx": lambda **k: O("crossover.erx", "ERX")(**k)}


def dtype_rows(rows, kind):
    A = np.array(rows)
    return {"int": A, "float": A.astype(float), "bool": A.astype(bool), "obj": A.astype(object)}[kind]


def ints(X, kind=None):
    """rows as integers; what is not one of the codes becomes -99"""
    f = lambda v: int(v) if v is not None and np.isreal(v) and float(v) == int(v) and abs(v) < 10**6 else -99
    return [[f(v) for v in r] for r in np.atleast_2d(np.array(X, dtype=object))]


def problem(n, lo=-10, hi=50, **k):
    return Problem(n_var=n, n_obj=1, xl=lo, xu=hi, **k)


def cross(op, prob, mates, seed, how="list", kw=None):
    """mates: list of matings, each a list of rows (arrays). -> offspring rows per mating, parents intact"""
    P = [[Individual(X=np.array(r)) for r in m] for m in mates]
    flat = Population.create(*[i for m in P for i in m])
    npar = len(P[0])
    rs = np.random.default_rng(seed)
    if how == "list":
        call = lambda: op.do(prob, P, random_state=rs)
    elif how == "call":
        call = lambda: op(prob, P, random_state=rs)
    else:
        idx = np.arange(len(flat)).reshape(-1, npar)
        call = lambda: op.do(prob, flat, parents=idx, random_state=rs)
    off, err = guarded(call, timeout=30)
    intact = all(np.array_equal(np.asarray(i.X), np.asarray(r)) for m, M in zip(P, mates) for i, r in zip(m, M))
    if err is None:
        own = {id(i) for i in flat}
        intact = intact and not any(id(i) in own or any(np.shares_memory(i.X, j.X) for j in flat if isinstance(j.X, np.ndarray) and j.X.dtype != object) for i in (off if len(flat) < 50 else off[:4]))
        n = len(mates)
        X = [i.X for i in off]
        rows = [[X[o * n + k] for o in range(len(X) // n)] for k in range(n)]
        if len(X) != op.n_offsprings * n:
            rows = [[[]]] * n
        return rows, intact, None
    return [[[]]] * len(mates), intact, err


def crossed(key, k, cx, prob, mates, seed, how="list", kind="int", **extra):
    rows, intact, err = cross(cx, prob, [[r for r in dtype_rows(m, kind)] for m in mates], seed, how)
    return {"key": key, "ev": [dict(k=k, par=ints(m), off=[ints(r)[0] if len(r) else [] for r in rs], parents=bool(intact), raised=err is not None, exc=err or "", **extra) for m, rs in zip(mates, rows)]}


def replay(task):
    """parents enumerated by TLC through every operator they fit"""
    L, seed = task
    out = []
    by = {}
    for h in L:
        by.setdefault((h["kind"], len(h["p"])), []).append([h["p"], h["q"]])
    for (kind, n), mates in by.items():
        pr = problem(n)
        if kind == "genes":
            for name, (f, d, pts, no) in EXCHANGE.items():
                dt = "float" if name in ("ux", "bx1") else "int"
                out.append(crossed("tlc-" + name, "exchange", f(prob=1.0), pr, mates, seed, how=["list", "call", "parents"][seed % 3], kind=dt, op=d, points=pts, noff=no))
                if all(max(m[0] + m[1]) < 2 for m in mates[:1]):
                    B = [m for m in mates if max(m[0] + m[1]) < 2]
                    out.append(crossed("tlc-bool-" + name, "exchange", f(prob=1.0), pr, B, seed, kind="bool", op=d, points=pts, noff=no))
        else:
            for name, f in ORDER.items():
                for s in range(3):
                    out.append(crossed("tlc-" + name, "erx" if name == "erx" else "ox", f(prob=1.0), pr, mates, seed + s, shift=name == "ox-shift"))
    return out


def cover(task):
    """many draws for the same parents"""
    seed, full = task
    out = []
    rng = np.random.default_rng(seed)
    for n in ((1, 2, 3, 4, 5) if full else (2, 4)):
        p, q = list(range(n)), list(range(10, 10 + n))
        if rng.random() < 0.5 and n > 2:
            q[1] = p[1]
        R = 3000 if n < 5 else 12000
        for name, (f, d, pts, no) in EXCHANGE.items():
            if name == "exp" and n == 5:
                R = 12000
            rows, intact, err = cross(f(prob=1.0), problem(n), [[np.array(p), np.array(q)]] * R, seed)
            seen = sorted({tuple(tuple(ints(r)[0]) for r in rs) for rs in rows}) if err is None else []
            out.append({"key": "cover-" + name, "ev": [dict(k="cover", par=[p, q], seen=seen, op=d, points=pts, noff=no, parents=bool(intact), raised=err is not None, exc=err or "")]})
        q = [int(x) for x in rng.permutation(n)]
        for name in ("ox", "ox-shift"):
            rows, intact, err = cross(ORDER[name](prob=1.0), problem(n), [[np.array(p), np.array(q)]] * 600, seed)
            seen = sorted({tuple(tuple(ints(r)[0]) for r in rs) for rs in rows}) if err is None else []
            out.append({"key": "cover-" + name, "ev": [dict(k="oxcover", par=[p, q], seen=seen, shift=name == "ox-shift", parents=bool(intact), raised=err is not None, exc=err or "")]})
    return out


def randoms(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        nv = int(rng.choice([1, 2, 3, 6, 7, 12]))
        nm = int(rng.choice([1, 2, 5, 8]))
        s = int(rng.integers(1 << 30))
        pr = problem(nv)
        how = str(rng.choice(["list", "call", "parents"]))
        # long rows; all genes different, or few
        for name, (f, d, pts, no) in EXCHANGE.items():
            distinct = rng.random() < 0.6
            mates = [[rng.permutation(20)[:nv].tolist(), (20 + rng.permutation(20)[:nv]).tolist()] if distinct else rng.integers(0, 3, (2, nv)).tolist() for _ in range(nm)]
            out.append(crossed("rnd-" + name, "exchange", f(prob=1.0), pr, mates, s, how, kind=str(rng.choice(["int", "float", "obj"])), op=d, points=pts, noff=no))
            out.append(never(name, f(prob=0.0), pr, mates, s, how))
            out.append(crossed("half-" + name, "exchange", f(prob=0.5), pr, mates * 2, s, how, op=d, points=pts, noff=no, half=True))
        # orders over arbitrary labels
        lab = rng.permutation(30)[:nv]
        mates = [[rng.permutation(lab).tolist(), rng.permutation(lab).tolist()] for _ in range(nm)]
        for name, f in ORDER.items():
            out.append(crossed("rnd-" + name, "erx" if name == "erx" else "ox", f(prob=1.0), pr, mates, s, how, shift=name == "ox-shift"))
            out.append(never(name, f(prob=0.0), pr, mates, s, how))
            out.append(crossed("half-" + name, "erx" if name == "erx" else "ox", f(prob=0.5), pr, mates * 2, s, how, shift=name == "ox-shift", noff=1 if name == "erx" else 2, half=True))
        # several parents, not applied
        for npar, noff in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 5)):
            cl = O("crossover.nox", "NoCrossover")
            M = [rng.integers(0, 4, (npar, nv)).tolist() for _ in range(nm)]
            out.append(never("none-%d-%d" % (npar, noff), cl(n_parents=npar, n_offsprings=noff), pr, M, s, how, by_mating=True))
        for npar, noff in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 5), (3, 7)):
            M = [rng.integers(0, 4, (npar, nv)).tolist() for _ in range(nm)]
            out.append(never("base-%d-%d" % (npar, noff), runs_crossover(npar, noff), pr, M, s, how))
        out += arith(rng, s, how)
        out += mutations(rng, s)
        out += mixed(rng, s)
    return out


def runs_crossover(npar, noff):
    from pymoo.core.crossover import Crossover

    class Mine(Crossover):
        def _do(self, problem, X, *a, random_state=None, **k):
            return np.full((self.n_offsprings,) + X.shape[1:], -7)
    return Mine(npar, noff, prob=0.0)


def never(name, op, pr, mates, s, how, by_mating=False):
    """probability zero"""
    if by_mating:       # offspring of one mating after the other
        P = [[Individual(X=np.array(r)) for r in m] for m in mates]
        flat = Population.create(*[i for m in P for i in m])
        rs = np.random.default_rng(s)
        idx = np.arange(len(flat)).reshape(len(P), -1)
        off, err = guarded(lambda: op.do(pr, flat, parents=idx, random_state=rs) if how == "parents" else op(pr, P, random_state=rs))
        no = op.n_offsprings
        X = [i.X for i in off] if err is None else []
        own = {id(i) for i in flat}
        intact = err is not None or not any(id(i) in own or any(np.shares_memory(i.X, j.X) for j in flat) for i in off)
        rows = [X[k * no:(k + 1) * no] for k in range(len(P))] if len(X) == no * len(P) else [[]] * len(P)
        return {"key": "never-" + name, "ev": [dict(k="copies", par=ints(m), off=[ints(r)[0] for r in rw], noff=no, parents=bool(intact), raised=err is not None, exc=err or "") for m, rw in zip(mates, rows)]}
    t = crossed("never-" + name, "copies", op, pr, mates, s, how, noff=op.n_offsprings)
    return t


def arith(rng, s, how):
    """real-valued crossovers: equal genes, identical parents, probability zero"""
    out = []
    nv, nm = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    hi = np.where(rng.random(nv) < 0.2, 0, 8)
    sbx, pcx, dex, dem = (lambda m, c: lambda **k: O("crossover." + m, c)(**k))("sbx", "SBX"), (lambda **k: O("crossover.pcx", "PCX")(**k)), (lambda **k: O("crossover.dex", "DEX")(**k)), (lambda **k: O("crossover.dex", "DEM")(**k))
    cases = [("sbx", sbx(prob=1.0, eta=float(rng.choice([2, 15, 30])), prob_var=float(rng.choice([0.5, 1.0])), prob_exch=float(rng.choice([0.0, 1.0]))), 2, "sbx", False),
             ("sbx-one", sbx(prob=1.0, n_offsprings=1), 2, "sbx", False), ("sbx-novar", sbx(prob=1.0, prob_var=0.0), 2, "sbx", True), ("sbx-never", sbx(prob=0.0), 2, "sbx", True), ("sbx-one-never", sbx(prob=0.0, n_offsprings=1), 2, "sbx", True),
             ("pcx", pcx(prob=1.0), 3, "pcx", False), ("pcx-never", pcx(prob=0.0), 3, "pcx", True),
             ("dex", dex(CR=float(rng.choice([0.3, 0.9]))), 3, "de", False), ("dex-exp", dex(variant="exp", F=0.5), 3, "de", False), ("dex-two", dex(n_diffs=2), 5, "de", False), ("dex-never", dex(CR=0.0, at_least_once=False), 3, "de", True),
             ("dem", dem(), 3, "de", False), ("dem-fixed", dem(F=0.7, gamma=None), 3, "de", False), ("dem-two", dem(n_diffs=2, de_repair=str(rng.choice(["bounce-back", "midway", "rand-init", "to-bounds"]))), 5, "de", False)]
    for name, op, npar, fam, none in cases:
        mates = []
        for _ in range(nm):
            M = rng.integers(0, 9, (npar, nv)) % (hi + 1)
            same = rng.random(nv) < 0.5
            M[:, same] = M[0, same]
            if rng.random() < 0.3:
                M[:] = M[0]
            elif fam == "de" and rng.random() < 0.4:
                M[2::2] = M[1::2]
            mates.append(M.astype(float))
        pr = problem(nv, 0, np.where(hi == 0, 0, 8)) if rng.random() < 0.8 or fam == "sbx" else Problem(n_var=nv, n_obj=1)
        rows, intact, err = cross(op, pr, [list(m) for m in mates], s, "parents" if name.startswith("dem") else how)
        ev = []
        for m, rw in zip(mates, rows):
            ids = Ids()
            f = lambda r: [ids(round(float(v), 12) + 0.0 if fam == "pcx" else float(v)) for v in r]
            ev.append(dict(k="arith", op=fam, none=none, noff=op.n_offsprings, par=[f(r) for r in m], off=[f(r) for r in rw], parents=bool(intact), raised=err is not None, exc=err or ""))
        out.append({"key": name, "ev": ev})
    return out


def mutate(name, op, pr, X, s, fam, inplace, none=False, every=False, fixed=None, options=None, code=None):
    pop = Population.create(*[Individual(X=np.array(r)) for r in X])
    ids = Ids()
    f = code or (lambda M: [[ids(v) for v in r] for r in M])
    before = f([i.X for i in pop])
    own = [id(i) for i in pop]
    rs = np.random.default_rng(s)
    R, err = guarded(lambda: op.do(pr, pop, inplace=inplace, random_state=rs))
    after = f([i.X for i in R]) if err is None else []
    return {"key": name, "ev": [dict(k="mutation", op=fam, before=before, after=after, given=f([i.X for i in pop]), same=err is None and [id(i) for i in R] == own, inplace=inplace, none=none, all=every,
                                     fixed=[bool(x) for x in (fixed if fixed is not None else [False] * pr.n_var)], options=options or [], raised=err is not None, exc=err or "")]}


def mutations(rng, s):
    out = []
    nv, n = int(rng.choice([1, 2, 3, 6])), int(rng.choice([1, 2, 7]))
    ip = bool(rng.random() < 0.5)
    X = rng.random((n, nv)) * 8
    hi = np.where(rng.random(nv) < 0.3, 0.0, 8.0)
    X = X * (hi > 0)
    pr = problem(nv, 0.0, hi)
    fx = hi == 0
    pm, gm = lambda **k: O("mutation.pm", "PM")(**k), lambda **k: O("mutation.gauss", "GM")(**k)
    flip, inv, cho = lambda **k: O("mutation.bitflip", "BFM")(**k), lambda **k: O("mutation.inversion", "InversionMutation")(**k), lambda **k: O("mutation.rm", "ChoiceRandomMutation")(**k)
    for nm, f in (("pm", pm), ("gauss", gm)):
        out.append(mutate(nm, f(prob=1.0, prob_var=1.0), pr, X, s, nm, ip, fixed=fx))
        out.append(mutate(nm + "-never", f(prob=0.0), pr, X, s, nm, ip, none=True))
        out.append(mutate(nm + "-novar", f(prob=1.0, prob_var=0.0), pr, X, s, nm, ip, none=True))
    out.append(mutate("pm-once", pm(prob=1.0, at_least_once=True), pr, X, s, "pm", ip, fixed=fx))
    B = rng.random((n, nv)) < 0.5
    bit = lambda M: ints(M)
    out.append(mutate("flip", flip(prob=1.0), problem(nv), B, s, "flip", ip, code=bit))
    out.append(mutate("flip-all", flip(prob=1.0, prob_var=1.0), problem(nv), B, s, "flip", ip, every=True, code=bit))
    out.append(mutate("flip-never", flip(prob=0.0), problem(nv), B, s, "flip", ip, none=True, code=bit))
    out.append(mutate("flip-novar", flip(prob=1.0, prob_var=0.0), problem(nv), B, s, "flip", ip, none=True, code=bit))
    P = np.array([rng.permutation(nv) + 3 for _ in range(n)])
    out.append(mutate("inversion", inv(), problem(nv), P, s, "inversion", ip, every=True, code=bit))
    out.append(mutate("inversion-half", inv(prob=0.5), problem(nv), P, s, "inversion", ip, code=bit))
    out.append(mutate("inversion-never", inv(prob=0.0), problem(nv), P, s, "inversion", ip, none=True, code=bit))
    out.append(mutate("none", O("mutation.nom", "NoMutation")(), pr, X, s, "none", True, none=True))
    opts = [["a", "bbb", 3][:int(rng.integers(1, 4))] for _ in range(nv)]
    C = np.array([[o[int(rng.integers(len(o)))] for o in opts] for _ in range(n)], dtype=object)
    pc = Problem(vars={"v%d" % j: Choice(options=o) for j, o in enumerate(opts)}, n_obj=1)
    tab = {"a": 0, "bbb": 1, 3: 2}
    cd = lambda M: [[tab.get(v if not isinstance(v, (np.integer,)) else int(v), -99) for v in r] for r in M]
    out.append(mutate("choice", cho(prob=1.0, prob_var=1.0), pc, C, s, "choice", ip, options=cd(opts), code=cd))
    out.append(mutate("choice-never", cho(prob=0.0), pc, C, s, "choice", ip, none=True, options=cd(opts), code=cd))
    out.append(mutate("choice-novar", cho(prob=1.0, prob_var=0.0), pc, C, s, "choice", ip, none=True, options=cd(opts), code=cd))
    return out


class Given:
    """a selection that returns the given parents"""

    def __init__(self, P):
        self.P = P

    def __call__(self, problem, pop, n_select, n_parents, **k):
        return self.P[:n_select]


def mixed(rng, s):
    from pymoo.core.mixed import MixedVariableMating
    UX, NM = O("crossover.ux", "UX"), O("mutation.nom", "NoMutation")
    vs = {"b1": Binary(), "r1": Real(bounds=(0, 9)), "c1": Choice(options=["x", "yy", 3]), "i1": Integer(bounds=(0, 9)), "b2": Binary(), "c2": Choice(options=[1, 2]), "r2": Real(bounds=(0, 9))}
    names = [k for k in vs if rng.random() < 0.8] or ["c1"]
    vs = {k: vs[k] for k in names}
    pr = Problem(vars=vs, n_obj=1)
    no = int(rng.choice([1, 2, 3, 6]))
    nm = (no + 1) // 2
    draw = lambda: {k: (v.sample(1, random_state=rng)[0] if not isinstance(v, Choice) else v.options[int(rng.integers(len(v.options)))]) for k, v in vs.items()}
    out = []
    for name, cx in (("mixed", {t: UX(prob=1.0) for t in (Binary, Real, Integer, Choice)}), ("mixed-never", {t: UX(prob=0.0) for t in (Binary, Real, Integer, Choice)}), ("mixed-default-never", {Binary: UX(prob=0.0), Real: O("crossover.sbx", "SBX")(prob=0.0), Integer: O("crossover.sbx", "SBX")(prob=0.0), Choice: UX(prob=0.0)})):
        P = [[Individual(X=draw()), Individual(X=draw())] for _ in range(nm)]
        b4 = _copy.deepcopy([[i.X for i in m] for m in P])
        mating = MixedVariableMating(selection=Given(P), crossover=cx, mutation={t: NM() for t in (Binary, Real, Integer, Choice)}, eliminate_duplicates=False)
        off, err = guarded(lambda: mating.do(pr, Population.create(*[i for m in P for i in m]), no, random_state=np.random.default_rng(s)))
        ids = Ids()
        row = lambda x: [ids((str(type(vs[k]).__name__), x[k] if isinstance(x[k], str) else float(x[k]))) for k in names]
        intact = all(i.X == x for m, M in zip(P, b4) for i, x in zip(m, M))
        ev = []
        for k in range(nm):
            mine = [] if err else [off[j].X for j in range(k, no, nm)]
            if err is None and len(off) == no and len(mine) < 2:
                mine = None
            if mine is None:
                continue
            e = dict(k="exchange", op="uniform", points=0, noff=2, par=[row(i.X) for i in P[k]], off=[row(x) for x in mine], parents=intact, raised=err is not None, exc=err or "")
            if name != "mixed":
                e.update(k="copies")
            ev.append(e)
        out.append({"key": name, "ev": ev or [dict(k="copies", par=[[0]], off=[[0]], noff=1, parents=intact, raised=False, exc="")]})
    return out


def rates(task):
    """applied as often as configured"""
    seed, full = task
    rng = np.random.default_rng(seed)
    out = []
    n = 1000

    def ev(key, cnt, n, p, err=None):
        out.append({"key": "rate-" + key, "ev": [dict(k="rate", cnt=int(cnt), n=n, p=p, parents=True, raised=err is not None, exc=err or "")]})
    for p in (1, 3, 5, 8, 9):
        for name in ("spx", "two", "hux", "bx") + (("erx",) if full else ()):
            nv = 12
            f = EXCHANGE[name][0] if name in EXCHANGE else ORDER[name]
            a, b = (np.arange(nv), 20 + np.arange(nv)) if name in EXCHANGE else (np.arange(nv), rng.permutation(nv))
            rows, _, err = cross(f(prob=p / 10), problem(nv), [[a, b]] * n, seed + p)
            ev(name, 0 if err else sum(any((r != a).any() and (r != b).any() for r in rs) for rs in rows), n, p, err)
        for name, op, X, vt in (("flip", O("mutation.bitflip", "BFM")(prob=p / 10, prob_var=1.0), np.zeros((n, 6), bool), None),
                                ("inversion", O("mutation.inversion", "InversionMutation")(prob=p / 10), np.tile(np.arange(6), (n, 1)), None),
                                ("pm", O("mutation.pm", "PM")(prob=p / 10, prob_var=1.0), np.full((n, 6), 4.0), None),
                                ("gauss", O("mutation.gauss", "GM")(prob=p / 10, prob_var=1.0), np.full((n, 6), 4.0), None)):
            R, err = guarded(lambda: op.do(problem(6), Population.new("X", X.copy()), random_state=np.random.default_rng(seed + p)))
            ev(name, 0 if err else sum((i.X != x).any() for i, x in zip(R, X)), n, p, err)
        for name, op, X in (("flip-var", O("mutation.bitflip", "BFM")(prob=1.0, prob_var=p / 10), np.zeros((n // 5, 5), bool)), ("pm-var", O("mutation.pm", "PM")(prob=1.0, prob_var=p / 10), np.full((n // 5, 5), 4.0)),
                            ("gauss-var", O("mutation.gauss", "GM")(prob=1.0, prob_var=p / 10), np.full((n // 5, 5), 4.0))):
            R, err = guarded(lambda: op.do(problem(5), Population.new("X", X.copy()), random_state=np.random.default_rng(seed + p)))
            ev(name, 0 if err else sum((i.X != x).sum() for i, x in zip(R, X)), n, p, err)
    for name, op, X in (("flip-default", O("mutation.bitflip", "BFM")(prob=1.0), np.zeros((n // 5, 5), bool)), ("pm-default", O("mutation.pm", "PM")(prob=1.0), np.full((n // 5, 5), 4.0)), ("gauss-default", O("mutation.gauss", "GM")(prob=1.0), np.full((n // 5, 5), 4.0))):
        R, err = guarded(lambda: op.do(problem(5), Population.new("X", X.copy()), random_state=np.random.default_rng(seed)))
        ev(name, 0 if err else sum((i.X != x).sum() for i, x in zip(R, X)), n, 2, err)
    return out


def of_run(task):
    """matings of running optimizers that only recombine: their population is not touched by producing offspring"""
    from pymoo.optimize import minimize
    name, seed = task
    alg, vt, cx, mu = dict(RUNS)[name]
    rng = np.random.default_rng(seed)
    algo, prob = alg(cx(), mu())
    ev = []
    m = algo.mating
    orig = m.do

    def heard(problem, pop, *a, **k):
        b4 = [np.array(i.X).copy() for i in pop]
        f4 = [np.array(i.F).copy() for i in pop]
        off = orig(problem, pop, *a, **k)
        ok = len(b4) == len(pop) and all(np.array_equal(i.X, x) and np.array_equal(i.F, f) for i, x, f in zip(pop, b4, f4))
        own = {id(i) for i in pop}
        ok = ok and not any(id(o) in own for o in off) and all(np.array_equal(prob.evaluate(np.array([i.X]))[0], i.F) for i in pop)
        ev.append(dict(k="rate", cnt=0, n=1, p=0, parents=bool(ok), raised=False, exc=""))
        return off
    m.do = heard
    _, err = guarded(lambda: minimize(prob, algo, ("n_gen", 6), seed=seed, copy_algorithm=False), timeout=60)
    if err:
        ev.append(dict(k="rate", cnt=0, n=1, p=0, parents=True, raised=True, exc=err))
    return [{"key": "run-" + name, "ev": ev}]


def _alg(vt):
    def f(c, mu):
        spec = zoo.zspec(vt)
        prob = Plain(vt)
        samp = {"real": lambda: O("sampling.rnd", "FloatRandomSampling")(), "bool": lambda: O("sampling.rnd", "BinaryRandomSampling")(), "perm": lambda: O("sampling.rnd", "PermutationRandomSampling")()}[vt]()
        from pymoo.algorithms.soo.nonconvex.ga import GA
        return GA(pop_size=9, n_offsprings=7, sampling=samp, crossover=c, mutation=mu), prob
    return f


class Plain(Problem):
    def __init__(self, vt):
        super().__init__(n_var=6, n_obj=1, xl=0, xu=5, vtype={"real": float, "bool": bool, "perm": int}[vt])

    def _evaluate(self, X, out, *a, **k):
        out["F"] = (np.array(X, float) * np.arange(1, 7)).sum(axis=1, keepdims=True)


NOX = lambda **k: (lambda: O("crossover.nox", "NoCrossover")(**k))
PMF, FLIP, INV, NOM = (lambda: O("mutation.pm", "PM")(prob=1.0)), (lambda: O("mutation.bitflip", "BFM")()), (lambda: O("mutation.inversion", "InversionMutation")()), (lambda: O("mutation.nom", "NoMutation")())
RUNS = [("nox-pm", (_alg("real"), "real", NOX(), PMF)), ("nox2-pm", (_alg("real"), "real", NOX(n_parents=2), PMF)), ("nox21-flip", (_alg("bool"), "bool", NOX(n_parents=2, n_offsprings=1), FLIP)), ("nox-inv", (_alg("perm"), "perm", NOX(), INV)),
        ("ux-flip", (_alg("bool"), "bool", lambda: EXCHANGE["ux"][0](prob=0.5), FLIP)), ("ux-pm", (_alg("real"), "real", lambda: EXCHANGE["ux"][0](prob=0.5), PMF)), ("ox-inv", (_alg("perm"), "perm", lambda: ORDER["ox"](prob=0.5), INV)),
        ("erx-inv", (_alg("perm"), "perm", lambda: ORDER["erx"](prob=0.5), INV)), ("sbx-pm", (_alg("real"), "real", lambda: O("crossover.sbx", "SBX")(prob=0.5), PMF)), ("pcx-gm", (_alg("real"), "real", lambda: O("crossover.pcx", "PCX")(prob=0.5), lambda: O("mutation.gauss", "GM")())),
        ("sbx-nom", (_alg("real"), "real", lambda: O("crossover.sbx", "SBX")(), NOM)), ("dex-pm", (_alg("real"), "real", lambda: O("crossover.dex", "DEX")(), PMF)), ("dem-pm", (_alg("real"), "real", lambda: O("crossover.dex", "DEM")(), PMF))]


def crash(task, why):
    return [{"key": "crash", "ev": [dict(k="crash", raised=False)]}]


def one(t):
    return {"p": replay, "v": cover, "r": randoms, "a": rates, "g": of_run}[t[0]](t[1])


def main():
    c = Check("C18")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION Spec\nCONSTANTS N=%d K=%d NP=%d All=%s\nINVARIANT WalkInv EdgeInv PermInv GeneInv EmitInit\nCHECK_DEADLOCK FALSE\n" % ((4, 2, 5, "FALSE") if THOROUGH else (3, 2, 4, "TRUE"))
    H = c.paths("MC_Recomb", cfg)
    c.notes["parents_from_tlc"] = len(H)
    si = lambda: int(rng.integers(1 << 30))
    tasks = [("v", (si(), THOROUGH)) for _ in range(4 if THOROUGH else 1)] + [("a", (si(), THOROUGH)) for _ in range(4 if THOROUGH else 1)]
    tasks += [("p", (H[i::16], si())) for i in range(16) for _ in range(6 if THOROUGH else 1)] + [("r", (si(), 6)) for _ in range(160 if THOROUGH else 12)]
    tasks += [("g", (n, int(rng.integers(1, 1000)))) for n, _ in RUNS for _ in range(5 if THOROUGH else 1)]
    tr = []
    for part in pmap(one, tasks, on_crash=crash):
        tr += part
    c.validate("RecTrace", tr)
    c.finish(rule="every pair of gene rows of length <=3 over 3 codes and of permutations of <=4 elements under every operator that fits; the families produced over thousands of draws; rows up to 12; probability zero; rates; running optimizers", exhaustive=False)


if __name__ == "__main__":
    main()
