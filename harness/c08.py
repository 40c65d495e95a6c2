"""C08: every candidate lies in the declared space; repairs. Space.tla (modules MC_Space, SpaceTrace)."""
from memo import *
from pymoo.core.duplicate import NoDuplicateElimination
from pymoo.core.variable import get
from runs import _imp
from pymoo.operators.repair.bounce_back import BounceBackOutOfBoundsRepair, bounce_back, bounce_back_by_problem
from pymoo.operators.repair.to_bound import ToBoundOutOfBoundsRepair, set_to_bounds_if_outside
from pymoo.operators.repair.bounds_repair import repair_clamp, repair_periodic, repair_random_init
from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
from pymoo.operators.crossover.dex import DE_REPAIRS


class Box(Problem):
    def __init__(self, xl, xu):
        super().__init__(n_var=len(xl), n_obj=1, xl=np.array(xl, float), xu=np.array(xu, float))


def repair_case(task):
    cases, seed = task
    rng = np.random.default_rng(seed)
    out = []

    def vec(kind, rule, fn, dtype=float, exact=True):
        ev = []
        for ch in chunks:
            lo, hi = np.array([c["lo"] for c in ch], dtype), np.array([c["hi"] for c in ch], dtype)
            rows = np.array([[c["x"] for c in ch], [c["x2"] for c in ch]], dtype)
            p = np.array([rng.integers(c["lo"], c["hi"] + 1) for c in ch], dtype)
            given = rows.copy()

            def go():
                Y = np.array(fn(rows.copy(), np.array([p, p]), lo, hi, ch))
                Z = np.array(fn(Y.copy(), np.array([p, p]), lo, hi, ch))
                return Y, Z
            r, err = guarded(go)
            if err:
                ev.append({"k": "raised", "exc": err, "lo": lo.tolist(), "hi": hi.tolist(), "x": given.tolist()})
                continue
            Y, Z = r
            for x, y, z in zip(given, Y, Z):
                if exact and np.all(np.isfinite(y)) and np.all(y == np.round(y)):
                    ev.append({"k": kind, "rule": rule, "x": x, "y": y, "z": z, "lo": lo, "hi": hi, "p": p})
                else:
                    V = [np.asarray(v, float) for v in (x, y, z, lo, hi, p)]
                    R = [Ranks([v[i] for v in V if np.isfinite(v[i])]) for i in range(len(x))]
                    C = [[int(R[i](v[i])) if np.isfinite(v[i]) else -1 for i in range(len(x))] for v in V]
                    ev.append(dict(zip(("x", "y", "z", "lo", "hi", "p"), C), k=kind, rule=rule if not exact else "off-grid"))
        return ev
    idx = rng.permutation(len(cases))
    chunks = [[dict(cases[i], x2=int(rng.integers(cases[i]["lo"], cases[i]["hi"] + 1))) for i in idx[k:k + 3]] for k in range(0, len(idx), 3)]
    perm = lambda d: (lambda X, P, lo, hi, ch: d(X, P, lo, hi, ch))
    pop_do = lambda R, **k: (lambda X, P, lo, hi, ch: R.do(Box(lo, hi), Population.new("X", X), **k).get("X"))
    rs = np.random.default_rng(5)
    one_d = lambda f: (lambda X, P, lo, hi, ch: [f(x, lo, hi) for x in X])
    for name, kind, rule, fn, exact in [
        ("clamp", "repair", "clamp", lambda X, P, lo, hi, ch: repair_clamp(X, lo, hi), True), ("to-bound", "repair", "clamp", pop_do(ToBoundOutOfBoundsRepair()), True),
        ("to-bound-1d", "repair", "clamp", one_d(set_to_bounds_if_outside), True), ("bounce-1d", "repair", "bounce", one_d(bounce_back), True),
        ("bounce", "repair", "bounce", pop_do(BounceBackOutOfBoundsRepair()), True), ("bounce-problem", "repair", "bounce", lambda X, P, lo, hi, ch: bounce_back_by_problem(Box(lo, hi), X), True),
        ("periodic", "repair", "periodic", lambda X, P, lo, hi, ch: repair_periodic(X, lo, hi), True),
        ("random-init", "repair", "random", lambda X, P, lo, hi, ch: repair_random_init(X, P, lo, hi, random_state=rs), False),
        ("inverse", "towards", "inverse", lambda X, P, lo, hi, ch: InversePenaltyOutOfBoundsRepair().do(Box(lo, hi), Population.new("X", X), P=P, random_state=rs).get("X"), False),
    ] + [("de-" + n, "repair", "clamp" if n == "to-bounds" else "random", (lambda f: lambda X, P, lo, hi, ch: f(X, P, lo, hi, random_state=rs))(f), n == "to-bounds") for n, f in DE_REPAIRS.items()]:
        out.append({"key": "repair/" + name, "ev": vec(kind, rule, fn, exact=exact)})
    return out


def kind_of(v):
    if isinstance(v, (bool, np.bool_)):
        return "bool"
    if isinstance(v, (int, np.integer)):
        return "int"
    if isinstance(v, (float, np.floating)):
        return "real" if np.isfinite(v) else "not-a-number"
    return "other"


def declared(spec, prob):
    """Names, types and bounds the problem declares."""
    vt = spec.get("vtype", "real")
    if vt == "mixed":
        V = []
        for n, v in prob.vars.items():
            t = {"Real": "real", "Integer": "int", "Binary": "bool", "Choice": "choice"}[type(v).__name__]
            V.append((n, t, v.bounds[0] if t in ("real", "int") else 0, v.bounds[1] if t in ("real", "int") else 1, list(v.options) if t == "choice" else None))
        return V
    return [(i, {"real": "real", "int": "int", "bool": "bool", "perm": "perm"}[vt], float(prob.xl[i]), float(prob.xu[i]), None) for i in range(prob.n_var)]


def rows_event(spec, prob, X, n=-1):
    V = declared(spec, prob)
    num_cols = [[r[v[0]] for r in X if kind_of(r[v[0]]) != "other"] for v in V]
    R = [Ranks([float(a) for a in c], [float(v[2]), float(v[3])]) for c, v in zip(num_cols, V)]
    xs, ty = [], []
    for r in X:
        a, b = [], []
        for k, v in enumerate(V):
            q = r[v[0]]
            b.append(kind_of(q))
            if v[4] is not None:
                a.append(next((i + 1 for i, o in enumerate(v[4]) if o == q), 0))
            elif v[1] == "perm" and kind_of(q) == "int":
                a.append(int(q))
            else:
                a.append(int(R[k](float(q))) if kind_of(q) != "other" else -1)
        xs.append(a)
        ty.append(b)
    return {"k": "rows", "n": n, "vars": [{"t": v[1], "lo": int(v[2]) if v[1] == "perm" else int(R[k](float(v[2]))), "hi": int(v[3]) if v[1] == "perm" else int(R[k](float(v[3])))} for k, v in enumerate(V)], "X": xs, "ty": ty}


BOXES = ("skew", "unit", "flat", "tiny", "huge")


def rebox(spec, box):
    if spec.get("vtype", "real") != "real":
        return spec
    s = dict(spec)
    s.update({k: pspec(n_obj=2, n_var=s["n_var"], box=box)[k] for k in ("xl", "xu", "box")})
    return s


def run(task):
    name, box, seed = task
    factory, spec = configurations()[name]
    ev = []
    drift = box.startswith("drift-")
    deg = box.startswith(("same-", "corners-"))
    spec = rebox(spec, box[6:] if drift else box.split("-")[1] if deg else box)
    if drift:
        spec = dict(spec, drift=1 + seed % 5)

    def go():
        prob = ZooProblem(spec)
        a = factory(spec)
        if deg:
            # first solutions without any diversity: on the bounds, at the origin, all alike
            rng = np.random.default_rng(seed)
            if getattr(a, "initialization", None) is None:
                return
            zero = np.clip(np.zeros(prob.n_var), prob.xl, prob.xu)
            rows = [prob.xl, prob.xu, zero] if box.startswith("corners-") else [[prob.xl, prob.xu, zero][int(rng.integers(3))]]
            n = int(get(getattr(a, "pop_size", None) or 10))
            a.initialization.sampling = np.array([np.where(rng.random(prob.n_var) < 0.2, rows[0], rows[int(rng.integers(len(rows)))]) for _ in range(n)])
            a.initialization.eliminate_duplicates = NoDuplicateElimination()
        a.setup(prob, termination=gen_termination(60 if drift else 8 if THOROUGH else 6), seed=seed, verbose=False)
        while a.has_next() and (not drift or a.evaluator.n_eval < 250):
            prob.log[:] = []
            with contextlib.redirect_stdout(io.StringIO()):
                a.next()
            for B in prob.log:
                ev.append(rows_event(spec, prob, list(B)))
    _, err = guarded(go, timeout=100)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "run/%s/%s" % (name, box), "ev": ev, "meta": {"spec": spec, "seed": seed}}


def extra_operators():
    """further operators with the number of parents they take"""
    X = {}
    for n in DE_REPAIRS:
        X["dem-" + n] = lambda n=n: O("crossover.dex", "DEM")(de_repair=n)
    X["dem-2"] = lambda: O("crossover.dex", "DEM")(F=0.9, gamma=None, n_diffs=2)
    X["dex-2"] = lambda: O("crossover.dex", "DEX")(n_diffs=2, F=0.9, n_iter=3)
    return X


def operate(task):
    """Samplings, crossovers and mutations on their own."""
    name, box, seed = task
    rng = np.random.default_rng(seed)
    ev = []
    if name in operators():
        vt, s, c, m = operators()[name]
    else:
        vt, s, c, m = "real", lambda: O("sampling.rnd", "FloatRandomSampling")(), extra_operators()[name], lambda: O("mutation.pm", "PM")(eta=1)
    base = zspec(vt)
    spec = rebox(base, box)
    prob = ZooProblem(spec)

    def go():
        for _ in range(6 if THOROUGH else 3):
            n = int(rng.integers(1, 9)) if not name.startswith("s-") else int(rng.integers(2, 9))
            pop = s().do(prob, n, random_state=rng)
            ev.append(rows_event(spec, prob, [x.X for x in pop], n))
            pop = s().do(prob, 12, random_state=rng)
            X = pop.get("X")
            if vt == "real":       # parents on the bounds, equal parents, nearly equal parents
                X[0], X[1], X[2], X[3] = prob.xl, prob.xu, X[4], np.minimum(X[4] + 1e-13, prob.xu)
                X[5, ::2], X[6, 1::2] = prob.xl[::2], prob.xu[1::2]
                pop.set("X", X)
            co = c()
            P = np.array([[int(i) for i in rng.choice(12, co.n_parents, replace=False)] for _ in range(10)] + [[int(i) % 12 for i in range(k, k + co.n_parents)] for k in range(4)])
            off = (co.do if name == "x-nox" or isinstance(co, O("crossover.dex", "DEM")) else co)(prob, [[pop[i] for i in r] for r in P] if name == "x-nox" else pop, parents=None if name == "x-nox" else P, random_state=rng)
            ev.append(rows_event(spec, prob, [x.X for x in off], len(P) * co.n_offsprings))
            mut = m()(prob, off, random_state=rng)
            ev.append(rows_event(spec, prob, [x.X for x in mut], len(off)))
            mut = m()(prob, Population.new("X", np.array(pop.get("X"), copy=True)), random_state=rng)
            ev.append(rows_event(spec, prob, [x.X for x in mut], len(pop)))
    _, err = guarded(go, timeout=60)
    if err:
        ev.append({"k": "raised", "exc": err})
    return {"key": "op/%s/%s" % (name, box), "ev": ev, "meta": {"seed": seed}}


def name_loop(n):
    """optimizers that do not repair through an operator"""
    return n not in operators() and "/" not in n


def crash(task, why):
    return {"key": "run/" + str(task[0]), "ev": [{"k": "raised", "exc": why}]}


def main():
    c = Check("C08")
    rng = np.random.default_rng(SEED)
    out = c.model_check("MC_Space", "SPECIFICATION Spec\nCONSTANT N=%d\nINVARIANT Inv\n" % (4 if THOROUGH else 3), workers=1)
    cases = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"CASE ')]
    c.notes["repair_cases_from_tlc"] = len(cases)
    tr = []
    for g in pmap(repair_case, [(cases, int(rng.integers(1 << 30))) for _ in range(2)], on_crash=lambda t, w: [crash(["repair"], w)]):
        tr += g
    real = lambda n: configurations()[n][1].get("vtype", "real") == "real"
    names = list(configurations())
    T = [(n, b, int(rng.integers(1 << 20))) for n in names for b in ((BOXES if THOROUGH else (["skew", "flat"] + [str(rng.choice(["unit", "tiny", "huge"]))])) if real(n) else ("-",))]
    T.sort(key=lambda t: not t[0].startswith("PINSGA2"))
    # objectives that pull every optimizer to the corners of the box
    T += [(n, b, int(rng.integers(1 << 20))) for n in names if real(n) and not n.startswith("PINSGA2") for b in ("same-skew", "corners-unit", "same-unit", "corners-skew")[:4 if THOROUGH else 3]]
    T += [(n, "drift-" + b, int(rng.integers(1 << 20))) for n in names if real(n) and not n.startswith("PINSGA2") for b in ("unit", "skew", "huge")[:3 if THOROUGH or name_loop(n) else 1]]
    tr += pmap(run, T, on_crash=crash)
    T = [(n, b, int(rng.integers(1 << 20))) for n in list(operators()) + list(extra_operators()) for b in (BOXES if n in extra_operators() or operators()[n][0] == "real" else ("-",))]
    tr += pmap(operate, T, on_crash=crash)
    c.notes["rows_judged"] = sum(len(e["X"]) for t in tr for e in t["ev"] if e["k"] == "rows")
    c.validate("SpaceTrace", tr)
    c.finish(rule="all repairs of all integers in [-3N,3N] into all intervals within [-N,N] (random triples of them as vectors); every optimizer and operator on boxes with skewed, fixed, tiny and huge ranges", exhaustive=False)


if __name__ == "__main__":
    main()
