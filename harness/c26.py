"""C26: state carried from generation to generation - swarms, step sizes, problems that change. Motion.tla (modules MC_Motion, MotionTrace)."""
from common import *
import_repo()
ensure_ext()
import numpy as np
from pymoo.core.problem import Problem
from pymoo.core.population import Population
from runs import _imp, guarded, pspec, value_fn


def k3(M):
    return np.round(np.asarray(M, float) * 1000).astype(int).tolist()


class Plain(Problem):
    """integer objectives on a box, violations if wanted; every request is logged"""

    def __init__(self, n, m, xl, xu, seed, con=False, K=40):
        super().__init__(n_var=n, n_obj=m, n_ieq_constr=int(con), xl=np.asarray(xl, float), xu=np.asarray(xu, float))
        r = np.random.default_rng(seed)
        self.c, self.a, self.K = r.random((m, n)), r.normal(size=n), K
        self.off, self.reach, self.reqs = np.zeros(m), None, []

    def unit(self, X):
        w = np.where(self.xu > self.xl, self.xu - self.xl, 1.0)
        return (np.asarray(X, float) - self.xl) / w

    def values(self, X):
        U = self.unit(X)
        return np.stack([np.floor(self.K * ((U - c) ** 2).sum(axis=1)) for c in self.c], axis=1)

    def now(self, X):
        F = self.values(X)
        for o, r in getattr(self, "changes", []):
            F = F + (o[None, :] if r is None else np.where(self.unit(X)[:, :1] > r, o[None, :], 0))
        return F

    def _evaluate(self, X, out, *args, **kwargs):
        self.reqs.append(np.array(X, float))
        out["F"] = self.now(X)
        if self.n_ieq_constr:
            out["G"] = np.floor(4 * (self.unit(X) @ self.a))[:, None]


def box(rng, n, fixed=False):
    xl = np.round(rng.uniform(-6, 4, n), 2) * float(rng.choice([0, 1, 1]))
    w = np.round(rng.uniform(.2, 8, n), 2)
    if fixed and n > 1:
        w[int(rng.integers(n))] = 0
    return xl, xl + w


# ------------------------------------------------------------------------------------------- the equation
def equation(task):
    from pymoo.algorithms.soo.nonconvex.pso import pso_equation
    L, seed = task
    rng = np.random.default_rng(seed)
    ev = []
    B = int(rng.integers(2, 7))
    for a in range(0, len(L), B * 2):
        q = L[a:a + B * 2]
        if len(q) < B * 2:
            q = (q * (2 * B))[:2 * B]
        for w in sorted({r["w"] for r in q}):
            S = [r for r in q if r["w"] == w]
            m = 2 if len(S) % 2 == 0 else 1
            g = lambda k, s=1: np.array([r[k] * s for r in S], float).reshape(-1, m)
            vm = g("vm")
            # one maximum velocity per variable: particles with the same
            for v in sorted({tuple(r) for r in vm.tolist()}):
                I = [i for i in range(len(vm)) if tuple(vm[i]) == v]
                out, err = guarded(lambda: pso_equation(g("x")[I], g("p")[I], g("s")[I], g("v")[I], np.array(v), w / 10, 2.0, 1.5, r1=(g("r1") / 4)[I], r2=(g("r2") / 4)[I]), timeout=20)
                for i, h in enumerate(I):
                    for j in range(m):
                        r = S[h * m + j]
                        e = dict(r, k="eq", gx=0, gv=0, raised=err is not None)
                        if err is None:
                            e["gx"], e["gv"] = int(round(float(out[0][i, j]) * 40)), int(round(float(out[1][i, j]) * 40))
                        ev.append(e)
    return [{"key": "swarm-equation", "ev": ev}]


def factors(task):
    """random factors over the whole range, for every entry"""
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for name in ("PSO", "EPPSO", "CMOPSO", "PSO-personal", "EPPSO-personal", "CMOPSO-inertia"):
        def go():
            A, Z, O1 = np.zeros((n, 2)), np.zeros((n, 2)), np.ones((n, 2))
            rs = np.random.default_rng(int(rng.integers(1 << 30)))
            if name.startswith("PSO"):
                f = _imp("soo.nonconvex.pso", "pso_equation")
                a = (Z, O1) if name == "PSO" else (O1, Z)
                return f(A, a[0], a[1], Z, np.full(2, 99.0), .9, 1.0, 1.0, random_state=rs)[1]
            if name.startswith("EPPSO"):
                f = _imp("soo.nonconvex.pso_ep", "pso_canonical")
                a = (Z, O1) if name == "EPPSO" else (O1, Z)
                return f(Z, A, a[0], a[1], .9, 1.0, 1.0, random_state=rs)
            f = _imp("moo.cmopso", "cmopso_equation")
            if name == "CMOPSO":
                return f(A, np.ones((1, 2)), Z, np.full(2, 99.0), random_state=rs)[1]
            return f(O1, np.ones((1, 2)), O1, np.full(2, 99.0), random_state=rs)[1]
        V, err = guarded(go, timeout=60)
        e = dict(k="factors", n=n, cnt=[[0] * 5 for _ in range(5)], raised=err is not None)
        if err is None:
            I = np.floor(np.asarray(V) * 5).astype(int)
            for a, b in I:
                if 0 <= a < 5 and 0 <= b < 5:
                    e["cnt"][a][b] += 1
        out.append({"key": "factors/" + name, "ev": [e]})

    def go():
        rs = np.random.default_rng(int(rng.integers(1 << 30)))
        f = _imp("moo.cmopso", "cmopso_equation")
        L = np.array([[1.0, .1], [.1, 1.0]])
        L = L[rng.permutation(2)]
        near = rng.random(n) < .5
        X = np.where(near[:, None], [[2.0, .4]], [[.5, 3.0]])
        V = f(X, L, np.zeros((n, 2)), np.full(2, 99.0), random_state=rs)[1]
        # the entries of the velocity have the sign of leader - position
        W = np.where(near[:, None], [[1.0, .1]], [[.1, 1.0]])     # the elite at the smaller angle
        U = np.where(near[:, None], [[.1, 1.0]], [[1.0, .1]])
        sw, su = np.sign(W - X), np.sign(U - X)
        return int(((np.sign(V) == sw).all(axis=1) & ~(sw == su).all(axis=1)).sum())
    r, err = guarded(go, timeout=60)
    out.append({"key": "leaders/CMOPSO", "ev": [dict(k="wins", n=n, near=r or 0, raised=err is not None)]})

    def crowd():
        # four members of the archive: the two at the ends of the front are at one place, the others at another
        from pymoo.util.archive import MultiObjectiveArchive
        prob = Plain(1, 2, [0.0], [1.0], 1)
        alg = _imp("moo.mopso_cd", "MOPSO_CD")(pop_size=n // 4, w=0.0, c1=0.0, c2=1.0)
        alg.setup(prob, termination=("n_gen", 4), seed=int(rng.integers(1 << 20)), verbose=False)
        alg.next()
        A = prob_members([[1.0], [0.0], [0.0], [1.0]], [[0.0, 10.0], [4.0, 5.0], [5.0, 4.0], [10.0, 0.0]])
        alg.archive = MultiObjectiveArchive(individuals=A[rng.permutation(4)])
        for x in alg.pop:
            x.X = np.array([.5])
        off = alg.ask()
        return int((off.get("X")[:, 0] > .5).sum())
    r, err = guarded(crowd, timeout=100)
    out.append({"key": "leaders/MOPSO_CD", "ev": [dict(k="wins", n=n // 4, near=r or 0, raised=err is not None)]})

    # the grades of the four strategies
    ev = []
    S = [_imp("soo.nonconvex.pso", q) for q in ("S1_exploration", "S2_exploitation", "S3_convergence", "S4_jumping_out")]
    for f in range(0, 1001, 5):
        ev.append(dict(k="grades", f=f, S=[int(round(1000 * float(g(f / 1000)))) for g in S]))
    out.append({"key": "grades", "ev": ev})
    return out


def prob_members(X, F):
    P = Population.new(X=np.array(X), F=np.array(F), CV=np.zeros((len(X), 1)))
    for x in P:
        x.evaluated = {"F", "G", "H"}
    return P


# ------------------------------------------------------------------------------------------- swarms
def mkey(pop):
    return [[int(round(float(x.CV[0])))] + [int(round(float(v))) for v in x.F] for x in pop]


def key(pop):
    return [[int(round(float(x.CV[0]))), int(round(float(x.F[0])))] for x in pop]


def swarm(task):
    name, seed, gens = task
    rng = np.random.default_rng(seed)
    n, N = int(rng.integers(1, 5)), int(rng.integers(3, 9))
    xl, xu = box(rng, n, rng.random() < .2)
    mo = name in ("CMOPSO", "MOPSO_CD")
    prob = Plain(n, 2 if mo else 1, xl, xu, seed + 1, con=rng.random() < .3, K=int(rng.choice([3, 40, 400])))
    vr = float(rng.choice([.05, .2, .2, 1.0]))
    kw, ev, ini = {}, [], dict(zero=False, neg=[0] * n)
    if name == "PSO":
        kw = dict(max_velocity_rate=vr, pertube_best=bool(rng.random() < .5), adaptive=bool(rng.random() < .6), initial_velocity=str(rng.choice(["random", "zero"])))
        if rng.random() < .5:
            kw.update(w=float(rng.choice([.2, .9])), c1=float(rng.choice([0.5, 1.5, 2.0])), c2=float(rng.choice([0.5, 1.8, 2.0])))
        alg = _imp("soo.nonconvex.pso", "PSO")(pop_size=N, **kw)
    elif name == "EPPSO":
        ring = bool(rng.random() < .5)
        kw = dict(topology="ring" if ring else "star", init_V=str(rng.choice(["zero", "random"])))
        ctl = getattr(__import__("pymoo.operators.control", fromlist=["x"]), str(rng.choice(["EvolutionaryParameterControl", "RandomParameterControl"])))
        alg = _imp("soo.nonconvex.pso_ep", "EPPSO")(pop_size=N, swarm=_imp("soo.nonconvex.pso_ep", "Swarm")(V_max=vr, control=ctl), **kw)
    elif name == "CMOPSO":
        kw = dict(max_velocity_rate=vr, elite_size=int(rng.integers(2, 6)), mutation_rate=float(rng.choice([0.0, 0.5])), initial_velocity=str(rng.choice(["random", "zero"])))
        alg = _imp("moo.cmopso", "CMOPSO")(pop_size=N, **kw)
    else:
        kw = dict(max_velocity_rate=vr, archive_size=int(rng.integers(2, 9)))
        alg = _imp("moo.mopso_cd", "MOPSO_CD")(pop_size=N, **kw)
    if name == "PSO" and kw["adaptive"]:
        a, b = [(2.0, 2.0), (1.5, 2.5), (2.5, 1.5), (1.6, 2.4), (1.7, 2.1)][int(rng.integers(5))]
        alg.c1, alg.c2 = a, b
    alg.setup(prob, termination=("n_gen", gens), seed=int(rng.integers(1 << 20)), verbose=False)
    vm = k3(vr * (np.asarray(xu) - np.asarray(xl)))
    adapt = name == "PSO" and kw["adaptive"] and (np.asarray(xu) > np.asarray(xl)).all()

    def go():
        first = True
        off = alg.ask()
        alg.evaluator.eval(prob, off)
        alg.tell(infills=off)
        V0 = {"PSO": lambda: alg.particles.get("V"), "EPPSO": lambda: alg.swarm.get("V"), "CMOPSO": lambda: alg.pop.get("V"), "MOPSO_CD": lambda: alg.velocities}[name]()
        zero = kw.get("initial_velocity", kw.get("init_V")) == "zero"
        hv = k3((np.asarray(xu) - np.asarray(xl)) / 2)
        ev.append(dict(k="init", V=k3(V0), zero=zero, vm=hv if name == "EPPSO" else vm, neg=hv if name == "EPPSO" else vm if name == "MOPSO_CD" else [0] * n))
        known = set()
        while alg.has_next():
            e = dict(k="move", xl=k3(xl), xu=k3(xu), vm=vm, L=[], first=False, ring=False, free=False, chain=not mo or name == "MOPSO_CD", K=[], Kn=[], raised=False)
            if name == "PSO":
                X, V, P = alg.particles.get("X"), alg.particles.get("V"), alg.pop.get("X")
                e.update(K=key(alg.pop), rule="redraw", w=[int(round(alg.w * 1e4))] * 2, c1=[0, int(round(alg.c1 * 1e4))], c2=[0, int(round(alg.c2 * 1e4))], free=kw["pertube_best"])
                c0 = [int(round(alg.c1 * 1e4)), int(round(alg.c2 * 1e4))]
            elif name == "EPPSO":
                X, V, P = alg.swarm.get("X"), alg.swarm.get("V"), alg.pbest.get("X")
                e.update(K=key(alg.pbest), rule="between", w=[7000, 9000], c1=[0, 16000], c2=[0, 16000], first=first, ring=ring)
            elif name == "CMOPSO":
                X, V, P = alg.pop.get("X"), alg.pop.get("V"), alg.pop.get("X")
                e.update(L=k3(alg.elites.get("X")), rule="clip" if kw["mutation_rate"] == 0 else "free", w=[0, 10000], c1=[0, 0], c2=[0, 10000])
            else:
                X, V, P = alg.pop.get("X"), np.array(alg.velocities), np.array([p.X for p in alg.pbest])
                e.update(K=mkey(alg.pbest), L=k3(alg.archive.get("X")), rule="clip", w=[int(round(alg.w * 1e4))] * 2, c1=[0, int(round(alg.c1 * 1e4))], c2=[0, int(round(alg.c2 * 1e4))])
            e.update(X=k3(X), V=k3(V), P=k3(P))
            if name == "CMOPSO" and known:
                ev.append(dict(k="pair", now=[[a, b] for a, b in zip(e["X"], e["V"])], known=sorted([list(map(list, q)) for q in known])))
            off = alg.ask()
            if off is None:
                break
            e["Xn"] = k3(off.get("X"))
            e["Vn"] = k3(alg.velocities if name == "MOPSO_CD" else off.get("V"))
            alg.evaluator.eval(prob, off)
            if not mo:
                e["Kn"] = key(off)
            elif name == "MOPSO_CD":
                e["Kn"] = mkey(off)
            if mo:
                hall = lambda: mkey(alg.elites if name == "CMOPSO" else alg.archive)
                H0, M = hall(), mkey(alg.pop) + mkey(off)
            known = {(tuple(a), tuple(b)) for a, b in list(zip(e["X"], e["V"])) + list(zip(e["Xn"], e["Vn"]))}
            alg.tell(infills=off)
            ev.append(e)
            if mo:
                ev.append(dict(k="hall", size=-1 if name == "CMOPSO" else kw["archive_size"], old=H0, M=M, now=hall()))
            if adapt and len(alg.pop) > 1:
                U = prob.unit(alg.pop.get("X"))
                D = np.sqrt(((U[:, None] - U[None]) ** 2).sum(axis=2)).sum(axis=1) / (len(U) - 1)
                b = [p for p, q in zip(P, e["K"]) if q == min(e["K"]) or q[0] == min(e["K"])[0] > 0]
                G = prob.unit(np.array(b))
                g = [np.sqrt(((U - r) ** 2).sum(axis=1)).mean() for r in G]
                if len(g) == 1:
                    ev.append(dict(k="adapt", D=[int(round(v * 1e4)) for v in D], g=int(round(g[0] * 1e4)), w=int(round(alg.w * 1e4)), c0=c0, c=[int(round(alg.c1 * 1e4)), int(round(alg.c2 * 1e4))]))
            first = False
    _, err = guarded(go, timeout=100)
    if err is not None:
        ev.append(dict(k="move", raised=True, exc=err))
    return [{"key": name, "cfg": {q: str(v) for q, v in kw.items()}, "ev": ev}]


# ------------------------------------------------------------------------------------------- evolution strategies
def strategy(task):
    name, seed, gens = task
    rng = np.random.default_rng(seed)
    n = int(rng.integers(1, 5))
    xl, xu = box(rng, n)
    prob = Plain(n, 1, xl, xu, seed + 1, con=rng.random() < .4)
    mu = int(rng.integers(2, 5))
    phi = float(rng.choice([0.0, 1.0, 1.0])) if name != "ISRES" else 1.0
    gamma = float(rng.choice([.85, .5, -1])) if name != "ISRES" else .85
    kw = dict(n_offsprings=mu * int(rng.integers(2, 5)) + int(rng.integers(0, 2)), pop_size=mu, phi=phi)
    if name == "ISRES":
        kw["alpha"] = float(rng.choice([.2, .7]))
    kw["gamma"] = None if gamma < 0 else gamma
    alg = _imp({"ES": "soo.nonconvex.es", "SRES": "soo.nonconvex.sres", "ISRES": "soo.nonconvex.isres"}[name], name)(**kw)
    if name == "ISRES" and gamma > 0:
        alg.gamma = gamma
    alg.setup(prob, termination=("n_gen", gens), seed=int(rng.integers(1 << 20)), verbose=False)
    ev = []
    smax = k3((np.asarray(xu) - np.asarray(xl)) / n ** .5)

    def go():
        first, known = True, None
        while alg.has_next():
            if not first:
                X, S = alg.pop.get("X"), alg.pop.get("sigma")
                now = [[a, b] for a, b in zip(k3(X), k3(S))]
                if known is not None:
                    ev.append(dict(k="pair", now=now, known=known))
            if not first and phi == 0 and len(alg.pop) >= mu:
                # without a learning rate step sizes only mix: start from different ones
                for x in alg.pop:
                    x.set("sigma", np.asarray(x.get("sigma")) * rng.choice([.1, .3, .6, 1.0], n))
                S = alg.pop.get("sigma")
                known = [[a, b] for a, b in zip(k3(X), k3(S))]
                now = known
            off = alg.ask()
            if not first:
                Sn = off.get("sigma")
                ev.append(dict(k="es", X=k3(X), S=k3(S), Xn=k3(off.get("X")), Sn=k3(Sn), Sz=k3(Sn), big=name != "ISRES", gamma=int(round(gamma * 1000)) if gamma >= 0 else -1, mu=mu, smax=smax, xl=k3(xl), xu=k3(xu),
                               **{"lambda": kw["n_offsprings"]}, still=("same" if name == "ISRES" else "mean") if phi == 0 else "", raised=False))
                known = now + [[a, b] for a, b in zip(k3(off.get("X")), k3(Sn))]
            alg.evaluator.eval(prob, off)
            lst = list(off)
            if not first and rng.random() < .15:
                lst = lst[:max(1, mu - 1)]       # only some come back
            alg.tell(infills=Population.create(*lst))
            if first:
                ev.append(dict(k="sigma", S=k3(alg.pop.get("sigma")), smax=smax, xl=k3(xl), xu=k3(xu)))
            first = False
    _, err = guarded(go, timeout=100)
    if err is not None:
        ev.append(dict(k="es", raised=True, exc=err))
    return [{"key": name, "cfg": {q: str(v) for q, v in kw.items()}, "ev": ev}]


def steps(task):
    """the lengths of many steps, far from the bounds; how fast step sizes change"""
    name, seed = task
    rng = np.random.default_rng(seed)
    n = int(rng.integers(2, 5))
    prob = Plain(n, 1, np.full(n, -1.0), np.full(n, 1.0), seed)
    mu, lam = 10, 1500
    alg = _imp({"ES": "soo.nonconvex.es", "SRES": "soo.nonconvex.sres", "ISRES": "soo.nonconvex.isres"}[name], name)(n_offsprings=lam, pop_size=mu, **({} if name == "ISRES" else dict(gamma=None)))
    alg.setup(prob, termination=("n_gen", 3), seed=seed, verbose=False)
    ev = []

    def go():
        off = alg.ask()
        alg.evaluator.eval(prob, off)
        alg.tell(infills=off)
        # all parents in the middle with small step sizes
        for x in alg.pop:
            x.X = np.zeros(n)
            x.set("sigma", np.full(n, 1e-3))
        off = alg.ask()
        X, S = off.get("X"), off.get("sigma")
        if name == "ISRES":
            # the change of a step size is smoothed by alpha: undo it
            chi = 1 / (2 * n) + 1 / (2 * n ** .5)
            vp2 = (2 / chi) * np.log((1 / alg.alpha) * (np.exp(chi / 2) - (1 - alg.alpha)))
            lg = np.log((S[mu:] / 1e-3 - 1) / alg.alpha + 1)
            ev.append(dict(k="log", ms=int(round(float((lg ** 2).mean()) * 1e4)), var=int(round(vp2 * chi * 1e4))))
            ev.append(dict(k="log", ms=int(round(float((lg.mean(axis=1) ** 2).mean()) * 1e4)), var=int(round(vp2 * (1 / (2 * n) + 1 / (2 * n ** .5) / n) * 1e4))))
        else:
            z = np.abs(X / S).ravel()
            ev.append(dict(k="normal", n=len(z), one=int((z < 1).sum()), two=int((z < 2).sum())))
            lg = np.log(S / 1e-3)
            # one factor per individual and one per entry: 1/(2n) and 1/(2 sqrt n)
            ev.append(dict(k="log", ms=int(round(float((lg ** 2).mean()) * 1e4)), var=int(round((1 / (2 * n) + 1 / (2 * n ** .5)) * 1e4))))
            ev.append(dict(k="log", ms=int(round(float((lg.mean(axis=1) ** 2).mean()) * 1e4)), var=int(round((1 / (2 * n) + 1 / (2 * n ** .5) / n) * 1e4))))
        # steps as long as the box is wide: many are drawn again, each on its own
        for x in alg.pop:
            x.X = np.full(n, .9)
            x.set("sigma", np.array(alg.sigma_max, float))
        off = alg.ask()
        z = ((off.get("X") - .9) / off.get("sigma"))[mu:].ravel()
        z = np.round(z[np.abs(z) > 1e-9], 9)
        ev.append(dict(k="own", n=len(z), distinct=len(np.unique(z)), high=int((z > 0).sum())))
    _, err = guarded(go, timeout=100)
    if err is not None:
        ev.append(dict(k="es", raised=True, exc=err))
    return [{"key": "steps/" + name, "ev": ev}]


# ------------------------------------------------------------------------------------------- changing problems
class Pos:
    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self.d.setdefault(np.asarray(x, float).tobytes(), len(self.d) + 1)


def dynamic(task):
    L, seed = task
    out = []
    for q, h in enumerate(L):
        rng = np.random.default_rng([seed, q])
        name = ["DNSGA2", "DNSGA2", "KGB"][int(rng.integers(3))]
        n, N = int(rng.integers(2, 4)), int(rng.integers(4, 12))
        prob = Plain(n, 2, *box(rng, n), int(rng.integers(1 << 30)), K=int(rng.choice([5, 40])))
        prob.changes = []
        perc = int(rng.choice([10, 30, 50, 100]))
        eps = int(rng.choice([0, 0, 0, 5]))
        share = int(rng.choice([0, 30, 100]))
        ver = str(rng.choice(["A", "B"]))
        noff = int(rng.choice([N, N, 3]))
        cl = int(rng.integers(2, 5))
        if name == "DNSGA2":
            alg = _imp("moo.dnsga2", "DNSGA2")(perc_detect_change=perc / 100, perc_diversity=share / 100, eps=eps, version=ver, pop_size=N, n_offsprings=noff)
        else:
            alg = _imp("moo.kgb", "KGB")(perc_detect_change=perc / 100, perc_diversity=share / 100, eps=eps, c_size=cl, ps={}, pop_size=N, n_offsprings=noff)
        ids, ev = Pos(), []
        # alg.next() is driven; changes happen between the generations
        alg.setup(prob, termination=("n_gen", len(h) + 1), seed=int(rng.integers(1 << 20)), verbose=False)

        def members(P):
            return [dict(x=ids(x.X), f=[int(v) for v in x.F]) for x in P]

        def go():
            alg.next()
            for ch in h:
                if ch != "none":
                    o = np.array([0.0, 0.0])
                    o[int(rng.integers(2))] = float(rng.choice([-7, 3, 9]))
                    prob.changes.append((o, None if ch == "all" else float(rng.choice([.3, .6, .9]))))
                before, c0 = members(alg.pop), alg.evaluator.n_eval
                prob.reqs = []
                alg.next()
                U = prob.unit(np.concatenate(prob.reqs))
                e = dict(k="dyn", low=np.floor(U.min(axis=0) * 1000 + 1e-6).astype(int).tolist(), high=np.ceil(U.max(axis=0) * 1000 - 1e-6).astype(int).tolist(), alg=name, before=before, reqs=[[ids(x) for x in R] for R in prob.reqs], vals=[prob.now(R).astype(int).tolist() for R in prob.reqs], after=members(alg.pop), opt=members(alg.opt),
                         perc=perc, eps=eps, share=share, version=ver, noff=noff, counted=alg.evaluator.n_eval - c0, clusters=cl, size=N, raised=False)
                ev.append(e)
        _, err = guarded(go, timeout=100)
        if err is not None:
            ev.append(dict(k="dyn", raised=True, exc=err))
        out.append({"key": name, "cfg": dict(h=h), "ev": ev})
    return out


def shares(task):
    """how many members of a large population are replaced"""
    seed, = task
    rng = np.random.default_rng(seed)
    out = []
    for ver in ("A",):
        for share in (20, 50, 80):
            N = 300
            prob = Plain(3, 2, *box(rng, 3), int(rng.integers(1 << 30)))
            prob.changes = []
            alg = _imp("moo.dnsga2", "DNSGA2")(perc_diversity=share / 100, version=ver, pop_size=N)
            alg.setup(prob, termination=("n_gen", 3), seed=int(rng.integers(1 << 20)), verbose=False)

            def go():
                alg.next()
                B = {x.X.tobytes() for x in alg.pop}
                prob.changes.append((np.array([5.0, 0]), None))
                prob.reqs = []
                alg.next()
                return sum(r.tobytes() not in B for r in prob.reqs[1])
            r, err = guarded(go, timeout=60)
            out.append({"key": "share/" + ver, "ev": [dict(k="share", n=N, share=share, got=int(r)) if err is None else dict(k="raised")]})
    return out


F = {"e": equation, "f": factors, "s": swarm, "v": strategy, "n": steps, "d": dynamic, "h": shares}


def one(task):
    return F[task[0]](task[1])


def main():
    c = Check("C26")
    rng = np.random.default_rng(SEED)
    S = lambda: int(rng.integers(1 << 30))
    E = [p["c"] for p in c.paths("MC_Motion", 'SPECIFICATION Spec\nCONSTANTS Mode="eq" Gens=0 G=%d\nINVARIANTS Bounded Emit\nCHECK_DEADLOCK FALSE\n' % (3 if THOROUGH else 2))]
    H = [p["h"] for p in c.paths("MC_Motion", 'SPECIFICATION Spec\nCONSTANTS Mode="dyn" Gens=%d G=0\nINVARIANTS Fresh NeverAhead Tables Emit\nCHECK_DEADLOCK FALSE\n' % (6 if THOROUGH else 4))]
    H = [list(h) for h in sorted({tuple(h) for h in H})]
    c.notes["cases_of_the_equation_from_tlc"], c.notes["histories_of_changes_from_tlc"] = len(E), len(H)
    E = [E[i] for i in rng.permutation(len(E))]
    k = 8 if THOROUGH else 1
    tasks = [("e", (E[i::16], S())) for i in range(16)] + [("f", (S(), 5000)) for _ in range(2 * k)]
    tasks += [("s", (n, S(), 8)) for n in ("PSO", "EPPSO", "CMOPSO", "MOPSO_CD") for _ in range((24 if n == "PSO" else 12) * k)]
    tasks += [("v", (n, S(), 7)) for n in ("ES", "SRES", "ISRES") for _ in range(10 * k)]
    tasks += [("n", (n, S())) for n in ("ES", "SRES", "ISRES") for _ in range(2)]
    tasks += [("d", (H[i::32], S())) for i in range(32)] * (3 if THOROUGH else 1)
    tasks += [("h", (S(),))]
    tr = []
    for part in pmap(one, tasks, on_crash=lambda t, w: [{"key": "process-" + t[0], "ev": [dict(k="process ended: " + str(w))]}]):
        tr += part
    c.validate("MotionTrace", tr)
    c.finish(rule="cases of the swarm equation and histories of changes enumerated by TLC and replayed; recorded runs of PSO, EPPSO, CMOPSO, MOPSO-CD, ES, SRES, ISRES, D-NSGA-II (both versions) and KGB with every request to the problem; distributions of factors, leaders, steps and shares", exhaustive=False)


if __name__ == "__main__":
    main()
