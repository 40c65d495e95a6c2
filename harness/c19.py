"""C19: quality indicators. Indicators.tla (modules MC_Indicators, IndTrace)."""
from common import *
import_repo()
import types
import numpy as np
from pymoo.indicators.hv import Hypervolume, HV
from pymoo.indicators.hv.approximate import ApproximateHypervolume
from pymoo.indicators.gd import GD
from pymoo.indicators.igd import IGD
from pymoo.indicators.gd_plus import GDPlus
from pymoo.indicators.igd_plus import IGDPlus
from pymoo.indicators.epsilon import Epsilon, EpsilonMultiplicative
from pymoo.indicators.spacing import SpacingIndicator
from pymoo.indicators.migd import MIGD
from pymoo.indicators.rmetric import RMetric

DIST = {"gd": GD, "igd": IGD, "gd+": GDPlus, "igd+": IGDPlus}


def whole(x, tol=1e-6):
    r = round(float(x))
    return int(r) if np.isfinite(x) and abs(float(x) - r) <= tol * max(1.0, abs(r)) else -999999


def clamp(x):
    return int(max(-10**9, min(10**9, round(x)))) if np.isfinite(x) else -999999


def evaluate(key, ind, make, sets, P, ref=None, zto=False, bydist=False, ideal=None, nadir=None, rawref=False, kind=float, q=1.0):
    """one indicator object over several sets; q: the unit of the objectives"""
    m = len(P[0]) if P else len(ref)
    L = 4 if zto or bydist else 1
    Pa = np.array(P, kind) * (1 if kind is int else q) if P else None
    P0 = None if Pa is None else Pa.copy()
    obj, err0 = guarded(lambda: make(Pa))
    ev = []
    for F in sets:
        A = np.array(F, kind).reshape(-1, m) * (1 if kind is int else q)
        one = kind is float and len(F) == 1 and len(ev) == 0
        A0 = A.copy()
        v, err = guarded(lambda: (obj(A[0]) if one else obj.do(A))) if err0 is None else (None, err0)
        val = 0
        if err is None:
            v = float(v) / (q ** m if ind == "hv" else 1.0 if ind == "eps*" else q)
            if ind == "hv":
                val = whole(v * L**m)
            elif ind in DIST:
                val = clamp(v * L * 1000 * (len(F) if ind in ("gd", "gd+") else len(P)))
            elif ind == "eps":
                val = whole(v * L)
            elif ind == "eps*":
                val = clamp(np.floor(v * 100000 + 1e-6))
            else:
                val = whole(v * v * len(F) ** 2 * L**2)
        ev.append(dict(k="value", ind=ind, F=F, P=P or [], ref=ref or [], zto=zto, bydist=bydist, ideal=ideal or [0] * m, nadir=nadir or [1] * m, L=L, rawref=rawref, val=val,
                       clean=bool(np.array_equal(A, A0) and (Pa is None or np.array_equal(Pa, P0))), raised=err is not None, exc=err or ""))
    return {"key": key, "ev": ev}


def unit(rng, kind=float):
    return 1.0 if kind is int else 2.0 ** int(rng.choice([0, 0, -33, -12, 17]))


def all_of(sets, P, ref, kind, norm=None, q=1.0):
    """every indicator for the same sets; norm: (ideal, nadir) or None"""
    out = []
    kw = dict(zto=norm is not None, ideal=norm and norm[0], nadir=norm and norm[1])
    k2 = {} if norm is None else dict(zero_to_one=True, ideal=np.array(norm[0], kind), nadir=np.array(norm[1], kind))
    tag = "" if norm is None else "-norm"
    r = np.array(ref, kind) * (1 if kind is int else q)
    kw["q"] = q
    out.append(evaluate("hv" + tag, "hv", lambda P_: (HV if kind is int else Hypervolume)(ref_point=r, **k2), sets, [], ref=ref, kind=kind, **kw))
    for n, cl in DIST.items():
        out.append(evaluate(n + tag, n, lambda P_: cl(P_, **k2), sets, P, kind=kind, **kw))
    out.append(evaluate("eps" + tag, "eps", lambda P_: Epsilon(P_, **k2), sets, P, kind=kind, **kw))
    if all(len(s) > 1 for s in sets):
        out.append(evaluate("spacing" + tag, "spacing", lambda P_: SpacingIndicator(**k2), sets, P, kind=kind, **kw))
    return out


def replay(task):
    L, seed = task
    rng = np.random.default_rng(seed)
    out = []
    for h in L:
        A, B = h["A"], h["B"]
        m = len(A[0])
        out += all_of([A, B, A], B, [2] * m, int if rng.random() < 0.3 else float)
    return out


def power(rng):
    return int(rng.choice([1, 2, 4]))


def randoms(task):
    seed, n = task
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        m = int(rng.choice([1, 2, 2, 3, 3, 4]))
        K = int(rng.choice([2, 3, 5])) if m < 4 else 3
        pts = lambda a, b: rng.integers(0, K + 1, (int(rng.integers(a, b)), m)).tolist()
        sets = [pts(1, 8) for _ in range(3)]
        P = pts(1, 7)
        kind = int if rng.random() < 0.25 else float
        ref = rng.integers(1, K + 2, m).tolist()
        # permuted, with duplicates and dominated points added
        F = sets[0]
        G = [F[i] for i in rng.permutation(len(F))] + [F[int(rng.integers(len(F)))]]
        H = F + [[min(K, x + int(rng.integers(0, 2))) for x in F[0]]]
        u = unit(rng, kind)
        out += all_of(sets + [G, H], P, ref, kind, q=u)
        # preset normalisation, also without extent
        id_ = rng.integers(-1, 2, m).tolist()
        nd = [i + power(rng) if rng.random() < 0.9 else i for i in id_]
        out += all_of(sets + [G], P, ref, kind, norm=(id_, nd))
        out.append(evaluate("hv-raw-ref", "hv", lambda P_: Hypervolume(ref_point=np.array([1.0 + K] * m), zero_to_one=True, ideal=np.array(id_, float), nadir=np.array(nd, float), norm_ref_point=False), sets, [], ref=[K + 1] * m, zto=True, ideal=id_, nadir=nd, rawref=True))
        # bounds taken from the front
        col = [[int(rng.integers(-1, 2)), power(rng)] for _ in range(m)]
        Q = [[c[0] if b else c[0] + c[1] for c, b in zip(col, row)] for row in [[True] * m, [False] * m] + (rng.random((int(rng.integers(0, 3)), m)) < 0.5).tolist()]
        Q = [Q[i] for i in rng.permutation(len(Q))]
        fid, fnd = np.min(Q, axis=0).tolist(), np.max(Q, axis=0).tolist()
        kw = dict(ideal=fid, nadir=fnd, kind=kind)
        out.append(evaluate("hv-front", "hv", lambda P_: Hypervolume(pf=P_, zero_to_one=True), sets, Q, ref=fnd, zto=True, **kw))
        out.append(evaluate("hv-front-plain", "hv", lambda P_: Hypervolume(pf=P_), sets, Q, ref=fnd, **kw))
        out.append(evaluate("eps-front", "eps", lambda P_: Epsilon(P_, zero_to_one=True), sets, Q, zto=True, **kw))
        s2 = [pts(2, 7) for _ in range(2)]
        out.append(evaluate("spacing-front", "spacing", lambda P_: SpacingIndicator(pf=P_, zero_to_one=True), s2, Q, zto=True, **kw))
        for nme, cl in DIST.items():
            out.append(evaluate(nme + "-front", nme, lambda P_: cl(P_, zero_to_one=True), sets, Q, zto=True, **kw))
            out.append(evaluate(nme + "-bydist", nme, lambda P_: cl(P_, norm_by_dist=True), sets, Q, bydist=True, **kw))
            out.append(evaluate(nme + "-bydist-given", nme, lambda P_: cl(P_, norm_by_dist=True, ideal=np.array(fid, float), nadir=np.array([f + 4 for f in fid], float)), sets, P, bydist=True, ideal=fid, nadir=[f + 4 for f in fid], kind=kind, q=u))
            out.append(evaluate(nme + "-both", nme, lambda P_: cl(P_, norm_by_dist=True, zero_to_one=True), sets, Q, zto=True, **kw))
            out.append(evaluate(nme + "-row", nme, lambda P_: cl(P_[0]), sets, P[:1], kind=kind))
        pos = lambda S: [[x + 1 for x in r] for r in S]
        out.append(evaluate("eps*", "eps*", lambda P_: EpsilonMultiplicative(P_), [pos(s) for s in sets], pos(P), kind=kind, q=u))
        out.append(evaluate("empty-hv", "hv", lambda P_: Hypervolume(ref_point=np.array(ref, float)), [[]], [], ref=ref))
        for nme, cl in DIST.items():
            out.append(evaluate("empty", nme, lambda P_: cl(P_), [[]], P))
        out.append(incremental(rng, m, K))
        out.append(mean(rng, m))
        out.append(rmetric(rng, int(rng.choice([2, 3]))))
    return out


def incremental(rng, m, K):
    m = max(2, m)
    ref = rng.integers(1, K + 2, m).tolist()
    box = {}

    def go():
        a = ApproximateHypervolume(ref_point=np.array(ref, float), n_samples=10000, seed=1)
        box["a"] = a
    _, err = guarded(go)
    ev = []
    cur = 0
    for _ in range(int(rng.integers(2, 7))):
        if cur and rng.random() < 0.45:
            i = int(rng.integers(cur))
            o = dict(op="del", i=i + 1, F=[])
            _, err = guarded(lambda: box["a"].delete(i))
            cur -= 1
        else:
            F = rng.integers(0, K + 1, (int(rng.integers(1, 4)), m)).tolist()
            o = dict(op="add", i=0, F=F)
            _, err = guarded(lambda: box["a"].add(np.array(F, float)))
            cur += len(F)
        a = box["a"]
        o.update(k="incr", ref=ref, raised=err is not None, exc=err or "", F2=np.array(a.F).astype(int).tolist(), hvc=[whole(x) for x in np.atleast_1d(a.hvc)], hv=clamp(100 * float(a.hv)))
        ev.append(o)
    return {"key": "incremental", "ev": ev}


def mean(rng, m):
    """the mean over the time steps of a dynamic problem"""
    n = int(rng.integers(1, 4))
    pts = lambda: rng.integers(0, 5, (int(rng.integers(1, 5)), m)).tolist()
    re = bool(rng.random() < 0.5)
    cb = MIGD(reevaluate=re)
    sets, err = [], None
    for k in range(n):
        F, P, old = pts(), pts(), pts()
        t = int(rng.integers(0, 9))

        class Prob:
            n_constr, time = 0, t

            def pareto_front(self):
                return np.array(P, float)

            def evaluate(self, X, return_values_of=None, **kw):
                return np.array(F, float)

        class Pop:
            def get(self, k):
                return np.array(old if re and k == "F" else F, float)
        if err is None:
            _, err = guarded(lambda: cb.update(types.SimpleNamespace(problem=Prob(), pop=Pop())))
        sets.append(dict(F=F, P=P, t=t))
    v, e2 = guarded(cb.value)
    err = err or e2
    return {"key": "migd", "ev": [dict(k="mean", sets=sets, common=10, val=0 if err else clamp(float(v) * n * 10000), times=[] if err else [int(t) for t, _ in cb.records], raised=err is not None, exc=err or "")]}


def rmetric(rng, m):
    R = rng.integers(0, 6, (int(rng.integers(1, 3)), m)).tolist()
    F, P = rng.integers(0, 7, (int(rng.integers(1, 7)), m)).tolist(), rng.integers(0, 7, (int(rng.integers(1, 6)), m)).tolist()
    O = rng.integers(0, 7, (int(rng.integers(0, 3)), m)).tolist()
    width = int(rng.choice([1, 2, 3, 4, 6]))
    w = int(rng.choice([1, 1, 2]))
    prob = types.SimpleNamespace(pareto_front=lambda: np.array(P, float))
    giv = rng.random() < 0.5
    f = lambda: RMetric(prob, np.array(R, float), delta=float(width), pf=np.array(P, float) if giv else None, **({} if w == 1 else dict(w=np.full(m, float(w))))).do(np.array(F, float), others=np.array(O, float) if O else None)
    v, err = guarded(f)
    none = err is None and v[0] is None
    bad = err is not None or none
    return {"key": "rmetric", "ev": [dict(k="rmetric", F=F, P=P, others=O, refs=R, width=width, w=w, none=bool(none), rigd=0 if bad else clamp(1000 * float(v[0])), rhv=0 if bad or v[1] is None else whole(v[1]), raised=err is not None, exc=err or "")]}


def one(t):
    return {"p": replay, "r": randoms}[t[0]](t[1])


def crash(task, why):
    return [{"key": "crash", "ev": [dict(k="crash")]}]


def main():
    c = Check("C19")
    rng = np.random.default_rng(SEED)
    H = []
    for m, k, n in ((2, 2, 2), (2, 2, 3), (3, 1, 3)) if THOROUGH else ((2, 2, 2), (3, 1, 2)):
        H += c.paths("MC_Indicators", "SPECIFICATION Spec\nCONSTANTS M=%d K=%d N=%d\nINVARIANT Compliance Eps Self NoContribution Cells Contr Root EmitInv\nCHECK_DEADLOCK FALSE\n" % (m, k, n))
    c.notes["pairs_from_tlc"] = len(H)
    if not THOROUGH or len(H) > 6000:
        H = [H[i] for i in rng.permutation(len(H))[:6000 if THOROUGH else 500]]
    tasks = [("p", (H[i::16], int(rng.integers(1 << 30)))) for i in range(16)] + [("r", (int(rng.integers(1 << 30)), 6)) for _ in range(150 if THOROUGH else 12)]
    tr = []
    for part in pmap(one, tasks, on_crash=crash):
        tr += part
    c.validate("IndTrace", tr)
    c.finish(rule="pairs of point sets enumerated by TLC on 3x3 and 2x2x2 grids (all indicators, sets in turn, one object); random sets of 1-8 points in 1-4 objectives with preset, derived and degenerate normalisations; additions and deletions; R-metric; mean over time", exhaustive=False)


if __name__ == "__main__":
    main()
