"""C01: the generation protocol, against Lifecycle.tla (module LifeTrace)."""
from runs import *
import hashlib


def h(*a):
    m = hashlib.sha1()
    for x in a:
        m.update(repr(x).encode())
    return m.hexdigest()[:12]


def rows(p, keys=("X", "F", "G", "H")):
    if p is None:
        return None
    return [[None if p[k][i] is None else np.asarray(p[k][i]).tolist() for k in keys] for i in range(p["n"])]


def project(r, hist, arch):
    """Tape of a run -> events of module LifeTrace, and the digests of its generations."""
    ids = {}
    loop = is_loopwise(r["algo"])
    ev, digs, cur, fresh = [], [], [], []
    small = lambda L: [ids.setdefault(x, len(ids) + 1) for x in L]
    out, cb_off = None, True
    ended, extra, cbs, sts = False, 0, 0, []
    for e in r["ev"]:
        k = e["k"]
        if k == "infill":
            out = e["ids"]
            ev.append({"k": k, "n": e["n"] or 0, "stamps": [a if a == b and a is not None else -1 for a, b in e["stamps"]],
                       "nil": e["nil"], "force": e["force"], "out": small(e["ids"])[:50]})
        elif k == "eval":
            cur.append(np.asarray(e["rows"]).tolist())
            ev.append({"k": k, "rows": len(e["rows"])})
        elif k == "adv":
            ev.append({"k": k, "n": e["n"]})
        elif k == "term":
            ev.append({"k": k, "n": e["n"], "stop": bool(e["stop"])})
        elif k in ("disp", "cb-init"):
            ev.append({"k": k, "n": e["n"]})
        elif k == "cb":
            same = True
            if hist and e["hpop"] is not None:
                same = rows(e["hpop"]) == rows(e["pop"]) and rows(e["hopt"]) == rows(e["opt"])
            offids = e["off"]["ids"] if e["off"] is not None else []
            dg = h(cur, rows(e["pop"]), rows(e["opt"]))
            cur = []
            digs.append(dg)
            sts.append(h(e["n_eval"], e["n"], rows(e["pop"]), rows(e["opt"])))
            ev.append({"k": k, "st": small(sts[-1:])[0], "n": e["n"], "hist": e["hist"], "histn": [(x or 0) - 0 for x in e["hist_n"]], "same": same,
                       "off": offids == out, "dg": dg})
        elif k == "arch":
            ev.append({"k": k, "out": small(e["ids"])[:50]})
        elif k == "fin":
            ev.append({"k": k})
        elif k == "done":
            ev.append({"k": k, "n": e["n"], "init": e["init"], "next": e["next"], "result": e["result"], "off": e["off"]})
            cbs = sum(x["k"] == "cb" for x in ev)
    if r["err"]:
        ev.append({"k": "raised", "exc": r["err"]})
    else:
        if hist:
            # what the snapshots look like now that the run is over
            past = [h(x.evaluator.n_eval, x.n_iter, rows(snap(x.pop)), rows(snap(x.opt))) for x in r["algo"].history]
            ev.append({"k": "past", "st": small(past)})
        ev.append({"k": "end", "extra": r.get("extra", 0), "gens": (r["algo"].n_iter or 1) - 1})
    return ev, digs, loop


def cfg_of(algo, hist, arch, ref):
    # a multi-objective swarm keeps an archive of its own instead of the one passed in
    arch = arch and algo is not None and isinstance(algo.archive, TapeArchive)
    internal = algo is not None and any(c.__name__ in ("DNSGA2", "KGB") for c in type(algo).__mro__)
    return {"loop": algo is not None and is_loopwise(algo), "hist": hist, "arch": arch, "ref": ref, "internal": internal}


def drive_program(name, m, spec, n, seed, prog):
    """Replays a sequence of public calls that the specification enumerated, then runs to the end."""
    tape = Tape()
    prob = RecProblem(spec)
    algo, tr = make_algo(name, m, spec.get("vtype", "real"), spec)
    tap(algo, tape)
    prob.on_eval = lambda X: tape("eval", rows=np.array(X, copy=True))
    term = tap_termination(gen_termination(n), tape)

    def go():
        algo.setup(prob, seed=seed, callback=TapeCallback(tape), termination=term, display=TapeDisplay(tape), archive=TapeArchive(tape))
        for call in list(prog) + ["run"]:
            if not algo.has_next() and call != "run":
                continue
            if call == "next":
                algo.next()
            elif call == "asktell":
                inf = algo.ask()
                if inf is None:
                    algo.tell()
                else:
                    algo.evaluator.eval(prob, inf)
                    algo.tell(infills=inf)
            elif call == "static":
                from pymoo.problems.static import StaticProblem
                inf = algo.ask()
                if inf is None:
                    algo.tell()
                    continue
                new = Population.create(*[i for i in members(inf) if not i.evaluated])
                X = np.array([i.X for i in new])
                out = prob.evaluate(X, return_as_dictionary=True)
                algo.evaluator.eval(StaticProblem(prob, **out), new)
                algo.tell(infills=inf)
            elif call == "look":
                algo.has_next(); algo.n_gen; algo.termination.perc
                if algo.is_initialized:
                    algo.result()
            elif call == "run":
                algo.run()
        k = len(tape.ev)
        algo.run()                       # nothing is left to do
        return len(tape.ev) - k
    extra, err = guarded(go, timeout=90)
    return dict(ev=tape.ev, algo=algo, err=err, extra=extra or 0)


def work(task):
    name, m, spec, n, seed, progs, tag = task
    key = "%s/m%d/%s" % (name, m, tag)
    out = []
    hist = seed % 2 == 0
    r = record(name, m, spec, gen_termination(n), seed=seed, history=hist)
    ev, ref, loop = project(r, hist, True)
    out.append({"key": key + "/run", "cfg": cfg_of(r["algo"], hist, True, []), "ev": ev})
    if r["err"]:
        return out
    for prog in progs:
        d = drive_program(name, m, spec, n, seed, prog)
        ev, _, loop = project(d, False, True)
        out.append({"key": key + "/" + "-".join(prog), "cfg": cfg_of(d["algo"], False, True, ref), "ev": ev})
    for drive in ("next", "static"):
        d = record(name, m, spec, gen_termination(n), seed=seed, history=not hist, drive=drive, archive=False)
        ev, _, loop = project(d, not hist, False)
        out.append({"key": key + "/drive-" + drive, "cfg": cfg_of(d["algo"], not hist, False, ref), "ev": ev})
    return out


def crash(task, why):
    return [{"key": "%s/m%d/%s" % (task[0], task[1], task[6]), "cfg": cfg_of(None, False, False, []), "ev": [{"k": "raised", "exc": why}]}]


def tasks(rng, progs, per, many):
    T = []
    for m in (1, 2, 3):
        A = moo_algorithms(m) if m > 1 else soo_algorithms()
        for name in A:
            tr = A[name][1]
            for con in ((0,) if tr.get("unconstr") else (0, 2)):
                if m == 3 and con and not many:
                    continue
                for rep in range(many or 1):
                    box = ["unit", "skew", "huge"][int(rng.integers(3))]
                    feas = ["some", "hard", "easy"][int(rng.integers(3))]
                    spec = pspec(n_obj=m, n_var=int(rng.integers(2, 5)), n_ieq=con, feas=feas, K=int(rng.choice([8, 40, 1000])), box=box, pseed=int(rng.integers(1000)))
                    n = int(rng.integers(3, 7))
                    pick = [progs[i] for i in rng.choice(len(progs), per, replace=False)]
                    T.append((name, m, spec, n, int(rng.integers(1, 10000)), pick, "con%d-%d" % (con, rep)))
    for vt, box in (("int", "grid"), ("bool", "bin")):
        for m in (1, 2):
            A = moo_algorithms(m, vt) if m > 1 else soo_algorithms(vt)
            for name in A:
                spec = pspec(n_obj=m, n_var=4 if vt == "int" else 6, vtype=vt, box=box, pseed=int(rng.integers(1000)))
                pick = [progs[i] for i in rng.choice(len(progs), per, replace=False)]
                T.append((name, m, spec, 5, int(rng.integers(1, 10000)), pick, vt))
    return T


def callbacks(c):
    """Collections of callbacks notify every member once per generation."""
    from pymoo.core.callback import CallbackCollection
    from pymoo.optimize import minimize
    tr = []
    for depth in (1, 2):
        tapes = [Tape() for _ in range(3)]
        cbs = [TapeCallback(t) for t in tapes]
        coll = CallbackCollection(*cbs) if depth == 1 else CallbackCollection(cbs[0], CallbackCollection(*cbs[1:]))
        algo, _ = make_algo("NSGA2", 2, "real", pspec())
        _, err = guarded(lambda: minimize(RecProblem(pspec()), algo, gen_termination(4), seed=1, callback=coll, copy_algorithm=False))
        for i, t in enumerate(tapes):
            tr.append({"key": "callback-collection-%d/%d" % (depth, i), "cfg": {"n": 4},
                       "ev": [{"k": "seen", "kinds": [e["k"] for e in t.ev], "gens": [e["n"] for e in t.ev]}] if not err else [{"k": "raised", "exc": err}]})
    c.validate("CallTrace", tr)


def main():
    c = Check("C01")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Budget=%d Depth=%d Calls={\"next\",\"asktell\",\"static\",\"look\"}\nINVARIANT Inv\nPROPERTY Monotone\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
           % ((3, 4) if THOROUGH else (2, 3)))
    progs = sorted({tuple(p["calls"]) for p in c.generate("MC_Lifecycle", cfg)})
    rng = np.random.default_rng(SEED)
    T = tasks(rng, progs, 12 if THOROUGH else 3, 4 if THOROUGH else 0)
    tr = [x for L in pmap(work, T, on_crash=crash) for x in L]
    c.validate("LifeTrace", tr)
    callbacks(c)
    c.notes["driver_programs_from_tlc"] = len(progs)
    c.notes["runs"] = len(tr)
    c.finish(rule="every optimizer on random problems; plain run, next loop, ask/tell with external values, and driver programs enumerated by MC_Lifecycle", exhaustive=False)


if __name__ == "__main__":
    main()
