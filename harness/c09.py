"""C09: same seed, same run; nothing passed in is modified. Runs.tla (module RunsTrace)."""
from memo import *

NOSEED = set()


def other(name, spec):
    """A problem of another size for the same optimizer: operators shared between instances see both."""
    if spec.get("vtype", "real") == "real":
        return dict(pspec(n_obj=spec["n_obj"], n_var=spec["n_var"] + 4, n_ieq=spec.get("n_ieq", 0), pseed=9, box="skew"))
    if spec["vtype"] == "perm":
        return dict(spec, n_var=spec["n_var"] + 3)
    return None


def one(task):
    name, hists, seed = task
    factory, spec = configurations()[name]
    ev = []
    tr = []
    guarded(lambda: factory(spec))       # importing modules is not part of any run
    # interleaved with other runs and with foreign use of the global generators
    perturb(seed)
    ev.append({"k": "perturb", "g": globals_digest()})
    alt = other(name, spec)
    for h in hists:
        replay(factory, spec, h, 4, ev=ev)
        if alt:
            replay(factory, alt, [{"a": "start", "s": 1}], 3, ev=ev, cfg=2)
    if name != "RVEA":      # needs a generation or evaluation budget
        replay(factory, spec, [{"a": "start", "s": 1}], 77, ev=ev, cfg=3, term=windows(spec["n_obj"]))
    # whole runs: fresh objects, the same objects again, with display, with history
    prob, term = ZooProblem(spec), gen_termination(4)
    algo, err = guarded(lambda: factory(spec))
    if err:
        return {"key": "runs/" + name, "ev": [{"k": "raised", "exc": err}], "meta": {}}
    args = {1: algo, 2: term, 3: prob}
    for c, o in args.items():
        ev.append({"k": "arg", "cfg": 100 + c, "d": shape(o)})
    for i, kw in enumerate([{}, {"verbose": True}, {"history": True}, {"verbose": True, "history": True}]):
        if i == 2:
            perturb(seed + 5)
            ev.append({"k": "perturb", "g": globals_digest()})
        e, err = whole(factory, spec, 11, 4, algo=algo, term=term, prob=prob, **kw)
        ev.append(e)
        for c, o in args.items():
            ev.append({"k": "arg", "cfg": 100 + c, "d": shape(o)})
    e, _ = whole(factory, spec, 12, 4)
    ev.append(e)
    return {"key": "runs/" + name, "ev": ev, "meta": {"spec": spec}}


def fresh(task):
    """The same runs in another order in another process."""
    name, seed = task
    factory, spec = configurations()[name]
    guarded(lambda: factory(spec))
    perturb(seed)
    ev = [{"k": "perturb", "g": globals_digest()}]
    alt = other(name, spec)
    if alt:
        replay(factory, alt, [{"a": "start", "s": 1}], 3, ev=ev, cfg=2)
    if name != "RVEA":      # needs a generation or evaluation budget
        replay(factory, spec, [{"a": "start", "s": 1}], 77, ev=ev, cfg=3, term=windows(spec["n_obj"]))
    for s in (12, 11):
        ev.append(whole(factory, spec, s, 4)[0])
    replay(factory, spec, [{"a": "start", "s": 1}] + [{"a": "step", "r": 1}] * 2, 4, ev=ev, tellmode=True)
    return ev


def crash(task, why):
    return {"key": "runs/" + task[0], "ev": [{"k": "raised", "exc": why}], "meta": {}}


def main():
    c = Check("C09")
    rng = np.random.default_rng(SEED)
    P = c.paths("MC_Runs", "SPECIFICATION Spec\nCONSTANTS Seeds={1,2} MaxSlots=3 MaxGen=3 MaxLen=%d Shared=FALSE\nINVARIANT Inv\nVIEW view\nACTION_CONSTRAINT Out\nCHECK_DEADLOCK FALSE\n" % (7 if THOROUGH else 6))
    P = [p for p in P if len(p) >= 5 and not any(h["a"] in ("copy", "pickle") for h in p) and sum(h["a"] == "start" for h in p) > 1]
    c.notes["histories_from_tlc"] = len(P)
    names = list(configurations())
    T = [(n, [P[i] for i in rng.choice(len(P), 12 if THOROUGH else 3, replace=False)], int(rng.integers(1 << 20))) for n in names]
    tr = pmap(one, T, on_crash=crash)
    more = pmap(fresh, [(n, int(rng.integers(1 << 20))) for n in names], on_crash=lambda t, w: [{"k": "raised", "exc": w}])
    for t, m in zip(tr, more):
        off = sum(1 for e in t["ev"] if e["k"] in ("start", "copy"))
        for e in m:
            if "r" in e:
                e["r"] += off
        t["ev"] += m
    c.validate("RunsTrace", tr)
    c.finish(rule="histories of starting, stepping and perturbing enumerated by MC_Runs, replayed for every optimizer and operator configuration; whole runs with and without display/history, objects reused, in two processes", exhaustive=False)


if __name__ == "__main__":
    main()
