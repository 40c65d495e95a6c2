"""C10: copies of an interrupted run continue like the original. Runs.tla (module RunsTrace)."""
from memo import *

# what these do in a generation depends on the whole budget they were set up with
BUDGETED = {"RVEA", "CMAES", "BIPOPCMAES"}


def one(task):
    name, hists, seed = task
    factory, spec = configurations()[name]
    guarded(lambda: factory(spec))       # importing modules is not part of any run
    perturb(seed)
    ev = [{"k": "perturb", "g": globals_digest()}]
    key = "runs/" + name
    # the uninterrupted runs
    for s in (1, 2):
        replay(factory, spec, [{"a": "start", "s": s}], 5, ev=ev)
    # interrupted, copied and continued ones
    for h in hists:
        replay(factory, spec, h, 5, ev=ev)
    # every copy in its own process state: restored after the generators were used by others
    for how in ("copy", "pickle", "dill"):
        for g in (0, 1, 2, 4) if THOROUGH else (int(seed) % 2, 3):
            replay(factory, spec, [{"a": "start", "s": 1}] + [{"a": "step", "r": 1}] * g + [{"a": how, "r": 1}, {"a": "perturb"}, {"a": "step", "r": 2}, {"a": "copy", "r": 2}], 5, ev=ev)
    # criteria that look back on the last generations: the copies stop where the original does
    if name not in BUDGETED:
        w = windows(spec["n_obj"])
        replay(factory, spec, [{"a": "start", "s": 1}], 77, ev=ev, cfg=3, term=w)
        for how in ("copy", "pickle"):
            for g in (1, 2, 5, 9) if THOROUGH else (1 + int(seed) % 3,):
                replay(factory, spec, [{"a": "start", "s": 1}] + [{"a": "step", "r": 1}] * g + [{"a": how, "r": 1}], 77, ev=ev, cfg=3, term=w)
    # finished, then continued with a larger budget; the long run first
    if name not in BUDGETED:
        replay(factory, spec, [{"a": "start", "s": 3}], 7, ev=ev)
        for h in ([{"a": "start", "s": 3}], [{"a": "start", "s": 3}] + [{"a": "step", "r": 1}] * 5 + [{"a": "pickle", "r": 1}]):
            replay(factory, spec, h, 4, extend=7, ev=ev)
    # the history consists of copies as well
    prob = ZooProblem(spec)
    e, err = whole(factory, spec, 11, 5, prob=prob, history=True)
    ev.append(e)
    ev += getattr(prob, "snaps", [])
    return {"key": key, "ev": ev, "meta": {"spec": spec}}


def crash(task, why):
    return {"key": "runs/" + task[0], "ev": [{"k": "raised", "exc": why}], "meta": {}}


def main():
    c = Check("C10")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION Spec\nCONSTANTS Seeds={1,2} MaxSlots=3 MaxGen=3 MaxLen=%d Shared=%s\nINVARIANT Inv\nVIEW view\nCHECK_DEADLOCK FALSE\n"
    P = c.paths("MC_Runs", cfg % (7 if THOROUGH else 6, "FALSE") + "ACTION_CONSTRAINT Out\n")
    rc, out, _, _ = c.tlc("MC_Runs", cfg % (6, "TRUE"))
    if rc == 0 or "Invariant Inv is violated" not in out:
        raise RuntimeError("the specification does not notice a copy that shares its generator")
    P = [p for p in P if len(p) >= 5 and any(h["a"] in ("copy", "pickle") for h in p)]
    c.notes["histories_from_tlc"] = len(P)
    T = [(n, [P[i] for i in rng.choice(len(P), 16 if THOROUGH else 3, replace=False)], int(rng.integers(1 << 20))) for n in configurations()]
    c.validate("RunsTrace", pmap(one, T, on_crash=crash))
    c.finish(rule="histories of starting, stepping, copying, pickling and perturbing enumerated by MC_Runs, replayed for every optimizer and operator configuration; copies after 0..4 generations by deepcopy, pickle and dill; budgets extended after the end; histories", exhaustive=False)


if __name__ == "__main__":
    main()
