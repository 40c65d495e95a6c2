"""Shared machinery of all checks: sandbox set-up, TLC runs, traces, verdicts, evidence.

A check consists of (a) model checking of a design module with TLC, (b) histories/cases that TLC
generates from the specification and that are replayed on the real code, and (c) traces recorded
from the real code that TLC validates against the same specification operators.  Nothing here
judges behaviour: verdicts are the names of the specification clauses TLC finds violated.
"""
import os, sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

import json, re, shutil, signal, subprocess, tempfile, time, traceback, warnings, atexit, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 1)


def import_repo():
    """Puts the code under test on the path (and only that copy of it)."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    import pymoo
    assert os.path.realpath(pymoo.__file__).startswith(os.path.realpath(REPO) + "/"), pymoo.__file__
    from pymoo.config import Config
    Config.warnings["not_compiled"] = False
    return pymoo


def ensure_ext():
    """The compiled extensions must come from the current .pyx sources: rebuild if they do not."""
    ext = os.path.join(REPO, "pymoo/functions/compiled")
    stamp = os.path.join(REPO, "build/vp-ext.stamp")
    cur = subprocess.run("{ ls pymoo/functions/compiled/*.so; sha256sum setup.py pymoo/functions/compiled/*.pyx "
                         "pymoo/functions/compiled/*.pxd pymoo/functions/compiled/*.so; } 2>/dev/null",
                         shell=True, cwd=REPO, capture_output=True, text=True, env={**os.environ, "LC_ALL": "C.UTF-8"}).stdout
    old = open(stamp).read() if os.path.exists(stamp) else None
    if cur == old:
        return
    env = dict(os.environ, HOME="/root", LC_ALL="C.UTF-8", CC="/usr/bin/gcc", CXX="/usr/bin/g++",
               PATH="/opt/venv/bin:" + os.environ.get("PATH", ""), PYTHONDONTWRITEBYTECODE="1")
    # same recipe as the repository's build: products go to git-ignored places only
    os.makedirs(os.path.join(REPO, "build"), exist_ok=True)
    for f in [stamp] + [os.path.join(ext, f) for f in os.listdir(ext) if f.endswith((".so", ".cpp"))]:
        if os.path.exists(f):
            os.remove(f)
    cmd = ("/opt/venv/bin/python setup.py -q build_ext --inplace -j 8 > build/vp-ext.log 2>&1 || { cat build/vp-ext.log; exit 1; }; "
           "{ ls pymoo/functions/compiled/*.so; sha256sum setup.py pymoo/functions/compiled/*.pyx "
           "pymoo/functions/compiled/*.pxd pymoo/functions/compiled/*.so; } > build/vp-ext.stamp 2>/dev/null")
    r = subprocess.run(["bash", "-c", cmd], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-2000:], r.stderr[-2000:], file=sys.stderr)
        raise RuntimeError("extensions do not compile")


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def guarded(fn, *a, timeout=120):
    """Runs fn; returns (value, None) or (None, 'ExcType: message') ('HANG' on timeout)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        return fn(*a), None
    except Hang:
        return None, "HANG"
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        loc = ""
        for fr in reversed(tb):
            if fr.filename.startswith(REPO):
                loc = " @%s:%s" % (os.path.relpath(fr.filename, REPO), fr.name)
                break
        return None, "%s: %s%s" % (type(e).__name__, str(e)[:160], loc)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def pmap(fn, tasks, procs=NPROC, on_crash=None, timeout=300):
    """Runs fn over tasks, one forked child per task (order kept). A child that dies (segmentation
    fault, kill) or outlives the timeout yields on_crash(task, reason)."""
    import pickle, select
    tasks = list(tasks)
    res = [None] * len(tasks)
    if on_crash is None:
        def on_crash(task, why):
            raise RuntimeError("worker died on %r: %s" % (str(task)[:200], why))
    running, nxt = {}, 0
    sys.stdout.flush(); sys.stderr.flush()
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < procs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    data = pickle.dumps(fn(tasks[nxt]))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException:  # noqa
                    traceback.print_exc()
                    code = 9
                os._exit(code)
            os.close(w)
            running[r] = [nxt, pid, time.time(), []]
            nxt += 1
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                running[r][3].append(d)
                continue
            i, pid, _, buf = running.pop(r)
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if buf and st == 0:
                res[i] = pickle.loads(b"".join(buf))
            elif st == 9 << 8:
                raise RuntimeError("machinery failure in worker")
            else:
                res[i] = on_crash(tasks[i], "CRASH (wait status %d)" % st)
        for r in list(running):
            i, pid, t0, buf = running[r]
            if time.time() - t0 > timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                running.pop(r)
                res[i] = on_crash(tasks[i], "HANG")
    return res


def enc(o):
    """JSON-able copy of o for TLC (only ints, booleans, strings, arrays, objects; no null)."""
    import numpy as np
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    if isinstance(o, np.ndarray):
        return enc(o.tolist())
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        v = int(o)
        assert -2**31 < v < 2**31, v
        return v
    if isinstance(o, (float, np.floating)):
        v = float(o)
        assert v == int(v) and abs(v) < 2**31, ("non-integer float in a trace", v)
        return int(v)
    if isinstance(o, str):
        return o
    if isinstance(o, (set, frozenset)):
        return enc(sorted(o))
    raise TypeError("cannot encode %r" % (o,))


class Ranks:
    """Order-preserving dense integer codes for floats: a<b <=> code(a)<code(b); NaN -> -1."""

    def __init__(self, *arrays):
        import numpy as np
        vals = [np.asarray(a, dtype=float).ravel() for a in arrays]
        v = np.concatenate(vals) if vals else np.array([])
        self.u = np.unique(v[~np.isnan(v)])

    def __call__(self, a):
        import numpy as np
        a = np.asarray(a, dtype=float)
        r = np.searchsorted(self.u, a)
        return np.where(np.isnan(a), -1, r).astype(int)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(lambda p=os.getpid(): os.getpid() == p and shutil.rmtree(self.tmp, ignore_errors=True))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.assumptions, self.notes = [], [], [], {}
        self.known_hit = {}
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in (json.load(open(kf)) if os.path.exists(kf) else []) if k.get("property") == pid and k.get("status", "known") == "known"]
        ensure_ext()

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=NPROC, timeout=800, extra=(), heap="6g"):
        d = tempfile.mkdtemp(dir=self.tmp)
        cf = os.path.join(d, module + ".cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-config", cf, "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
               *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        out = r.stdout + r.stderr
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, out, gen, dist

    def model_check(self, module, cfg, env=None, must_states=1, **kw):
        """Design-level model checking: the specification itself must satisfy its properties."""
        rc, out, gen, dist = self.tlc(module, cfg, env, **kw)
        if rc != 0 or dist < must_states:
            print(out[-4000:])
            raise RuntimeError("design model %s is not accepted by TLC (machinery failure)" % module)
        self.states += dist
        self.transitions += gen
        self.notes.setdefault("models", []).append({"module": module, "distinct_states": dist, "states_generated": gen})
        return out

    def generate(self, module, cfg, env=None, **kw):
        """Runs a generator module; returns the JSON objects it wrote to IOEnv.OUT_FILE."""
        of = os.path.join(self.tmp, "gen-%s-%d.ndjson" % (module, len(os.listdir(self.tmp))))
        self.model_check(module, cfg, dict(env or {}, OUT_FILE=of), **kw)
        with open(of) as f:
            return [json.loads(x) for x in f if x.strip()]

    def paths(self, module, cfg, env=None, **kw):
        """Histories printed by an explored model (one per transition of its state graph)."""
        out = self.model_check(module, cfg, env, workers=1, **kw)
        return [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"PATH ')]

    def validate(self, module, traces, chunk=20000, replay=None, workers=NPROC, consts=""):
        """Validates recorded traces with TLC. Each trace: {'key':..,'cfg':{..},'ev':[..]}."""
        traces = list(traces)
        if not traces:
            raise RuntimeError("no traces recorded for " + module)
        clean = [{"key": t["key"], "cfg": enc(t.get("cfg", {"z": 0})), "ev": enc(t["ev"])} for t in traces]
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n" + consts
        nev = 0
        groups, cur, sz = [], [], 0
        for i, t in enumerate(clean):      # bounded file size per TLC run
            s = json.dumps(t)
            cur.append((i, s)); sz += len(s)
            if sz > 40_000_000 or len(cur) >= chunk:
                groups.append(cur); cur, sz = [], 0
        if cur:
            groups.append(cur)
        for g in groups:
            bad = []
            for attempt in range(12):
                tf = os.path.join(self.tmp, "trace-%s.ndjson" % module)
                with open(tf, "w") as f:
                    for _, s in g:
                        f.write(s + "\n")
                rc, out, gen, dist = self.tlc(module, cfg, {"TRACE_FILE": tf}, workers=workers)
                nexp = sum(len(clean[i]["ev"]) + 1 for i, _ in g)
                bad += [(g[int(m.group(1)) - 1][0], int(m.group(2)), re.findall(r'"([^"]*)"', m.group(3)))
                        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{[^}]*\})\s*>>', out)]
                if rc == 0 and dist == nexp:
                    break
                # an event the specification cannot even interpret is rejected; the rest is validated again without it
                tt = re.findall(r"^(?:/\\ )?t = (\d+)$", out, re.M)
                ll = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
                if "Error" not in out or not tt or attempt == 11 or "OutOfMemory" in out:
                    print(out[-6000:])
                    raise RuntimeError("trace validation by %s ended with rc=%s after %s of %s states" % (module, rc, dist, nexp))
                k = int(tt[-1]) - 1
                if os.environ.get("VERIF_DEBUG"):
                    print(out[-3000:])
                bad.append((g[k][0], int(ll[-1]) + 1 if ll else 1, ["uninterpretable"]))
                g = g[:k] + g[k + 1:]
                if not g:
                    break
            self.states += dist
            self.transitions += gen
            nev += max(0, nexp - len(g))
            seen = set()
            for i, l, cl in bad:
                for c in cl:
                    if (i, l, c) not in seen:
                        seen.add((i, l, c))
                        self.report(traces[i], clean[i], l, c, module, replay)
        self.traces += len(clean)
        self.events += nev
        if len(self.samples) < 6:
            self.samples.append({"module": module, "trace": json.loads(json.dumps(clean[len(clean) // 2])[:3000]) if len(json.dumps(clean[len(clean) // 2])) < 3000 else {"key": clean[len(clean) // 2]["key"], "first_event": clean[len(clean) // 2]["ev"][:1]}})

    # ------------------------------------------------------------ verdicts
    def report(self, trace, clean, l, clause, module, replay=None):
        ev = clean["ev"][l - 1] if 0 < l <= len(clean["ev"]) else {}
        ident = "%s:%s" % (trace["key"], clause)
        for k in self.known:
            if k["id"] == ident or (k.get("regex") and re.fullmatch(k["regex"], ident)):
                self.known_hit.setdefault(k["id"], k)
                return
        self.violations.append({"property": self.pid, "id": ident, "clause": clause, "module": module, "event_index": l,
                                "event": ev, "cfg": clean.get("cfg"), "meta": trace.get("meta"), "seed": SEED, "tier": TIER,
                                "trace": clean if len(json.dumps(clean)) < 200000 else None})

    def finish(self, rule=None, exhaustive=None):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
        rp = os.path.join(ev, "replay", self.pid + ".json")
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        seen, uniq = set(), []
        for v in self.violations:
            if v["id"] not in seen:
                seen.add(v["id"]); uniq.append(v)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples or ["none"]}
        cov.update(self.notes)
        if rule:
            cov["rule"] = rule
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        json.dump({"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
                   "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                   "violations": len(uniq)}, open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        if uniq:
            json.dump(uniq[:50], open(rp, "w"), indent=1)
            for v in uniq[:25]:
                print("  violated clause %-28s %s" % (v["clause"], v["id"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            sys.exit(1)
        if os.path.exists(rp):
            os.remove(rp)
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (self.pid, self.states, self.traces, self.events, time.time() - self.t0))
        sys.exit(0)
