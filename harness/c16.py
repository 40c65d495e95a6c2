"""C16: populations as ordered collections of individuals. PopHeap.tla (modules MC_PopHeap, HeapTrace)."""
import pickle
from common import *
import_repo()
import numpy as np
from pymoo.core.population import Population
from pymoo.core.individual import Individual

W = 2          # width of X and F: the second entry repeats the value, negated


class World:
    def __init__(self, rng):
        self.rng, self.reg, self.objs, self.code = rng, {r: Population.empty() for r in "abc"}, [], {}

    def ref(self, ind):
        if id(ind) not in self.code:
            self.objs.append(ind)
            self.code[id(ind)] = len(self.objs)
        return self.code[id(ind)]

    def vec(self, v):
        v = np.asarray(v, dtype=object).ravel()
        if len(v) == 0:
            return []
        if len(v) == W and v[1] == -v[0] and v[0] == int(v[0]):
            return [int(v[0])]
        return [-77]

    def snapshot(self, order="abc"):
        pops = {r: [self.ref(i) for i in self.reg[r]] for r in order}
        heap = []
        for i in self.objs:
            t = i.data.get("tag", -1)
            if isinstance(t, np.ndarray) and t.size == 1:
                t = t.ravel()[0]
            heap.append({"X": self.vec(i._X if hasattr(i, "_X") else i.X), "F": self.vec(i._F if hasattr(i, "_F") else i.F), "tag": int(t) if not isinstance(t, np.ndarray) else -77})
        return {"pops": {r: pops[r] for r in "abc"}, "heap": heap}

    def arr(self, vals):
        return np.array([[float(v[0]), -float(v[0])] for v in vals]).reshape(len(vals), W)

    def values(self, key, vals):
        """the values as a user may hand them over, and what to do with them afterwards"""
        how = int(self.rng.integers(0, 5))
        if key == "tag":
            src = [[int(v[0]) for v in vals], np.array([v[0] for v in vals]), tuple(int(v[0]) for v in vals), np.array([[v[0]] for v in vals]).reshape(len(vals), 1), np.array([int(v[0]) for v in vals for _ in (0, 1)])[::2]][how]
            return src
        A = self.arr(vals)
        if how == 0:
            return A
        if how == 1:
            return np.asfortranarray(A)
        if how == 2:
            B = np.zeros((2 * len(A), W))
            B[::2] = A
            return B[::2]
        if how == 3:
            B = np.full((len(A), W + 3), 55.0)
            B[:, 1:1 + W] = A
            return B[:, 1:1 + W]
        return [r.copy() for r in A]

    def do(self, o):
        P, rng, reg = Population, self.rng, self.reg
        q = reg[o["r"]]
        k, I = o["key"], [i - 1 for i in o["I"]]
        op = o["op"]
        src = None
        if op == "new":
            src = self.values(k, o["v"])
            reg[o["w"]] = P.new(k, src) if rng.random() < 0.5 else P.new(**{k: src})
        elif op == "new2":
            src = self.values("X", o["v"])
            reg[o["w"]] = [lambda: P.new("X", src, "F", self.arr(o["u"])), lambda: P.new(F=self.arr(o["u"]), X=src), lambda: P.new("F", self.arr(o["u"]), X=src)][int(rng.integers(0, 3))]()
        elif op == "empty":
            reg[o["w"]] = P.empty(o["n"])
        elif op == "slice":
            a, b = (I[0], I[-1] + 1) if I else (0, 0)
            reg[o["w"]] = q[a:b] if not I or I == list(range(a, b)) else q[I]
        elif op == "fancy":
            reg[o["w"]] = q[np.array(I, dtype=int)] if rng.random() < 0.5 else q[I]
        elif op == "mask":
            m = np.zeros(len(q), dtype=bool)
            m[I] = True
            reg[o["w"]] = q[m]
        elif op == "copy":
            reg[o["w"]] = copy_(q, rng)
        elif op == "create":
            inds = [q[i] for i in I]
            reg[o["w"]] = P.create(*inds) if rng.random() < 0.5 else P(individuals=inds) if len(inds) != 1 else P(inds[0])
        elif op == "merge":
            reg[o["w"]] = P.merge(q, reg[o["r2"]])
        elif op == "merge3":
            reg[o["w"]] = P.merge(q, reg[o["r2"]], q)
        elif op == "mergenone":
            reg[o["w"]] = P.merge(q, None) if rng.random() < 0.5 else P.merge(None, q)
        elif op == "mergeind":
            reg[o["w"]] = P.merge(q, reg[o["r2"]][I[0]])
        elif op == "mergearray":
            src = self.values("X", o["v"])
            src = np.array(src)
            reg[o["w"]] = P.merge(q, src if len(src) > 1 or rng.random() < 0.5 else src[0])
        elif op == "set":
            src = self.values(k, o["v"])
            [lambda: q.set(k, src), lambda: q.set(**{k: src})][int(rng.integers(0, 2))]()
        elif op == "setbad":
            q.set(k, self.values(k, o["v"]))
        elif op == "setall":
            q.set(k, int(o["v"][0][0])) if rng.random() < 0.5 else q.apply(lambda i: i.set(k, int(o["v"][0][0])))
        elif op == "setone":
            i = q[I[0]]
            v = int(o["v"][0][0]) if k == "tag" else self.arr(o["v"])[0].copy()
            if k == "tag" and rng.random() < 0.5:
                v = np.array([v])
            if k == "tag":
                i.set(k, v)
            else:
                [lambda: i.set(k, v), lambda: setattr(i, k, v), lambda: i.set_by_dict(**{k: v})][int(rng.integers(0, 3))]()
        elif op == "put":
            reg[o["w"]][I[0]] = q[I[1]]
        elif op == "deep":
            import copy
            reg[o["w"]] = copy.deepcopy(q)
        elif op == "pickle":
            reg[o["w"]] = pickle.loads(pickle.dumps(q))
        elif op == "indcopy":
            import copy
            i = q[I[0]]
            reg[o["w"]] = P.create([lambda: i.copy(), lambda: copy.deepcopy(i), lambda: Individual().copy(i)][int(rng.integers(0, 3))]())
        elif op == "poke":
            v = q[I[0]].get(k)
            if isinstance(v, np.ndarray) and v.size:
                v[...] = self.arr(o["v"])[0] if k != "tag" else int(o["v"][0][0])
            elif k == "tag" and v is not None:
                q[I[0]].set(k, int(o["v"][0][0]))
        elif op == "reset":
            q[I[0]].reset()
        elif op == "resetkeep":
            q[I[0]].reset(data=False)
        elif op == "duplicate":
            q[I[0]].duplicate(o["key2"], k)
        elif op == "read":
            return self.read(q, k)
        # the arrays handed over belong to the user, who goes on using them
        if isinstance(src, np.ndarray) and src.ndim == 2:
            base = src.base if src.base is not None else src
            base[...] = 1234.0
        return None

    def read(self, q, k):
        how = int(self.rng.integers(0, 5))
        if k != "tag" and max(len({np.size(getattr(i, x)) for i in q}) for x in ("X", "F")) > 1:
            how = int(self.rng.integers(2, 4))      # ragged values make no array
        if k == "tag":
            arrays = [isinstance(i.get("tag"), np.ndarray) for i in q]
            if any(arrays) and not all(arrays):
                return [[-1 if x is None else int(np.ravel(x)[0])] for x in q.get("tag", to_numpy=False)]
            v = q.get("tag") if how < 3 else q.collect(lambda i: i.get("tag")) if how == 3 else np.array([i.get("tag") for i in q])
            return [[-1 if x is None else int(np.ravel(x)[0])] for x in v]
        if how == 0:
            v = q.get(k)
        elif how == 1:
            v = dict(zip(("F", "X"), q.get("F", "X")))[k]
        elif how == 2:
            v = q.get(k, to_numpy=False)
            return [self.vec(x) for x in v]
        elif how == 3:
            v = [np.array(getattr(i, k)) for i in q]
        else:
            v = q.collect(lambda i: i.get(k))
        r = [self.vec(x) for x in v]
        # reading other things changes nothing
        q.get("CV"), q.get("nothing", to_numpy=False), q.has(k), q.get("feas", "dF")
        if isinstance(v, np.ndarray) and v.dtype != object and how in (0, 1):
            v[...] = 4321.0       # what was read belongs to the reader
        return r


def copy_(q, rng):
    import copy
    return [lambda: copy.copy(q), lambda: q.copy(), lambda: q[:].copy(), lambda: Population(individuals=list(q))][int(rng.integers(0, 4))]()


BASE = dict(op="", r="a", w="a", r2="a", I=[], key="X", key2="F", v=[], u=[], n=0)
START = [dict(BASE, op="new", w="a", v=[[1], [2]]), dict(BASE, op="new", w="b", v=[[3]])]


def play(w, o, ev):
    r, err = None, None
    r, err = guarded(lambda: w.do(o))
    # individuals are numbered in the order in which the written register shows them
    e = dict(k="op", o=o, raised=err is not None, read=r or [], exc=err or "", **w.snapshot(order=o["w"] + "".join(x for x in "abc" if x != o["w"])))
    ev.append(e)


def histories(task):
    seed, hs = task
    rng = np.random.default_rng(seed)
    out = []
    for h in hs:
        w, ev = World(rng), []
        for o in START + h:
            play(w, o, ev)
        out.append({"key": "history", "ev": ev})
    return out


def random_history(rng, n):
    """long histories over larger populations; only well-formed operations (lengths are tracked)"""
    L, h, c = {"a": 2, "b": 1, "c": 0}, [], [100]
    def vals(k):
        c[0] += k
        return [[int(c[0] - i)] for i in range(k)]
    for _ in range(n):
        r, r2, w = (str(x) for x in rng.choice(list("abc"), 3))
        n1, n2 = L[r], L[r2]
        op = str(rng.choice(["new", "new2", "empty", "slice", "fancy", "mask", "copy", "create", "merge", "merge3", "mergenone", "mergeind", "mergearray", "set", "set", "set", "setall", "setone", "put", "setbad",
                             "deep", "pickle", "indcopy", "reset", "resetkeep", "duplicate", "poke", "poke", "read", "read", "read"]))
        o = dict(BASE, op=op, r=r, r2=r2, w=w)
        if op in ("new", "new2"):
            k = int(rng.integers(1, 7))
            o.update(v=vals(k), u=vals(k), key="X"); L[w] = k
        elif op == "empty":
            o["n"] = L[w] = int(rng.integers(1, 4))
        elif op == "slice":
            if not n1: continue
            a = int(rng.integers(0, n1)); b = int(rng.integers(a, n1 + 1))
            o["I"] = list(range(a + 1, b + 1)); L[w] = b - a
        elif op == "fancy":
            if not n1: continue
            o["I"] = [int(x) for x in rng.integers(1, n1 + 1, int(rng.integers(1, 5)))]; L[w] = len(o["I"])
        elif op in ("mask", "create", "copy"):
            if not n1: continue
            o["I"] = list(range(1, n1 + 1)) if op == "copy" else [i for i in range(1, n1 + 1) if rng.random() < 0.6]
            if op == "create" and not o["I"]: continue
            L[w] = len(o["I"])
        elif op == "merge": L[w] = n1 + n2
        elif op == "merge3": L[w] = 2 * n1 + n2
        elif op == "mergenone": L[w] = n1
        elif op == "mergeind":
            if not n2: continue
            o["I"] = [int(rng.integers(1, n2 + 1))]; L[w] = n1 + 1
        elif op == "mergearray":
            k = int(rng.integers(1, 3)); o["v"] = vals(k); L[w] = n1 + k
        elif op in ("set", "setall", "setone", "setbad"):
            if not n1: continue
            o["w"] = r
            o["key"] = "tag" if op == "setall" else str(rng.choice(["X", "F", "tag"]))
            o["v"] = vals({"set": n1, "setall": 1, "setone": 1, "setbad": int(rng.choice([0, n1 - 1, n1 + 1, n1 + 2]))}[op])
            if op == "setone": o["I"] = [int(rng.integers(1, n1 + 1))]
        elif op == "put":
            continue
        elif op in ("deep", "pickle"): L[w] = n1
        elif op == "indcopy":
            if not n1: continue
            o["I"] = [int(rng.integers(1, n1 + 1))]; L[w] = 1
        elif op == "poke":
            if not n1 or any(x["op"] == "duplicate" for x in h): continue
            o.update(w=r, I=[int(rng.integers(1, n1 + 1))], key=str(rng.choice(["X", "F", "tag"])), v=vals(1))
        elif op in ("reset", "resetkeep", "duplicate"):
            if not n1: continue
            o.update(w=r, I=[int(rng.integers(1, n1 + 1))], key="F", key2="X")
        elif op == "read":
            if not n1: continue
            o.update(w=r, key=str(rng.choice(["X", "F", "tag"])))
        if max(L.values()) > 14: L[o["w"]] = 0; o = dict(BASE, op="mask", r=r, w=o["w"], I=[])
        h.append(o)
    # a population of its own: positions can be reassigned
    h += [dict(BASE, op="new", w="a", v=vals(4)), dict(BASE, op="new", w="b", v=vals(3)), dict(BASE, op="put", r="b", w="a", I=[2, 3]), dict(BASE, op="set", r="a", w="a", key="F", v=vals(4)),
          dict(BASE, op="put", r="a", w="a", I=[1, 4]), dict(BASE, op="set", r="b", w="b", key="tag", v=vals(3)), dict(BASE, op="read", r="a", w="a", key="tag"), dict(BASE, op="deep", r="a", w="c"),
          dict(BASE, op="set", r="c", w="c", key="X", v=vals(4)), dict(BASE, op="read", r="a", w="a", key="X"), dict(BASE, op="put", r="c", w="b", I=[1, 1]), dict(BASE, op="setone", r="b", w="b", key="F", I=[1], v=vals(1))]
    # values written in place stay with the individual (and not with its copies)
    h += [dict(BASE, op="new2", w="a", v=vals(3), u=vals(3), key="X"), dict(BASE, op="setone", r="a", w="a", key="tag", I=[1], v=vals(1)), dict(BASE, op="setone", r="a", w="a", key="tag", I=[2], v=vals(1)),
          dict(BASE, op="indcopy", r="a", w="b", I=[1]), dict(BASE, op="deep", r="a", w="c"), dict(BASE, op="poke", r="a", w="a", I=[1], key="tag", v=vals(1)), dict(BASE, op="poke", r="c", w="c", I=[2], key="tag", v=vals(1)),
          dict(BASE, op="poke", r="b", w="b", I=[1], key=str(rng.choice(["X", "F", "tag"])), v=vals(1)), dict(BASE, op="read", r="a", w="a", key="tag")]
    return h


def main():
    c = Check("C16")
    rng = np.random.default_rng(SEED)
    cfg = "SPECIFICATION Spec\nCONSTANTS Depth=%d\nINVARIANT Inv\nPROPERTY Acts\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MC_PopHeap", cfg % (3 if THOROUGH else 2))
    H = [p["h"] for p in c.paths("MC_PopHeap", cfg % (3 if THOROUGH else 2) + "ACTION_CONSTRAINT Emit\n")]
    c.notes["histories_from_tlc"] = len(H)
    sel = [H[i] for i in rng.choice(len(H), min(len(H), 40000 if THOROUGH else 4000), replace=False)]
    sel += [random_history(rng, 25) for _ in range(4000 if THOROUGH else 400)]
    tr = []
    for part in pmap(histories, [(int(rng.integers(1 << 30)), sel[i:i + 300]) for i in range(0, len(sel), 300)]):
        tr += part
    c.validate("HeapTrace", tr)
    c.finish(rule="all pairs (thorough: triples, sampled) of operations over two populations of up to two individuals, and random histories of 25 operations over populations of up to 14", exhaustive=False)


if __name__ == "__main__":
    main()
