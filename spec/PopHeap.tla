------------------------------- MODULE PopHeap -------------------------------
(* Populations as sequences of references into a heap of individuals.            *)
(* heap: sequence of individuals [X, F, tag] (X, F: sequences of integers, empty  *)
(* if never set; tag: -1 if missing). pops: registers "a", "b", "c" -> sequence of *)
(* references. The state after every operation is completely determined.          *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
Regs == {"a", "b", "c"}
Blank == [X |-> <<>>, F |-> <<>>, tag |-> -1]
Empty0 == [heap |-> <<>>, pops |-> [r \in Regs |-> <<>>]]
Pick(q, I) == [k \in 1..Len(I) |-> q[I[k]]]
Fresh(s, n) == [k \in 1..n |-> Len(s.heap) + k]
FieldOf(ind, key) == CASE key = "X" -> ind.X [] key = "F" -> ind.F [] key = "tag" -> <<ind.tag>>
Put(ind, key, v) == CASE key = "X" -> [ind EXCEPT !.X = v] [] key = "F" -> [ind EXCEPT !.F = v] [] key = "tag" -> [ind EXCEPT !.tag = v[1]]
(* writes v[k] to position k of the population, in order (a repeated individual keeps the last) *)
RECURSIVE Write(_, _, _, _)
Write(h, refs, key, v) == IF refs = <<>> THEN h ELSE Write([h EXCEPT ![Head(refs)] = Put(@, key, Head(v))], Tail(refs), key, Tail(v))
(* first occurrences and the new references of a deep copy: repeated individuals stay one individual *)
FirstAt(q, k) == CHOOSE j \in 1..k : q[j] = q[k] /\ \A i \in 1..(j - 1) : q[i] # q[k]
Firsts(q) == SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k : FirstAt(q, k) = k)
PosIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
DeepRefs(s, q) == [k \in 1..Len(q) |-> Len(s.heap) + PosIn(Firsts(q), FirstAt(q, k))]
DeepInds(s, q) == [k \in 1..Len(Firsts(q)) |-> s.heap[q[Firsts(q)[k]]]]
To(s, r, q) == [s EXCEPT !.pops[r] = q]
Grow(s, inds) == [s EXCEPT !.heap = @ \o inds]

(* o: [op, r (register read), w (register written), I (positions), key, v (values per position)] *)
Apply(s, o) ==
  LET q == s.pops[o.r] IN
  CASE o.op = "new" -> To(Grow(s, [k \in 1..Len(o.v) |-> Put(Blank, o.key, o.v[k])]), o.w, Fresh(s, Len(o.v)))
    [] o.op = "new2" -> To(Grow(s, [k \in 1..Len(o.v) |-> Put(Put(Blank, "X", o.v[k]), "F", o.u[k])]), o.w, Fresh(s, Len(o.v)))
    [] o.op = "empty" -> To(Grow(s, [k \in 1..o.n |-> Blank]), o.w, Fresh(s, o.n))
    [] o.op \in {"slice", "fancy", "mask", "copy", "create"} -> To(s, o.w, Pick(q, o.I))
    [] o.op = "merge" -> To(s, o.w, q \o s.pops[o.r2])
    [] o.op = "merge3" -> To(s, o.w, q \o s.pops[o.r2] \o q)
    [] o.op = "mergenone" -> To(s, o.w, q)
    [] o.op = "mergeind" -> To(s, o.w, Append(q, s.pops[o.r2][o.I[1]]))
    [] o.op = "mergearray" -> To(Grow(s, [k \in 1..Len(o.v) |-> Put(Blank, "X", o.v[k])]), o.w, q \o Fresh(s, Len(o.v)))
    [] o.op = "set" -> [s EXCEPT !.heap = Write(@, q, o.key, o.v)]
    [] o.op = "setall" -> [s EXCEPT !.heap = Write(@, q, o.key, [k \in 1..Len(q) |-> o.v[1]])]
    [] o.op = "setone" -> [s EXCEPT !.heap[q[o.I[1]]] = Put(@, o.key, o.v[1])]
    [] o.op = "put" -> [s EXCEPT !.pops[o.w][o.I[1]] = s.pops[o.r][o.I[2]]]
    [] o.op \in {"deep", "pickle"} -> To(Grow(s, DeepInds(s, q)), o.w, DeepRefs(s, q))
    [] o.op = "indcopy" -> To(Grow(s, <<s.heap[q[o.I[1]]]>>), o.w, Fresh(s, 1))
    (* the stored value itself is changed in place, if there is one *)
    [] o.op = "poke" -> [s EXCEPT !.heap[q[o.I[1]]] = IF FieldOf(@, o.key) \in {<<>>, <<0 - 1>>} THEN @ ELSE Put(@, o.key, o.v[1])]
    [] o.op = "resetkeep" -> [s EXCEPT !.heap[q[o.I[1]]] = [Blank EXCEPT !.tag = s.heap[q[o.I[1]]].tag]]
    [] o.op = "reset" -> [s EXCEPT !.heap[q[o.I[1]]] = Blank]
    [] o.op = "duplicate" -> [s EXCEPT !.heap[q[o.I[1]]] = Put(@, o.key, FieldOf(@, o.key2))]
    [] OTHER -> s          \* setbad, read: nothing changes
Rejected(o) == o.op = "setbad"

(* e: the operation, whether it raised, and the whole state observed after it:
   e.pops[r]: the references at every position (objects numbered by first appearance), e.heap: their values *)
Breaks(s, e) ==
  LET t == Apply(s, e.o) IN
  If(e.raised = Rejected(e.o), IF Rejected(e.o) THEN "wrong-length-accepted" ELSE "operation-rejected")
  \cup (IF e.raised /\ ~Rejected(e.o) THEN {} ELSE
        If(\A r \in Regs : Len(e.pops[r]) = Len(t.pops[r]), "length-wrong")
        \cup If(\A r \in Regs : Len(e.pops[r]) = Len(t.pops[r]) => e.pops[r] = t.pops[r], "other-individuals-or-order")
        \cup If(Len(e.heap) = Len(t.heap), "individuals-appeared-or-vanished")
        \cup If(\A i \in 1..Len(e.heap) : i <= Len(t.heap) => e.heap[i] = t.heap[i], "stored-values-wrong"))
  \cup (IF e.o.op = "read" THEN If(e.read = [k \in 1..Len(t.pops[e.o.r]) |-> FieldOf(t.heap[t.pops[e.o.r][k]], e.o.key)], "read-is-not-what-was-written") ELSE {})
=============================================================================
