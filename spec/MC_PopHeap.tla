----------------------------- MODULE MC_PopHeap ------------------------------
(* Every sequence of operations over two populations (and a third register).     *)
EXTENDS PopHeap, TLC, Json
CONSTANTS Depth
VARIABLES s, hist
O(op, r, w) == [op |-> op, r |-> r, w |-> w, r2 |-> "a", I |-> <<>>, key |-> "X", key2 |-> "F", v |-> <<>>, u |-> <<>>, n |-> 0]
Start == [heap |-> <<[X |-> <<1>>, F |-> <<>>, tag |-> -1], [X |-> <<2>>, F |-> <<>>, tag |-> -1], [X |-> <<3>>, F |-> <<>>, tag |-> -1]>>,
          pops |-> [a |-> <<1, 2>>, b |-> <<3>>, c |-> <<>>]]
W == {"b", "c"}
Init == s = Start /\ hist = <<>>
(* fresh values: unlike everything written before *)
V(n) == [k \in 1..n |-> <<10 * (Len(hist) + 1) + k>>]
Ops(q) ==
  LET n(r) == Len(s.pops[r]) IN
  {[O("fancy", r, w) EXCEPT !.I = I] : r \in {x \in Regs : n(x) > 0}, w \in W, I \in UNION {[1..k -> 1..2] : k \in 1..2}}
  \cup {[O("slice", r, w) EXCEPT !.I = <<1>>] : r \in Regs, w \in W}
  \cup {[O("merge", r, w) EXCEPT !.r2 = x] : r \in Regs, w \in W, x \in Regs}
  \cup {[O("mergeind", r, w) EXCEPT !.r2 = x, !.I = <<1>>] : r \in {"a"}, w \in {"c"}, x \in Regs}
  \cup {[O("mergearray", "a", "c") EXCEPT !.v = V(1)]}
  \cup {[O("set", r, r) EXCEPT !.key = k, !.v = V(n(r))] : r \in Regs, k \in {"X", "F", "tag"}}
  \cup {[O("setall", r, r) EXCEPT !.key = "tag", !.v = V(1)] : r \in Regs}
  \cup {[O("setone", r, r) EXCEPT !.key = k, !.I = <<1>>, !.v = V(1)] : r \in Regs, k \in {"X", "tag"}}
  \cup {[O("setbad", r, r) EXCEPT !.v = V(k), !.key = x] : r \in Regs, k \in {0, 3}, x \in {"X", "tag"}}
  \cup {[O("deep", r, w) EXCEPT !.key = "X"] : r \in Regs, w \in {"c"}}
  \cup {[O("pickle", r, "c") EXCEPT !.key = "X"] : r \in {"a"}}
  \cup {[O("indcopy", r, "c") EXCEPT !.I = <<1>>] : r \in Regs}
  \cup {[O(x, r, r) EXCEPT !.I = <<1>>] : r \in Regs, x \in {"reset", "resetkeep"}}
  \cup {[O("poke", r, r) EXCEPT !.I = <<1>>, !.key = k, !.v = V(1)] : r \in Regs, k \in {"X", "tag"}}
  \cup {[O("duplicate", "a", "a") EXCEPT !.I = <<1>>, !.key = "F", !.key2 = "X"]}
  \cup {[O("read", r, r) EXCEPT !.key = "X"] : r \in Regs}
  \cup {[O("new", "a", "c") EXCEPT !.v = V(2)], [O("empty", "a", "c") EXCEPT !.n = 2]}
OK(o) == /\ o.op \in {"fancy", "slice", "indcopy", "reset", "resetkeep", "poke", "duplicate", "setone"} => \A k \in 1..Len(o.I) : o.I[k] <= Len(s.pops[o.r])
         (* duplicate lets two keys hold one and the same value: nothing is said about changing it in place *)
         /\ o.op = "poke" => \A k \in 1..Len(hist) : hist[k].op # "duplicate"
         /\ o.op = "mergeind" => o.I[1] <= Len(s.pops[o.r2])
         /\ o.op \in {"set", "setall", "setbad", "read"} => Len(s.pops[o.r]) > 0
         /\ o.op = "setbad" => Len(s.pops[o.r]) # Len(o.v)
Next == Len(hist) < Depth /\ \E o \in Ops(0) : OK(o) /\ s' = Apply(s, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
Inv == /\ \A r \in Regs : \A k \in 1..Len(s.pops[r]) : s.pops[r][k] \in 1..Len(s.heap)
       /\ \A i \in 1..Len(s.heap) : Len(s.heap[i].X) <= 1
Refs(r) == {s.pops[r][k] : k \in 1..Len(s.pops[r])}
(* writing through one register is visible through another exactly at shared individuals; copies are disjoint *)
Acts == [][LET o == hist'[Len(hist')] IN
             /\ o.op \in {"deep", "pickle", "indcopy", "new", "empty"} => {s'.pops[o.w][k] : k \in 1..Len(s'.pops[o.w])} \cap (1..Len(s.heap)) = {}
             /\ o.op \in {"set", "setall", "setone", "reset", "resetkeep", "poke"} => (s'.pops = s.pops /\ \A i \in 1..Len(s.heap) : i \notin Refs(o.r) => s'.heap[i] = s.heap[i])
             /\ o.op \in {"fancy", "slice", "merge", "read", "setbad"} => s'.heap = s.heap
             /\ o.op = "merge" => Len(s'.pops[o.w]) = Len(s.pops[o.r]) + Len(s.pops[o.r2])]_<<s, hist>>
Emit == Len(hist') = Depth => PrintT("PATH " \o ToJson([h |-> hist']))
=============================================================================
