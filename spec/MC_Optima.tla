------------------------------ MODULE MC_Optima ------------------------------
(* Histories of requests for an optimum, small sequencing problems, lattices.   *)
EXTENDS Optima, TLC, Json
CONSTANTS MaxOps, Times, Fives
VARIABLES c
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Reqs == [op : {"ask"}, nm : {"front", "set", "ideal", "nadir"}, a : {1, 2}, use : BOOLEAN, put : BOOLEAN]
Ops == Reqs \cup [op : {"time"}, v : 1..2] \cup {[op |-> "copy"]}
Spots == {<<0, 0>>, <<3, 0>>, <<0, 4>>, <<3, 4>>}
Init == \/ c = [k |-> "cache", ops |-> <<>>, s |-> [v |-> 0, c |-> Empty], stale |-> FALSE]
        \/ \E T \in [1..2 -> [1..3 -> Times]] : c = [k |-> "flow", T |-> T]
        \/ \E T \in [1..3 -> [1..2 -> Times]] : c = [k |-> "flow", T |-> T]
        \/ \E T \in [1..1 -> [1..3 -> Times]] : c = [k |-> "flow", T |-> T]
        \/ \E T \in [1..3 -> [1..3 -> Fives]] : c = [k |-> "flow", T |-> T]
        \/ \E C \in Seqs(Spots, 2, 4) : c = [k |-> "tsp", C |-> C]
        \/ \E P, W \in [1..3 -> {0, 1, 3}], q \in {0, 2} : c = [k |-> "sack", P |-> P, W |-> W, cap |-> q]
        \/ \E nm \in DOMAIN Lattice : \E m \in Lattice[nm].m, n \in Lattice[nm].n :
             LET q == Lattice[nm] IN c = [k |-> "def", nm |-> nm, m |-> m, n |-> n, xd |-> q.xd, lo |-> q.lo, hi |-> q.hi, pow |-> PowF(nm), sF |-> ScF(nm, n, m), sG |-> ScG(nm, n, m)]
Next == \/ /\ c.k = "cache" /\ Len(c.ops) < MaxOps
           /\ \E o \in Ops : c' = [c EXCEPT !.ops = Append(@, o), !.s = CacheNext(c.s, o), !.stale = o.op = "ask" /\ Ask(c.s, o).r.v # c.s.v]
        \/ UNCHANGED c
Spec == Init /\ [][Next]_c
(* the makespan is the longest chain of operations, the definition of the critical path *)
RECURSIVE Walks(_, _)
Walks(m, n) == IF m = 1 /\ n = 1 THEN {<<<<1, 1>>>>}
               ELSE UNION {IF m > 1 THEN {Append(w, <<m, n>>) : w \in Walks(m - 1, n)} ELSE {}, IF n > 1 THEN {Append(w, <<m, n>>) : w \in Walks(m, n - 1)} ELSE {}}
Laws ==
  CASE c.k = "cache" -> ~c.stale /\ \A q \in DOMAIN c.s.c : c.s.c[q] # None => c.s.c[q].v = c.s.v
    [] c.k = "flow" -> \A x \in Perms(Len(c.T[1])) :
         LET M == Len(c.T) n == Len(x) IN
         /\ Makespan(c.T, x) = MaxS({Sum(LAMBDA i : c.T[w[i][1]][x[w[i][2]]], 1, M + n - 1) : w \in Walks(M, n)})
         /\ \A m \in 1..M : Makespan(c.T, x) >= Sum(LAMBDA i : c.T[m][i], 1, n)
         /\ \A m \in 1..M, i \in 1..n : (i > 1 => Start(c.T, x, m, i) >= Done(c.T, x, m, i - 1)) /\ (m > 1 => Start(c.T, x, m, i) >= Done(c.T, x, m - 1, i))
    [] c.k = "tsp" -> \A x \in Perms(Len(c.C)) :
         LET n == Len(x) IN Tour(c.C, x) = Tour(c.C, [i \in 1..n |-> x[n + 1 - i]]) /\ Tour(c.C, x) = Tour(c.C, [i \in 1..n |-> x[1 + (i % n)]])
                            /\ \A i, j \in 1..n : Tour(c.C, x) >= 2 * Dist(c.C, i, j)
    [] c.k = "def" -> c.xd >= 1 /\ c.sF >= 1
    [] OTHER -> TRUE
Emit == (c.k = "cache" /\ Len(c.ops) < MaxOps) \/ PrintT("PATH " \o ToJson(IF c.k = "cache" THEN [k |-> "cache", ops |-> c.ops] ELSE c))
=============================================================================
