----------------------------- MODULE MC_RefDirs -----------------------------
(* The traversal in portions, every request history; the recursion of the incremental *)
(* lattice; the number of points against the closed forms.                            *)
EXTENDS RefDirs, TLC, Json
CONSTANTS M, P, Reqs, R
VARIABLES m, p, stack, seen, hist, W, edge, k
vars == <<m, p, stack, seen, hist, W, edge, k>>
Zero == [j \in 1..m |-> 0]
Init == /\ m \in 1..M /\ p \in 0..P
        /\ stack = Start(p) /\ seen = <<>> /\ hist = <<>>
        /\ W = {[j \in 1..m |-> 0]} /\ edge = {[j \in 1..m |-> 0]} /\ k = 0
Ask(r) == /\ stack # <<>> /\ Len(hist) < R /\ k = 0
          /\ LET x == Pull(m, stack, r, <<>>) IN stack' = x.stack /\ seen' = seen \o x.out
          /\ hist' = Append(hist, r) /\ UNCHANGED <<m, p, W, edge, k>>
(* the incremental lattice, ring by ring *)
Ring == /\ k < p /\ hist = <<>> /\ m > 1
        /\ LET e1 == UNION {{[v EXCEPT ![i] = @ + m] : i \in 1..m} : v \in edge}
               e2 == {v \in e1 : \E j \in 1..m : v[j] = 0} IN
           edge' = e2 /\ W' = {[j \in 1..m |-> v[j] + 1] : v \in W} \cup e2
        /\ k' = k + 1 /\ UNCHANGED <<m, p, stack, seen, hist>>
Next == Ring \/ \E r \in Reqs : Ask(r)
Spec == Init /\ [][Next]_vars
Once == Cardinality(SetOf(seen)) = Len(seen)
OnLattice == SetOf(seen) \subseteq Lattice(m, p)
Complete == stack = <<>> => SetOf(seen) = Lattice(m, p)
Counts == k = 0 /\ hist = <<>> => /\ Cardinality(Lattice(m, p)) = Count(m, p)
                                  /\ Cardinality(IncLattice(m, p)) = (IF m = 1 THEN 1 ELSE IncCount(m, p))
                                  /\ \A v \in IncLattice(m, p) : Total(v, m) = m * p
RingForm == m > 1 => W = IncLattice(m, k) /\ Cardinality(W) = IncCount(m, k)
(* every coordinate of the incremental lattice congruent modulo the dimension *)
Congruent == m > 1 => W = {v \in [1..m -> 0..(m * k)] : Total(v, m) = m * k /\ \A j \in 1..m : v[j] % m = v[1] % m}
Nested == k > 0 /\ m > 1 => {[j \in 1..m |-> v[j] + 1] : v \in IncLattice(m, k - 1)} \subseteq W
Admits == hist = <<>> => \A n \in 1..12 : LET q == Partition("das", m, n) IN m > 1 => (Count(m, q) <= n /\ Count(m, q + 1) > n)
EmitInv == (hist # <<>> \/ k = p) => PrintT("PATH " \o ToJson([m |-> m, p |-> p, hist |-> hist]))
=============================================================================
