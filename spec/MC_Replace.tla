------------------------------ MODULE MC_Replace -----------------------------
(* A population of NP members against arbitrary offspring, generation by generation, over all     *)
(* problems that assign a violation and an objective to NX places: the replacement rule never     *)
(* loses the best, improves every position monotonically, keeps a duplicate-free population       *)
(* free of duplicates, and comparison is a strict weak order.                                     *)
EXTENDS Replace, TLC, Json
CONSTANTS NX, NP, MaxCV, MaxF, Emit
VARIABLES val, pop, old, off
Places == 1..NX
Sol(x) == [x |-> x, cv |-> val[x].cv, f |-> val[x].f]
Sols(q) == [i \in 1..Len(q) |-> Sol(q[i])]
Init == /\ val \in [Places -> [cv : 0..MaxCV, f : 0..MaxF]]
        /\ pop \in [1..NP -> Places] /\ old = <<>> /\ off = <<>>
Xs(q) == [i \in 1..Len(q) |-> q[i].x]
Next == /\ (Emit => old = <<>>)
        /\ off' \in [1..NP -> Places]
        /\ old' = pop /\ pop' = Xs(Replaced(Sols(pop), Sols(off'))) /\ UNCHANGED val
        /\ Emit => PrintT("CASE " \o ToJson([val |-> [x \in Places |-> <<val[x].cv, val[x].f>>], pop |-> pop, off |-> off']))
Spec == Init /\ [][Next]_<<val, pop, old, off>>
Inv == old # <<>> =>
        /\ \A i \in 1..NP : NotWorse(Sol(pop[i]), Sol(old[i]))
        /\ \A i \in 1..NP : pop[i] # old[i] => Better(Sol(pop[i]), Sol(old[i])) /\ pop[i] = off[i]
        /\ \A x \in Range(old) : NotWorse(BestOf({Sol(y) : y \in Range(pop)}), Sol(x))
        (* the best offspring survives unless it is already there *)
        /\ Cardinality(Range(old)) = NP => Cardinality(Range(pop)) = NP
        /\ \A a, b \in Places : ~(Better(Sol(a), Sol(b)) /\ Better(Sol(b), Sol(a)))
        /\ \A a, b, c \in Places : (NotWorse(Sol(a), Sol(b)) /\ NotWorse(Sol(b), Sol(c))) => NotWorse(Sol(a), Sol(c))
(* the best of the population never becomes worse over whole histories *)
Elitist == [][NotWorse(BestOf({Sol(x) : x \in Range(pop')}), BestOf({Sol(x) : x \in Range(pop)}))]_<<val, pop, old, off>>
=============================================================================
