----------------------------- MODULE MC_Optimum ------------------------------
(* Every small population (as a multiset): the best set is well defined, and    *)
(* feeding members one by one into a best-so-far memory ends with it.           *)
EXTENDS Optimum, TLC, Json, IOUtils
CONSTANTS N, M, MaxVal, MaxCV
VARIABLES P, k, mem
Vecs == [1..M -> 0..MaxVal]
Mems == {[f |-> v, cv |-> c] : v \in Vecs, c \in 0..MaxCV}
RECURSIVE Code(_, _)
Code(v, i) == IF i > M THEN 0 ELSE v[i] + (MaxVal + 1) * Code(v, i + 1)
Key(m) == Code(m.f, 1) * (MaxCV + 1) + m.cv
Init == P \in [1..N -> Mems] /\ (\A i \in 1..N - 1 : Key(P[i]) <= Key(P[i + 1])) /\ k = 0 /\ mem = {}
Next == k < N /\ k' = k + 1 /\ mem' = BestOf(P, mem \cup {k + 1}) /\ UNCHANGED P
Spec == Init /\ [][Next]_<<P, k, mem>>
Inv == /\ k = 0 => /\ Best(P) # {}
                   /\ AnyFeas(P, 1..N) => \A i \in Best(P) : P[i].cv <= 0
                   /\ \A i \in 1..N \ Best(P) : AnyFeas(P, 1..N) /\ P[i].cv <= 0 => \E j \in Best(P) : Dom(P[j].f, P[i].f)
                   /\ PrintT("CASE " \o ToJson(P))
       /\ k > 0 => mem = BestOf(P, 1..k)
=============================================================================
