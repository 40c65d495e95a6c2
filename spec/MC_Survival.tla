------------------------------ MODULE MC_Survival ----------------------------
(* Selects survivors from every small population one rule at a time (pick any    *)
(* still best candidate, or drop any worst of the split front) and checks that   *)
(* the result satisfies the rules the traces are judged by.                     *)
EXTENDS Survival, TLC, Json, IOUtils
CONSTANTS N, M, MaxVal, MaxCV, Feasible
VARIABLES P, n, R
Vecs == [1..M -> 0..MaxVal]
Mems == {[f |-> v, cv |-> c, c |-> <<c>>] : v \in Vecs, c \in (IF Feasible THEN {0} ELSE 0..MaxCV)}
RECURSIVE Code(_, _)
Code(v, i) == IF i > M THEN 0 ELSE v[i] + (MaxVal + 1) * Code(v, i + 1)
Key(m) == Code(m.f, 1) * (MaxCV + 1) + m.cv
Init == P \in [1..N -> Mems] /\ (\A i \in 1..N - 1 : Key(P[i]) <= Key(P[i + 1])) /\ n \in 1..N /\ R = <<>>
Left == (1..N) \ RangeOf(R)
Rk(i) == IF P[i].cv > 0 THEN 100 * P[i].cv ELSE RankIn(Lay(P), i)
Next == Len(R) < n /\ \E i \in Left : (\A j \in Left : Rk(i) <= Rk(j)) /\ R' = Append(R, i) /\ UNCHANGED <<P, n>>
Spec == Init /\ [][Next]_<<P, n, R>>
Inv == /\ (R = <<>> /\ n = 1) => PrintT("CASE " \o ToJson(P))
       /\ Len(R) = n => /\ SurvivalBreaks("fronts", P, n, R, <<>>, <<>>) = {}
                        /\ RangeOf(R) \cap Best(P) # {}
                        /\ Cardinality(NonDom(Fs(P), FeasSet(P, 1..N))) <= n => NonDom(Fs(P), FeasSet(P, 1..N)) \subseteq RangeOf(R)
                        (* swapping a survivor with a dropped one is accepted exactly if they are equally good *)
                        /\ \A i \in RangeOf(R), j \in Left : LET Q == [x \in 1..n |-> IF R[x] = i THEN j ELSE R[x]] IN
                             (SurvivalBreaks("fronts", P, n, Q, <<>>, <<>>) = {}) <=> Rk(j) <= (IF \E z \in RangeOf(R) \ {i} : TRUE THEN MaxOf({Rk(z) : z \in RangeOf(R)}) ELSE Rk(i)) /\ Rk(j) = MinOf({Rk(z) : z \in Left} \cup {Rk(i)}) /\ Rk(i) = MaxOf({Rk(z) : z \in RangeOf(R)} \cup {0})
=============================================================================
