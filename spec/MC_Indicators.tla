---------------------------- MODULE MC_Indicators ----------------------------
(* Every pair of small point sets on a grid: the indicators are what their use        *)
(* presupposes - compliant with dominance, blind to what does not contribute - and     *)
(* a set grown point by point never loses hypervolume.                                 *)
EXTENDS Indicators, TLC, Json
CONSTANTS M, K, N
VARIABLES A, B
vars == <<A, B>>
Grid == [1..M -> 0..K]
RECURSIVE Code(_, _)
Code(p, j) == IF j = 0 THEN 0 ELSE p[j] + (K + 1) * Code(p, j - 1)
Sorted(s) == \A i \in 1..(Len(s) - 1) : Code(s[i], M) < Code(s[i + 1], M)
Seqs(n) == {s \in [1..n -> Grid] : Sorted(s)}
Ref == [j \in 1..M |-> K]
Init == /\ \E n \in 1..N : A \in Seqs(n)
        /\ B \in Seqs(1)
Grow == /\ Len(B) < N /\ \E p \in Grid : Code(p, M) > Code(B[Len(B)], M) /\ B' = Append(B, p)
        /\ UNCHANGED A
Next == Grow
Spec == Init /\ [][Next]_vars
WDom(a, b) == \A j \in 1..Len(a) : a[j] <= b[j]
WCovers(S, T) == \A b \in SetOf(T) : \E a \in SetOf(S) : WDom(a, b)
Z == <<[j \in 1..M |-> IF j = 1 THEN 0 ELSE K], [j \in 1..M |-> IF j = 1 THEN K ELSE 0], [j \in 1..M |-> 1]>>
Compliance == WCovers(A, B) => /\ HV(SetOf(A), Ref) >= HV(SetOf(B), Ref)
                               /\ EpsAdd(A, Z) <= EpsAdd(B, Z)
                               /\ IGDPsum(A, Z) <= IGDPsum(B, Z)
Eps == EpsAdd(A, B) <= 0 <=> WCovers(A, B)
Self == GDsum(A, A) = 0 /\ IGDsum(A, A) = 0 /\ EpsAdd(A, A) = 0
NoContribution == (WCovers(A, B) /\ Len(B) = 1) => HV(SetOf(A) \cup SetOf(B), Ref) = HV(SetOf(A), Ref)
(* hypervolume counts the unit cells weakly dominated by the set *)
Cells == Len(B) = 1 => HV(SetOf(A), Ref) = Cardinality({c \in [1..M -> 0..(K - 1)] : \E a \in SetOf(A) : WDom(a, c)})
Contr == Len(B) = 1 => \A k \in 1..Len(A) : /\ Contribution(A, k, Ref) >= 0
                              /\ Contribution(A, k, Ref) <= FrontContribution(A, k, Ref)
                              /\ (Len(Front(A)) = Len(A) => Contribution(A, k, Ref) = FrontContribution(A, k, Ref))
Root == \A x \in 0..30 : LET r == ISqrt(x) IN r * r <= x /\ (r + 1) * (r + 1) > x
Emit == PrintT("PATH " \o ToJson([A |-> A, B |-> B]))
EmitInv == Emit
=============================================================================
