----------------------------- MODULE MC_Density -----------------------------
(* Prunes every small table step by step by every measure and checks the laws the  *)
(* measures promise; prints the tables.                                         *)
EXTENDS Kernels, TLC, Json
CONSTANTS N, M, MaxVal
VARIABLES F, H, kind
Vecs == [1..M -> 0..MaxVal]
RECURSIVE Code(_, _)
Code(v, i) == IF i > M THEN 0 ELSE v[i] + (MaxVal + 1) * Code(v, i + 1)
Kinds == {"pcd", "mnn"} \cup (IF M # 2 THEN {"2nn"} ELSE {})
Init == /\ F \in [1..N -> Vecs] /\ \A i \in 1..N - 1 : Code(F[i], 1) <= Code(F[i + 1], 1)
        /\ kind \in Kinds /\ H = Uniq1(F)
S == Uniq1(F)
Next == /\ Cardinality(H) > M + 1
        /\ \E k \in Lows(kind, F, S, H) : H' = H \ {k}
        /\ UNCHANGED <<F, kind>>
Spec == Init /\ [][Next]_<<F, H, kind>>
Ext(i) == IF kind = "pcd" THEN PcdExt(F, S, i) ELSE NnExt(F, S, i)
TieFree == \A k \in 1..M : \A i, j \in 1..N : i # j => F[i][k] # F[j][k]
Rev == [i \in 1..N |-> F[N + 1 - i]]
Aff == [i \in 1..N |-> [k \in 1..M |-> 7 - k + (k + 1) * F[i][k]]]
Inv == /\ (H = S /\ kind = "pcd") =>
            /\ PrintT("CASE " \o ToJson(F))
            /\ TieFree => \A i \in 1..N : CD(F, 1..N, i) = CD(Rev, 1..N, N + 1 - i)
            /\ \A i, j \in 1..N : CD(F, 1..N, i) = INF <=> CD(Aff, 1..N, i) = INF
            /\ \A i, j \in 1..N : CD(F, 1..N, i) <= CD(F, 1..N, j) <=> CD(Aff, 1..N, i) <= CD(Aff, 1..N, j)
            /\ \A k \in 1..M : Range(F, 1..N, k) > 0 => \E i \in 1..N : CD(F, 1..N, i) = INF /\ F[i][k] = MinOf({F[j][k] : j \in 1..N})
       (* an extreme member is dropped only if nothing else is left *)
       /\ (\E i \in H : ~Ext(i)) => \A i \in S : Ext(i) => i \in H
       (* the survivors are never more crowded than before *)
       /\ Cardinality(S) > M => \A i \in H : Measure(kind, F, S, S, i) <= Measure(kind, F, S, H, i)
=============================================================================
