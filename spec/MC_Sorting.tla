----------------------------- MODULE MC_Sorting ------------------------------
(* Design model of non-dominated sorting: peel layer after layer.  Explored for *)
(* every table of N points over Vals^M; writes every initial table (and each     *)
(* early-stop request) as a case to be replayed on the implementation.           *)
EXTENDS Dominance, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, M, MaxVal
VARIABLES F, rem, fronts

Vals == 0..MaxVal
Points == [1..M -> Vals]
Tables == [1..N -> Points]

Init == F \in Tables /\ rem = 1..N /\ fronts = <<>>
Peel == /\ rem # {}
        /\ LET L == NonDom(F, rem) IN fronts' = Append(fronts, L) /\ rem' = rem \ L
        /\ UNCHANGED F
Next == Peel
Spec == Init /\ [][Next]_<<F, rem, fronts>> /\ WF_<<F, rem, fronts>>(Next)

(* what users rely on *)
Progress == rem # {} => NonDom(F, rem) # {}
Partition == /\ UNION RangeOf(fronts) = (1..N) \ rem
             /\ \A i, j \in 1..Len(fronts) : i # j => fronts[i] \cap fronts[j] = {}
RankIsChain == \A k \in 1..Len(fronts) : \A i \in fronts[k] : ChainRank(F, 1..N, i) = k
NoDomInside == \A k \in 1..Len(fronts) : \A i, j \in fronts[k] : ~ Dom(F[i], F[j])
DominatedByPrev == \A k \in 2..Len(fronts) : \A i \in fronts[k] : \E j \in fronts[k - 1] : Dom(F[j], F[i])
EqualTogether == \A i, j \in 1..N : F[i] = F[j] => \A k \in 1..Len(fronts) : i \in fronts[k] <=> j \in fronts[k]
StrictOrder == \A a, b, c \in RangeOf(F) : /\ ~ Dom(a, a)
                                           /\ Dom(a, b) => ~ Dom(b, a)
                                           /\ Dom(a, b) /\ Dom(b, c) => Dom(a, c)
Terminates == <>(rem = {})
Inv == Progress /\ Partition /\ RankIsChain /\ NoDomInside /\ DominatedByPrev /\ EqualTogether /\ StrictOrder

(* cases for the implementation *)
Emit == IF "OUT_FILE" \in DOMAIN IOEnv
        THEN ndJsonSerialize(IOEnv.OUT_FILE, SetToSeq(Tables)) ELSE TRUE
ASSUME Emit
=============================================================================
