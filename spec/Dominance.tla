------------------------------ MODULE Dominance ------------------------------
(* Pareto dominance, constrained dominance, dominance layers.                   *)
EXTENDS Integers, Sequences, FiniteSets

Leq(a, b) == \A k \in 1..Len(a) : a[k] <= b[k]
Dom(a, b) == Leq(a, b) /\ \E k \in 1..Len(a) : a[k] < b[k]

(* relation code of the implementation: 1, -1 or 0 *)
Rel(a, b) == IF Dom(a, b) THEN 1 ELSE IF Dom(b, a) THEN -1 ELSE 0
CRel(a, b, va, vb) == IF va < vb THEN 1 ELSE IF vb < va THEN -1 ELSE Rel(a, b)

(* epsilon dominance: a component counts only if it differs by more than eps *)
EpsDom(a, b, eps) == /\ \A k \in 1..Len(a) : ~ (a[k] > b[k] + eps)
                     /\ \E k \in 1..Len(a) : a[k] + eps < b[k]
EpsRel(a, b, eps) == IF EpsDom(a, b, eps) THEN 1 ELSE IF EpsDom(b, a, eps) THEN -1 ELSE 0

(* members of index set S of the table F that nothing in S dominates *)
NonDom(F, S) == {i \in S : \A j \in S : ~ Dom(F[j], F[i])}

RECURSIVE Layers(_, _)
Layers(F, S) == IF S = {} THEN <<>>
                ELSE LET L == NonDom(F, S) IN <<L>> \o Layers(F, S \ L)

(* layers until at least n indices are ranked *)
RECURSIVE Prefix(_, _, _)
Prefix(L, n, acc) == IF acc >= n \/ L = <<>> THEN <<>>
                     ELSE <<Head(L)>> \o Prefix(Tail(L), n, acc + Cardinality(Head(L)))
LayersUntil(F, S, n) == LET L == Layers(F, S) IN
                        IF L = <<>> THEN <<>> ELSE <<Head(L)>> \o Prefix(Tail(L), n, Cardinality(Head(L)))

(* the 1-based rank of i: length of the longest chain of dominators ending in i *)
RECURSIVE ChainRank(_, _, _)
ChainRank(F, S, i) == LET D == {j \in S : Dom(F[j], F[i])} IN
    IF D = {} THEN 1 ELSE 1 + (CHOOSE r \in {ChainRank(F, S, j) : j \in D} : \A q \in {ChainRank(F, S, j) : j \in D} : q <= r)

RangeOf(s) == {s[k] : k \in 1..Len(s)}
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
=============================================================================
