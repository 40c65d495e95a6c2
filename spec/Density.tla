------------------------------- MODULE Density -------------------------------
(* Density measures over a table F of integer vectors, for members of a set S    *)
(* (positions). All values are exact integers: a normalised difference           *)
(* d/range[k] is represented by d * W[k], W[k] the common multiple over range k.  *)
(* INF is a number above every finite value.                                    *)
EXTENDS Dominance
INF == 2000000000
MaxOf(T) == CHOOSE x \in T : \A y \in T : y <= x
MinOf(T) == CHOOSE x \in T : \A y \in T : x <= y
RECURSIVE SumOver(_, _), ProdOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET k == CHOOSE x \in D : TRUE IN f[k] + SumOver(f, D \ {k})
ProdOver(f, D) == IF D = {} THEN 1 ELSE LET k == CHOOSE x \in D : TRUE IN f[k] * ProdOver(f, D \ {k})
Dims(F) == 1..Len(F[1])
Range(F, S, k) == MaxOf({F[i][k] : i \in S}) - MinOf({F[i][k] : i \in S})
Ranges(F, S) == [k \in Dims(F) |-> Range(F, S, k)]
Live(R) == {k \in DOMAIN R : R[k] > 0}
RECURSIVE GcdD(_, _), LcmD(_)
GcdD(a, b) == IF b = 0 THEN a ELSE GcdD(b, a % b)
LcmD(T) == IF T = {} THEN 1 ELSE LET x == CHOOSE y \in T : TRUE  r == LcmD(T \ {x}) IN (x * r) \div GcdD(x, r)
Scale(R) == LcmD({R[k] : k \in Live(R)})
Weights(R) == [k \in DOMAIN R |-> IF R[k] = 0 THEN 0 ELSE Scale(R) \div R[k]]

(* order in column k: by value, equal values by position *)
Before(F, k, i, j) == F[i][k] < F[j][k] \/ (F[i][k] = F[j][k] /\ i < j)
Below(F, S, k, i) == {j \in S : Before(F, k, j, i)}
Above(F, S, k, i) == {j \in S : Before(F, k, i, j)}
PrevVal(F, S, k, i) == MaxOf({F[j][k] : j \in Below(F, S, k, i)})
NextVal(F, S, k, i) == MinOf({F[j][k] : j \in Above(F, S, k, i)})
Gap(F, S, k, i) == NextVal(F, S, k, i) - PrevVal(F, S, k, i)

(* crowding distance (times number of objectives, times Scale): the gap between the neighbours in every objective; *)
(* the ends of an objective are infinitely far, an objective in which all are equal counts nothing                *)
CD(F, S, i) ==
  LET R == Ranges(F, S)  W == Weights(R)  K == Live(R) IN
  IF Cardinality(S) <= 2 THEN INF
  ELSE IF \E k \in K : Below(F, S, k, i) = {} \/ Above(F, S, k, i) = {} THEN INF
  ELSE SumOver([k \in K |-> Gap(F, S, k, i) * W[k]], K)

(* crowding distance used while pruning: members H of S remain, ranges and extremes of S are kept *)
PcdExt(F, S, i) == \E k \in Dims(F) : Below(F, S, k, i) = {} \/ Above(F, S, k, i) = {}
PCD(F, S, H, i) ==
  LET R == Ranges(F, S)  W == Weights(R)  K == Live(R) IN
  IF PcdExt(F, S, i) THEN INF ELSE SumOver([k \in K |-> Gap(F, H, k, i) * W[k]], K)

(* nearest-neighbour crowding: product of the squared normalised distances to the nn nearest in H *)
Dist2(F, R, i, j) == LET W == Weights(R)  K == Live(R) IN SumOver([k \in K |-> ((F[i][k] - F[j][k]) * W[k]) * ((F[i][k] - F[j][k]) * W[k])], K)
NnExt(F, S, i) == \E k \in Dims(F) : \/ \A j \in S : F[i][k] < F[j][k] \/ (F[i][k] = F[j][k] /\ i <= j)
                                     \/ \A j \in S : F[i][k] > F[j][k] \/ (F[i][k] = F[j][k] /\ i <= j)
RECURSIVE Nearest(_, _, _, _, _)
Nearest(F, R, Q, i, nn) == IF nn = 0 THEN 1 ELSE
   LET j == CHOOSE x \in Q : \A y \in Q : Dist2(F, R, i, x) <= Dist2(F, R, i, y) IN Dist2(F, R, i, j) * Nearest(F, R, Q \ {j}, i, nn - 1)
NN(F, S, H, i, nn) == IF NnExt(F, S, i) THEN INF ELSE Nearest(F, Ranges(F, S), H \ {i}, i, nn)

Measure(kind, F, S, H, i) ==
  CASE kind = "cd" -> CD(F, S, i)
    [] kind = "pcd" -> PCD(F, S, H, i)
    [] kind = "mnn" -> IF Cardinality(S) <= Len(F[1]) THEN INF ELSE NN(F, S, H, i, Len(F[1]))
    [] kind = "2nn" -> IF Cardinality(S) <= Len(F[1]) \/ Cardinality(S) <= 2 THEN INF ELSE NN(F, S, H, i, 2)

(* pruning of r of the members of S removes one of the least distant, recomputes, and repeats; *)
(* at least as many as there are objectives are never removed                                 *)
NumDrop(F, S, r) == LET most == Cardinality(S) - Len(F[1]) IN IF r < 0 THEN 0 ELSE IF r > most THEN most ELSE r
Lows(kind, F, S, H) == LET v == [i \in H |-> Measure(kind, F, S, H, i)] IN {i \in H : \A j \in H : v[i] <= v[j]}
(* d: the measure reported for every member, a removed one keeping its value at removal *)
RECURSIVE PruneOK(_, _, _, _, _, _)
PruneOK(kind, F, S, H, steps, d) ==
  IF steps <= 0 THEN \A i \in H : d[i] = Measure(kind, F, S, H, i)
  ELSE \E k \in Lows(kind, F, S, H) : d[k] = Measure(kind, F, S, H, k) /\ PruneOK(kind, F, S, H \ {k}, steps - 1, d)
(* keep: the members left after dropping the least distant ones; after `steps` removals the values are not recomputed *)
RECURSIVE CutOK(_, _, _, _, _, _)
CutOK(kind, F, S, H, steps, keep) ==
  IF steps > 0 THEN \E k \in Lows(kind, F, S, H) \ keep : CutOK(kind, F, S, H \ {k}, steps - 1, keep)
  ELSE LET v == [i \in H |-> Measure(kind, F, S, H, i)] IN \A i \in keep, j \in H \ keep : v[i] >= v[j]
=============================================================================
