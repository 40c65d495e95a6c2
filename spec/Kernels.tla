------------------------------- MODULE Kernels -------------------------------
(* Distances and scalarising functions on integer vectors. Every value is given   *)
(* as an exact integer: squares of distances, multiples by the weights involved.  *)
EXTENDS Density
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(v) == SumOver(v, DOMAIN v)
Dot(a, b) == Sum([k \in DOMAIN a |-> a[k] * b[k]])
Diff(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
N2(a) == Dot(a, a)
Dist(kind, a, b) ==
  CASE kind = "euclid2" -> N2(Diff(a, b))
    [] kind = "manhattan" -> Sum([k \in DOMAIN a |-> Abs(a[k] - b[k])])
    [] kind = "tcheby" -> MaxOf({Abs(a[k] - b[k]) : k \in DOMAIN a})
(* n |w|^2 times the squared distance of f from the line through w *)
Perp2(f, w) == N2(w) * N2(f) - Dot(f, w) * Dot(f, w)

Uniq1(F) == {i \in DOMAIN F : \A j \in 1..i - 1 : F[j] # F[i]}
(* duplicates: later rows equal to an earlier one; groups of equal rows *)
Dups(F) == {i \in DOMAIN F : \E j \in 1..i - 1 : F[j] = F[i]}
Groups(F) == {G \in {{j \in DOMAIN F : F[j] = F[i]} : i \in DOMAIN F} : Cardinality(G) > 1}

(* scalarising functions; u the utopian point. L: a multiple of all (non-zero) weights *)
PosW(w) == {k \in DOMAIN w : w[k] > 0}
WLcm(w) == LcmD({w[k] : k \in PosW(w)})
(* a weight of zero makes any positive difference unboundedly large *)
Ratio(f, u, w, k) == ((f[k] - u[k]) * WLcm(w)) \div w[k]
Huge(f, u, w) == \E k \in DOMAIN w : w[k] = 0 /\ f[k] > u[k]
AsfV(f, u, w) == MaxOf({Ratio(f, u, w, k) : k \in PosW(w)} \cup {0 : k \in {x \in DOMAIN w \ PosW(w) : f[x] = u[x]}})
RECURSIVE Root(_, _)
Root(n, k) == IF k * k = n THEN k ELSE IF k * k > n THEN -1 ELSE Root(n, k + 1)
(* value (times the scale given behind) of method on f, w; theta = 5, rho = 1/4 *)
Scalar(method, f, u, w) ==
  CASE method = "ws" -> Dot(f, w)
    [] method = "tcheby" -> MaxOf({Abs(f[k] - u[k]) * w[k] : k \in DOMAIN w})
    [] method = "asf" -> IF Huge(f, u, w) THEN INF ELSE AsfV(f, u, w)                                   \* x WLcm
    [] method = "aasf" -> IF Huge(f, u, w) THEN INF ELSE 4 * AsfV(f, u, w) + Sum([k \in PosW(w) |-> Ratio(f, u, w, k)])   \* x 4 WLcm
    [] method = "pbi" -> Dot(Diff(f, u), w) + 5 * Root(Perp2(Diff(f, u), w), 0)                          \* x |w|
    [] method = "perp" -> Perp2(f, w)                                                                  \* square x |w|^2
ScaleOf(method, w) ==
  CASE method \in {"ws", "tcheby"} -> 1 [] method = "asf" -> WLcm(w) [] method = "aasf" -> 4 * WLcm(w)
    [] method = "pbi" -> Root(N2(w), 0) [] method = "perp" -> N2(w)
(* which pairs (point, weight) a call evaluates, in the order of the flattened result, and the shape of the result *)
PairsOf(kind, nf, nw) ==
  LET k == IF kind # "auto" THEN kind ELSE IF nf = 1 /\ nw > 1 THEN "one_to_many" ELSE IF nf > 1 /\ nw = 1 THEN "many_to_one"
           ELSE IF nf = nw /\ nf > 1 THEN "one_to_one" ELSE "many_to_many" IN
  CASE k = "one_to_one" -> [s |-> <<nf>>, q |-> [i \in 1..nf |-> <<i, i>>]]
    [] k = "one_to_many" -> [s |-> <<nw>>, q |-> [i \in 1..nw |-> <<1, i>>]]
    [] k = "many_to_one" -> [s |-> <<nf>>, q |-> [i \in 1..nf |-> <<i, 1>>]]
    [] k = "many_to_many" -> [s |-> <<nf, nw>>, q |-> [x \in 1..nf * nw |-> <<((x - 1) \div nw) + 1, ((x - 1) % nw) + 1>>]]

(* crowding per space of the multi-modal optimizer (times dimension and Scale); the smallest of each objective is the boundary *)
OmniObj(F, S, i) ==
  LET R == Ranges(F, S)  W == Weights(R)  K == Live(R) IN
  IF Cardinality(S) <= 2 \/ \E k \in Dims(F) : Below(F, S, k, i) = {} THEN INF
  ELSE SumOver([k \in {x \in K : Above(F, S, x, i) # {}} |-> Gap(F, S, k, i) * W[k]], {x \in K : Above(F, S, x, i) # {}})
OmniVar(F, S, i) ==
  LET R == Ranges(F, S)  W == Weights(R)  K == Live(R)
      g(k) == IF Below(F, S, k, i) = {} THEN 2 * (NextVal(F, S, k, i) - F[i][k])
              ELSE IF Above(F, S, k, i) = {} THEN 2 * (F[i][k] - PrevVal(F, S, k, i)) ELSE Gap(F, S, k, i) IN
  IF Cardinality(S) <= 2 THEN INF ELSE SumOver([k \in K |-> g(k) * W[k]], K)
=============================================================================
