------------------------------- MODULE Scale ---------------------------------
(* Scaling of values, decision aids on a front, random choices by weight, windows, and named parameters. *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
(* ---- scaling: NA stands for a bound that is not given; results in units of 1/U, values to scale back in quarters ---- *)
NA == 99999
U == 2520
Kind(l, u) == CASE l = NA /\ u = NA -> "none" [] u = NA -> "lower" [] l = NA -> "upper" [] l = u -> "equal" [] l < u -> "both" [] OTHER -> "bad"
Fwd(l, u, x) == LET k == Kind(l, u) IN
  CASE k = "none" -> U * x
    [] k \in {"lower", "equal"} -> U * (x - l)
    [] k = "upper" -> U * (1 - (u - x))
    [] k = "both" -> (U * (x - l)) \div (u - l)
Bwd(l, u, n) == LET k == Kind(l, u) IN          \* n in quarters, result in quarters
  CASE k = "none" -> n
    [] k = "lower" -> n + 4 * l
    [] k = "equal" -> 4 * l
    [] k = "upper" -> n + 4 * u - 4
    [] k = "both" -> 4 * l + n * (u - l)
Est(e) == LET m == Len(e.X[1]) IN
  [l |-> [j \in 1..m |-> IF e.est /\ e.nol THEN Min(Rng(Col(e.X, j))) ELSE e.xl[j]],
   u |-> [j \in 1..m |-> IF e.est /\ e.nou THEN Max(Rng(Col(e.X, j))) ELSE e.xu[j]]]
Norm(e) ==
  LET B == Est(e) m == Len(e.X[1])
      bad == \E j \in 1..m : Kind(B.l[j], B.u[j]) = "bad"
      W == [i \in 1..Len(e.X) |-> [j \in 1..m |-> Fwd(B.l[j], B.u[j], e.X[i][j])]]
      V == [i \in 1..Len(e.N) |-> [j \in 1..m |-> Bwd(B.l[j], B.u[j], e.N[i][j])]]
  IN IF bad THEN If(~e.raised, "crossed-bounds-accepted")
     ELSE IF e.raised THEN {"raised"}
     ELSE If(e.fwd /\ e.got # W, "scaled-wrongly") \cup If(e.bwd /\ e.back # V, "scaled-back-wrongly")
       \cup If(~e.same, "input-changed") \cup If(~e.round, "not-inverse")
(* standardized: x[i] - mean over deviation, squares compared: with n samples, D = n x - sum, V = n sum(x^2) - sum^2: value^2 = D^2/V *)
Std(e) ==
  LET n == Len(e.X) m == Len(e.X[1])
      S(j) == Sum(Col(e.X, j))
      Q(j) == n * Sum([i \in 1..n |-> e.X[i][j] * e.X[i][j]]) - S(j) * S(j)
      D(i, j) == n * e.X[i][j] - S(j)
  IN IF e.raised THEN {"raised"}
     ELSE If(\E i \in 1..n, j \in 1..m : Abs(e.sq[i][j] - (1000 * D(i, j) * D(i, j)) \div Q(j)) > 1, "standardized-wrongly")
       \cup If(\E i \in 1..n, j \in 1..m : e.sg[i][j] # (IF D(i, j) > 0 THEN 1 ELSE IF D(i, j) < 0 THEN 0 - 1 ELSE 0), "standardized-with-wrong-sign")
       \cup If(~e.round, "not-inverse")
(* ---- running bounds of the objectives: state = <<ideal of feasible, ideal of all>>, NA rows when nothing was seen ---- *)
Low(P, cur) == IF P = <<>> THEN cur ELSE [j \in 1..Len(P[1]) |-> Min(Rng(Col(P, j)) \cup (IF cur = <<>> THEN {} ELSE {cur[j]}))]
RECURSIVE Feas(_, _)
Feas(e, i) == IF i > Len(e.F) THEN <<>> ELSE (IF e.ok[i] THEN <<e.F[i]>> ELSE <<>>) \o Feas(e, i + 1)
Ideals(s, e) == [f |-> Low(Feas(e, 1), s.f), a |-> Low(e.F, s.a)]
IdealEv(s, e) == LET w == Ideals(s, e) IN IF e.raised THEN {"raised"}
                 ELSE If(e.f # w.f, "ideal-of-feasible-wrong") \cup If(e.a # w.a, "ideal-of-all-wrong")
(* ---- decision aids ---- *)
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
(* the weight of a point in an objective is its scaled distance to the worst value, normalized to sum one *)
PW(e) ==
  LET n == Len(e.F) m == Len(e.F[1])
      lo == [j \in 1..m |-> IF e.ideal = <<>> THEN Min(Rng(Col(e.F, j))) ELSE e.ideal[j]]
      hi == [j \in 1..m |-> IF e.nadir = <<>> THEN Max(Rng(Col(e.F, j))) ELSE e.nadir[j]]
      r == [j \in 1..m |-> hi[j] - lo[j]]
      D == ProdTo(r, m)
      u == [i \in 1..n |-> [j \in 1..m |-> ((hi[j] - e.F[i][j]) * D) \div r[j]]]
      s == [i \in 1..n |-> Sum(u[i])]
      w == Sum(e.w)
      A == [i \in 1..n |-> Sum([j \in 1..m |-> Abs(u[i][j] * w - e.w[j] * s[i])])]
      use == (\A j \in 1..m : r[j] > 0) /\ \A i \in 1..n : s[i] > 0
  IN IF ~use THEN {}
     ELSE IF e.raised THEN {"raised"}
     ELSE If(e.got \notin 1..n, "no-point-chosen")
       \cup If(e.got \in 1..n /\ \E i \in 1..n : A[i] * s[e.got] < A[e.got] * s[i], "closer-weights-ignored")
       \cup If(\E i \in 1..n, j \in 1..m : Abs(e.pw[i][j] * s[i] - 1000 * u[i][j]) > s[i], "pseudo-weights-wrong")
Dist2(a, b) == Sum([j \in 1..Len(a) |-> (a[j] - b[j]) * (a[j] - b[j])])
(* neighbours: along the first objective (two objectives), or within a radius but at least `least`, or a number of nearest *)
Nearest(e, i, k, S) == i \in S /\ Cardinality(S) = k + 1 /\ \A a \in S, b \in (1..Len(e.F)) \ S : Dist2(e.F[i], e.F[a]) <= Dist2(e.F[i], e.F[b])
Ball(F, i, r2) == {k \in 1..Len(F) : Dist2(F[i], F[k]) <= r2}
Lesser(a, b) == IF a < b THEN a ELSE b
Neigh(e) ==
  LET n == Len(e.F) m == Len(e.F[1])
      least == IF e.least = "auto" THEN Lesser(2 * m, n - 1) ELSE 0
      S(i) == Rng(e.got[i])
      ok(i) == IF e.two /\ m = 2
               THEN LET before == {k \in 1..n : e.F[k][1] < e.F[i][1]} after == {k \in 1..n : e.F[k][1] > e.F[i][1]} IN
                    S(i) = {k \in before : \A b \in before : e.F[b][1] <= e.F[k][1]} \cup {k \in after : \A b \in after : e.F[b][1] >= e.F[k][1]}
               ELSE IF e.r2 >= 0
               THEN LET B == Ball(e.F, i, e.r2) IN IF Cardinality(B) >= least THEN S(i) = B ELSE Nearest(e, i, least, S(i))
               ELSE Nearest(e, i, e.cnt, S(i))
  IN IF e.raised THEN {"raised"}
     ELSE If(\E i \in 1..n : ~ok(i), "neighbours-wrong") \cup If(\E i \in 1..n : Cardinality(S(i)) # Len(e.got[i]), "neighbour-twice")
(* upper outliers of integers: at least two deviations above the mean; if none and the largest is above one deviation, that one *)
Outl(mu, I) ==      \* I: indices that hold a number; set of admissible answers
  LET n == Cardinality(I) S == LET f == [i \in 1..Len(mu) |-> IF i \in I THEN mu[i] ELSE 0] IN Sum(f)
      Q == LET f == [i \in 1..Len(mu) |-> IF i \in I THEN mu[i] * mu[i] ELSE 0] IN Sum(f)
      V == n * Q - S * S
      d(i) == n * mu[i] - S
      sure == {i \in I : d(i) > 0 /\ d(i) * d(i) > 4 * V}
      edge == {i \in I : d(i) > 0 /\ d(i) * d(i) = 4 * V}
      top == {i \in I : \A k \in I : mu[k] <= mu[i]}
      one == {i \in top : d(i) > 0 /\ d(i) * d(i) > V}
      onee == {i \in top : d(i) > 0 /\ d(i) * d(i) = V}
      weak == IF one # {} THEN {{Min(one)}} ELSE IF onee # {} THEN {{Min(onee)}, {}} ELSE {{}}
  IN IF I = {} \/ V = 0 THEN {{}}
     ELSE {sure \cup E : E \in {E \in SUBSET edge : sure \cup E # {}}} \cup (IF sure = {} THEN weak ELSE {})
Outlier(e) == IF e.raised THEN {"raised"} ELSE If(Rng(e.got) \notin Outl(e.mu, {i \in 1..Len(e.mu) : e.num[i]}), "outliers-wrong")
(* high trade-off: least (sacrifice / gain) over the neighbours (radius 2 of a grid, at least `auto`), then the outliers *)
Pos(x) == IF x > 0 THEN x ELSE 0
Knee(e) ==
  LET n == Len(e.F) m == Len(e.F[1]) least == Lesser(2 * m, n - 1)
      B(i) == Ball(e.F, i, e.r2)
      T(i) == {S \in SUBSET (1..n) : Nearest(e, i, least, S)}
      unique(i) == Cardinality(B(i)) >= least \/ Cardinality(T(i)) = 1
      N(i) == (IF Cardinality(B(i)) >= least THEN B(i) ELSE CHOOSE S \in T(i) : TRUE) \ {i}
      sac(i, k) == Sum([j \in 1..m |-> Pos(e.F[k][j] - e.F[i][j])])
      gain(i, k) == Sum([j \in 1..m |-> Pos(e.F[i][j] - e.F[k][j])])
      nice == \A i \in 1..n : unique(i) /\ \A k \in N(i) : gain(i, k) > 0 /\ 60 % gain(i, k) = 0
      num == {i \in 1..n : N(i) # {}}
      mu == [i \in 1..n |-> IF i \in num THEN Min({(60 \div gain(i, k)) * sac(i, k) : k \in N(i)}) ELSE 0]
  IN IF ~nice THEN {} ELSE IF e.raised THEN {"raised"} ELSE If(Rng(e.got) \notin Outl(mu, num), "trade-off-points-wrong")
(* ---- choices ---- *)
(* a number at k/d of the way around a wheel with sectors proportional to val (or to max - val) *)
Wheel(e) ==
  LET mx == Max(Rng(e.val))
      v == [i \in 1..Len(e.val) |-> IF e.larger THEN e.val[i] ELSE mx - e.val[i]]
      T == Sum(v)
      hit(k, i) == T * k >= e.d * SumTo(v, i - 1) /\ T * k < e.d * SumTo(v, i)
      near(k) == \E i \in 1..Len(v) - 1 : T * k = e.d * SumTo(v, i)
      pow2 == T \in {1, 2, 4, 8, 16}
  IN IF e.raised THEN {"raised"}
     ELSE If(Len(e.got) # Len(e.ks), "wrong-number-of-choices")
       \cup If(Len(e.got) = Len(e.ks) /\ \E t \in 1..Len(e.ks) : (pow2 \/ ~near(e.ks[t])) /\ ~hit(e.ks[t], e.got[t]), "wrong-sector")
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Sorted(A, p, up) == \A i \in 1..Len(p) - 1 : IF up THEN A[p[i]] <= A[p[i + 1]] ELSE A[p[i]] >= A[p[i + 1]]
Sort(e) ==
  LET P == {p \in Perms(Len(e.A)) : Sorted(e.A, p, e.up)} G == Rng(e.got) IN
  IF e.raised THEN {"raised"}
  ELSE If(~(G \subseteq P), "not-sorted") \cup If(e.all /\ P \ G # {}, "order-of-equals-never-drawn") \cup If(~e.same, "same-seed-other-order")
(* ---- windows: state = entries held; size NA when unlimited ---- *)
Last(s, k) == IF k = NA \/ Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
WinNext(s, e) == IF e.op = "clear" THEN <<>> ELSE IF e.op = "add" THEN Last(Append(s, e.v), e.size) ELSE s
WinEv(s, e) == LET w == WinNext(s, e) IN IF e.raised THEN {"raised"}
               ELSE If(e.held # w \/ e.arr # w, "window-holds-something-else") \cup If(e.full # (Len(w) = e.size), "full-or-not-wrong")
(* ---- named parameters: leaves [path, flag, active, id]; the same object may be reachable by several paths ---- *)
Want(e) == {i \in 1..Len(e.leaves) : e.leaves[i].flag = e.flag /\ (~e.active \/ e.leaves[i].active)}
Ids(e) == {e.leaves[i].id : i \in Want(e)}
Paths(e, id) == {e.leaves[i].path : i \in {i \in Want(e) : e.leaves[i].id = id}}
Params(e) ==
  IF e.raised THEN {"raised"}
  ELSE If({e.found[i].id : i \in 1..Len(e.found)} # Ids(e), "parameters-found-wrong")
    \cup If(Len(e.found) # Cardinality(Ids(e)), "parameter-found-twice")
    \cup If(\E i \in 1..Len(e.found) : e.found[i].id \in Ids(e) /\ e.found[i].path \notin Paths(e, e.found[i].id), "parameter-under-another-name")
    \cup If(~e.back, "names-do-not-lead-back")
    \cup If(\E id \in 1..Len(e.before) : e.after[id] # (IF id \in Ids(e) THEN 100 + id ELSE e.before[id]), "set-something-else")
(* created from named values: each value asked for is there; the original is what it was *)
Made(e) == IF e.raised THEN {"raised"}
           ELSE If(e.got # e.want, "value-not-set") \cup If(e.orig # e.was, "original-changed") \cup If(~e.ran, "run-without-the-values")
(* values of controlled parameters: one per offspring, allowed, and the same value is attached to the offspring *)
Control(e) == IF e.raised THEN {"raised"}
              ELSE If(e.n # e.asked, "number-of-values-wrong") \cup If(~e.inside, "value-not-allowed") \cup If(~e.attached, "offspring-carries-another-value")
=============================================================================
