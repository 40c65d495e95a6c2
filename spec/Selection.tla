------------------------------- MODULE Selection -------------------------------
(* Parent selection: contests, their comparisons, participation, index validity.   *)
(* An individual is a record [cv, F, rank, crowd, niche, dist, fit, iter, gen, kind]. *)
EXTENDS Dominance
If(b, nm) == IF b THEN {} ELSE {nm}
Feas(a, b) == a.cv <= 0 /\ b.cv <= 0
Less(x, y, other) == x < y \/ (x = y /\ other)
(* does a beat b under the comparison of the method? *)
Beats(rule, a, b) ==
  CASE rule = "cv-fitness" -> IF Feas(a, b) THEN a.F[1] < b.F[1] ELSE a.cv < b.cv
    [] rule = "cv" -> ~Feas(a, b) /\ a.cv < b.cv
    [] rule = "cv-niche-rank-dist" -> IF ~Feas(a, b) THEN a.cv < b.cv ELSE a.niche = b.niche /\ Less(a.rank, b.rank, a.dist < b.dist)
    [] rule = "cv-dom-crowding" -> IF ~Feas(a, b) THEN a.cv < b.cv ELSE Dom(a.F, b.F) \/ (~Dom(b.F, a.F) /\ a.crowd > b.crowd)
    [] rule = "cv-rank-crowding" -> IF ~Feas(a, b) THEN a.cv < b.cv ELSE Less(a.rank, b.rank, a.crowd > b.crowd)
    [] rule = "cv-dom" -> IF ~Feas(a, b) THEN a.cv < b.cv ELSE Dom(a.F, b.F)
    [] rule = "cv-fit" -> IF ~Feas(a, b) THEN a.cv < b.cv ELSE a.fit < b.fit
    [] rule = "feas-dom" -> (a.cv <= 0 /\ b.cv > 0) \/ (Feas(a, b) /\ Dom(a.F, b.F))
    [] rule = "cv-iter-rank" -> IF ~Feas(a, b) THEN a.cv < b.cv ELSE Less(a.iter, b.iter, a.rank < b.rank)
    [] rule = "age" -> a.gen > b.gen
Rules == {"cv-fitness", "cv", "cv-niche-rank-dist", "cv-dom-crowding", "cv-rank-crowding", "cv-dom", "cv-fit", "feas-dom", "cv-iter-rank", "age"}

Flat(M) == [k \in 1..(Len(M) * Len(M[1])) |-> M[((k - 1) \div Len(M[1])) + 1][((k - 1) % Len(M[1])) + 1]]
Times(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
(* how often each of 1..n occurs differs by at most one *)
Even(s, n) == \A i, j \in 1..n : Times(s, i) - Times(s, j) <= 1
ValidM(R, n, k, p) == Len(R) = k /\ \A r \in 1..Len(R) : Len(R[r]) = p /\ \A c \in 1..Len(R[r]) : R[r][c] \in 1..n

(* decision-space distance normalised by the spread of each variable, compared exactly (two variables) *)
Spread(X, d) == LET v == {X[i][d] : i \in 1..Len(X)} IN LET r == (CHOOSE m \in v : \A y \in v : y <= m) - (CHOOSE m \in v : \A y \in v : y >= m) IN IF r = 0 THEN 1 ELSE r
Sq(x) == x * x
Dst(X, i, j) == Sq((X[i][1] - X[j][1]) * Spread(X, 2)) + Sq((X[i][2] - X[j][2]) * Spread(X, 1))
(* every contest pairs a solution with a nearest one among those not used in this pass *)
PassOf(k, n) == (k - 1) \div (n \div 2)
Used(P, k, n) == UNION {{P[j][1], P[j][2]} : j \in {j \in 1..(k - 1) : PassOf(j, n) = PassOf(k, n)}}
NearestPairs(P, X) == \A k \in 1..Len(P) : LET n == Len(X) rest == (1..n) \ (Used(P, k, n) \cup {P[k][1]}) IN
                        P[k][1] \notin Used(P, k, n) /\ P[k][2] \in rest /\ \A q \in rest : Dst(X, P[k][1], P[k][2]) <= Dst(X, P[k][1], q)

Contests(e) ==
  IF e.raised THEN {"raised"} ELSE
  If(ValidM(e.R, Len(e.pop), e.n_select, e.n_parents), "shape-or-index")
  \cup If(Len(e.P) = e.n_select * e.n_parents /\ \A k \in 1..Len(e.P) : Len(e.P[k]) = e.pressure /\ \A c \in 1..e.pressure : e.P[k][c] \in 1..Len(e.pop), "contests-wrong")
  \cup (IF ValidM(e.R, Len(e.pop), e.n_select, e.n_parents) /\ Len(e.P) = e.n_select * e.n_parents
        THEN LET w == Flat(e.R) IN
             If(\A k \in 1..Len(e.P) : w[k] \in {e.P[k][c] : c \in 1..Len(e.P[k])}, "winner-did-not-take-part")
             \cup If(\A k \in 1..Len(e.P) : \A c \in 1..Len(e.P[k]) : ~Beats(e.rule, e.pop[e.P[k][c]], e.pop[w[k]]), "loser-selected")
        ELSE {})
  \cup If(e.draw # "permutation" \/ Even(Flat(e.P), Len(e.pop)), "uneven-participation")
  \cup If(e.draw # "neighbour" \/ NearestPairs(e.P, e.X), "not-nearest-neighbours")
  \cup If(e.same, "individuals-are-not-those-of-the-indices")

(* two archives of equal size, one after the other: each contest within one of them *)
Half(n, i) == IF i <= n \div 2 THEN 1 ELSE 2
NDIn(pop, h) == Cardinality({i \in 1..Len(pop) : Half(Len(pop), i) = h /\ \A j \in 1..Len(pop) : ~Dom(pop[j].F, pop[i].F)})
Restricted(e) ==
  LET n == Len(e.pop)
      side(k) == Half(n, e.P[k][1]) IN
  If(\A k \in 1..Len(e.P) : \A c \in 1..Len(e.P[k]) : Half(n, e.P[k][c]) = side(k), "contest-across-archives")
  \cup If(\A k \in 1..Len(e.P) : (k - 1) % e.n_parents = 0 => side(k) = (IF NDIn(e.pop, 1) <= NDIn(e.pop, 2) THEN 2 ELSE 1), "wrong-archive")
  \cup If(NDIn(e.pop, 1) > 0 \/ \A k \in 1..Len(e.P) : (k - 1) % e.n_parents = 1 => side(k) = 2, "wrong-archive")

(* differential evolution: target, base, difference pairs *)
Pairwise(r, C) == \A i, j \in C : i # j => r[i] # r[j]
From(a, b) == a..b
DE(e) ==
  IF e.raised THEN {"raised"} ELSE
  If(ValidM(e.R, e.n, e.n_select, e.n_parents), "shape-or-index") \cup
  (IF ~ValidM(e.R, e.n, e.n_select, e.n_parents) THEN {} ELSE
   LET p == e.n_parents IN
   If(\A k \in 1..Len(e.R) : e.R[k][1] = k, "target-out-of-order")
   \cup If(\A k \in 1..Len(e.R) : LET r == e.R[k] IN
        CASE e.variant \in {"rand", "ranked"} -> Pairwise(r, 1..p)
          [] e.variant = "best" -> Pairwise(r, {1} \cup 3..p) /\ Pairwise(r, 2..p)
          [] e.variant = "current-to-best" -> Pairwise(r, {1} \cup 5..p) /\ Pairwise(r, {3} \cup 5..p)
          [] e.variant = "current-to-rand" -> Pairwise(r, {1, 3} \cup 5..p), "parents-not-distinct")
   \cup If(\A k \in 1..Len(e.R) : LET r == e.R[k] IN
        CASE e.variant = "best" -> r[2] = 1
          [] e.variant = "current-to-best" -> r[2] = k /\ r[3] = 1 /\ r[4] = k
          [] e.variant = "current-to-rand" -> r[2] = k /\ r[4] = k
          [] OTHER -> TRUE, "base-is-not-the-one-of-the-variant")
   \cup If(e.variant # "ranked" \/ \A k \in 1..Len(e.R) : LET r == e.R[k] IN
           /\ \A c \in 2..p : e.rank[r[2]] <= e.rank[r[c]]
           /\ \A j \in 1..((p - 2) \div 2) : e.rank[r[1 + 2 * j]] <= e.rank[r[2 + 2 * j]], "not-ordered-by-rank"))

(* distinct random values filled into some columns *)
Fill(e) ==
  IF e.raised THEN {"raised"} ELSE
  If(\A k \in 1..Len(e.R) : \A c \in 1..Len(e.R[k]) : c \in e.cols \/ e.R[k][c] = e.before[k][c], "other-columns-changed")
  \cup If(\A k \in 1..Len(e.R) : \A c \in e.cols : e.R[k][c] \in 1..e.n, "shape-or-index")
  \cup If(Cardinality(e.cols) + Len(e.avoid[1]) > e.n \/
          \A k \in 1..Len(e.R) : Pairwise(e.R[k], e.cols) /\ \A c \in e.cols : \A a \in 1..Len(e.avoid[k]) : e.R[k][c] # e.avoid[k][a], "parents-not-distinct")

Neighbourhood(e) ==
  IF e.raised THEN {"raised"} ELSE
  If(ValidM(e.R, e.n, e.n_select, e.n_parents), "shape-or-index")
  \cup If(\A k \in 1..Len(e.R) : Pairwise(e.R[k], 1..Len(e.R[k])), "parents-not-distinct")
  \cup If(e.prob < 100 \/ \A k \in 1..Len(e.R) : \A c \in 1..Len(e.R[k]) : e.R[k][c] \in {e.N[k][j] : j \in 1..Len(e.N[k])}, "parent-from-outside-the-neighbourhood")

Elite(e) ==
  IF e.raised THEN {"raised"} ELSE
  If(ValidM(e.R, e.n, e.n_select, 2), "shape-or-index")
  \cup If(\A k \in 1..Len(e.R) : e.kind[e.R[k][1]] = "elite", "first-parent-not-elite")
  \cup If(\A k \in 1..Len(e.R) : e.kind[e.R[k][2]] = "non_elite" \/ \A i \in 1..e.n : e.kind[i] = "elite", "second-parent-elite")

Random(e) == IF e.raised THEN {"raised"} ELSE
  If(ValidM(e.R, e.n, e.n_select, e.n_parents), "shape-or-index")
  \cup If(~ValidM(e.R, e.n, e.n_select, e.n_parents) \/ Even(Flat(e.R), e.n), "uneven-participation") \cup If(e.same, "individuals-are-not-those-of-the-indices")

(* many repetitions of one contest: who won how often *)
Repeated(e) == LET a == e.pop[1] b == e.pop[2] IN
  If(e.raised \/ e.wins[1] + e.wins[2] = e.times, "winner-did-not-take-part") \cup If(~e.raised, "raised")
  \cup If(e.raised \/ ((Beats(e.rule, a, b) => e.wins[2] = 0) /\ (Beats(e.rule, b, a) => e.wins[1] = 0)), "loser-selected")
  \cup If(e.raised \/ Beats(e.rule, a, b) \/ Beats(e.rule, b, a) \/ (e.wins[1] > 0 /\ e.wins[2] > 0), "tie-not-random")
=============================================================================
