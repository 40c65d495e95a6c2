------------------------------- MODULE Prefer --------------------------------
(* Preferences of a decision maker: comparisons in pairs become a ranking, a     *)
(* ranking becomes a value function, and the value of the second best solution   *)
(* splits the solutions into two classes, one of which dominates the other.      *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sum(_, _, _)
Sum(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + Sum(f, lo + 1, hi)
RECURSIVE Prod(_, _, _)
Prod(f(_), lo, hi) == IF lo > hi THEN 1 ELSE f(lo) * Prod(f, lo + 1, hi)

(* ---- from answers to a ranking: 1 is the best, equals share a rank, none is left out ---- *)
Ranking(u) == [i \in 1..Len(u) |-> Cardinality({v \in Rng(u) : v > u[i]}) + 1]
\* insertion, one question at a time: u[a] against the first of each group from the best on
Answer(u, i, j) == IF u[i] > u[j] THEN "a" ELSE IF u[i] < u[j] THEN "b" ELSE "c"
Before(s, j, x) == SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s))
Insert(gr, j, i, ans) ==         \* gr: groups so far, j: the group asked about; done: placed
  IF ans = "a" THEN [gr |-> Before(gr, j, <<i>>), done |-> TRUE]
  ELSE IF ans = "c" THEN [gr |-> [gr EXCEPT ![j] = Append(@, i)], done |-> TRUE]
  ELSE IF j = Len(gr) THEN [gr |-> Append(gr, <<i>>), done |-> TRUE]
  ELSE [gr |-> gr, done |-> FALSE]
RankOf(gr, n) == [i \in 1..n |-> CHOOSE r \in 1..Len(gr) : i \in Rng(gr[r])]
Rank(e) == If(e.raised, "raised") \cup If(~e.raised /\ e.got # Ranking(e.u), "ranking")
           \cup If(\E q \in Rng(e.asked) : q[1] = q[2] \/ q[1] = 0 \/ q[2] = 0, "question-about-two-solutions")
\* a dialogue asks until every solution has a rank within range
Valid(a, n) == Len(a) = n /\ \A i \in 1..n : a[i] \in 1..n
FirstValid(as, n) == MinS({i \in 1..Len(as) : Valid(as[i], n)})
Dialog(e) == If(e.raised, "raised") \cup If(~e.raised /\ (e.got # e.answers[FirstValid(e.answers, e.n)] \/ e.prompts # FirstValid(e.answers, e.n)), "first-valid-answer")

(* ---- dominance with a value function: values are to be large, objectives small ---- *)
Val(w, f) == 0 - Sum(LAMBDA j : w[j] * f[j], 1, Len(f))
Pareto(f, g) == (\A j \in 1..Len(f) : f[j] <= g[j]) /\ f # g
\* side: above (1), at (0) or below (-1) the value of the second best
Side(w, v2, f) == LET v == Val(w, f) IN IF v > v2 THEN 1 ELSE IF v < v2 THEN 0 - 1 ELSE 0
Beats(F, sd, i, j) == Pareto(F[i], F[j]) \/ (sd[i] = 1 /\ sd[j] = 0 - 1)
Rel(F, sd, i, j) == (IF Beats(F, sd, i, j) THEN 1 ELSE 0) - (IF Beats(F, sd, j, i) THEN 1 ELSE 0)
RECURSIVE Layers(_, _, _)
Layers(F, sd, S) == IF S = {} THEN <<>>
  ELSE LET L == {i \in S : ~\E j \in S : Rel(F, sd, j, i) = 1} IN IF L = {} THEN <<S>> ELSE <<L>> \o Layers(F, sd, S \ L)
Matrix(e) ==
  LET n == Len(e.F) sd == IF e.on THEN [i \in 1..n |-> Side(e.w, e.v2, e.F[i])] ELSE [i \in 1..n |-> 0] IN
  If(e.raised, "raised")
  \cup If(~e.raised /\ \E i, j \in 1..n : e.M[i][j] # Rel(e.F, sd, i, j), "relation")
  \cup If(~e.raised /\ [r \in 1..Len(e.fronts) |-> Rng(e.fronts[r])] # Layers(e.F, sd, 1..n), "layers")
  \cup If(~e.raised /\ e.on /\ \E i \in 1..n : e.cmp[i] # Side(e.w, e.v2, e.F[i]), "comparator")

(* ---- value functions ---- *)
\* products of sums: every variable of each factor has its own share
Poly(P, k, M) == Prod(LAMBDA m : Sum(LAMBDA j : k[(m - 1) * M + j] * P[1 + ((m + j - 2) % M)], 1, M), 1, M)
PolyEv(e) == If(e.raised, "raised") \cup If(~e.raised /\ e.got # [i \in 1..Len(e.P) |-> Poly(e.P[i], e.x, Len(e.P[i]))], "value")
\* values v of the points in units of 10^-5 of the largest; r: ranks; eps: the distance reached, delta / 10 of it between equals
Follows(v, r, S, eps, t) ==
  \A i, j \in S : (r[i] < r[j] => v[i] >= v[j] - t)
                  /\ ((r[i] < r[j] /\ ~\E k \in S : r[i] < r[k] /\ r[k] < r[j]) => \E a, b \in S : r[a] = r[i] /\ r[b] = r[j] /\ v[a] - v[b] >= eps - t)
Fit(e) ==
  LET n == Len(e.r) t == e.tol IN
  IF e.raised THEN {"raised"} ELSE
  If(~e.kept, "arguments-modified")
  \cup If(e.fit /\ (\E g \in Rng(e.sums) : Abs(g - 100000) > t), "weights-sum-to-one") \cup If(e.fit /\ \E g \in Rng(e.wts) : g < 0 - t \/ g > 100000 + t, "weights-between-zero-and-one")
  \cup If(e.fit /\ e.eps < 0 - t, "distance-negative")
  \cup If(e.fit /\ e.eps >= 0 - t /\ ~Follows(e.v, e.r, 1..n, e.eps, t), "value-follows-the-ranking")
  \cup If(e.fit /\ \E i \in 1..Len(e.up) : e.up[i] < 0 - 2 * t, "better-is-no-worse")
  \cup If(e.fit /\ e.lin /\ \E i \in 1..n : Abs(e.sc * e.v[i] - Sum(LAMBDA j : e.wts[j] * e.P[i][j], 1, Len(e.P[i]))) > 40 * t, "value-of-the-weights")
Share(e) == If(100 * e.fits < e.least * e.n, "fits-what-can-be-fitted")

(* ---- what is shown: distinct points of the best class, far from each other ---- *)
D2(p, q) == Sum(LAMBDA j : (p[j] - q[j]) * (p[j] - q[j]), 1, Len(p))
Near(X, i, S) == MinS({D2(X[i], X[j]) : j \in S})
Far(e) ==
  LET m == Len(e.got) IN
  If(e.raised, "raised") \cup If(~e.raised /\ (m # e.n \/ Cardinality(Rng(e.got)) # m), "number-of-points")
  \cup If(~e.raised /\ m >= Len(e.sel) /\ SubSeq(e.got, 1, Len(e.sel)) # e.sel, "points-given")
  \cup If(~e.raised /\ \E k \in (IF Len(e.sel) > 1 THEN Len(e.sel) ELSE 1) + 1..m :
            LET S == {e.got[q] : q \in 1..k - 1} IN \E i \in (1..Len(e.X)) \ S : Near(e.X, i, S) > Near(e.X, e.got[k], S), "farthest-point")

(* ---- a run ---- *)
\* rank of every member: the layers of the relation in force when it was selected
Gen(e) ==
  LET n == Len(e.U) L == Layers(e.U, e.sd, 1..n)
      front == {i \in 1..n : e.rank[i] = 0}
      rows == {e.U[i] : i \in front} IN
  If(\E i \in 1..n : ~(e.rank[i] + 1 \in 1..Len(L) /\ i \in L[e.rank[i] + 1]), "rank")
  \cup If(e.calls > 0 /\ e.gen % e.tau # 0, "asked-too-early")
  \cup If(e.calls = 0 /\ e.gen % e.tau = 0 /\ Cardinality(rows) > 1 /\ e.eta > 1, "not-asked")
  \cup If(e.calls > 0 /\ (\E i \in Rng(e.shown) : i \notin front), "shown-not-from-the-best")
  \cup If(e.calls > 0 /\ (Len(e.shown) # Min2(e.eta, Cardinality(rows)) \/ Cardinality({e.U[i] : i \in Rng(e.shown) \cap (1..n)}) # Len(e.shown)), "shown-number")
  \cup If(e.calls > 0 /\ \E i \in 1..Len(e.shown) - 1 : e.shown[i] \in 1..n /\ e.shown[i + 1] \in 1..n /\ e.U[e.shown[i]][1] > e.U[e.shown[i + 1]][1], "shown-order")
\* candidates for the second best among S: the best left after one of the best is taken out
Second(u, S) == LET T == S \ {CHOOSE i \in S : \A j \in S : u[i] <= u[j]} IN {i \in T : \A j \in T : u[i] <= u[j]} \cup
                (IF Cardinality({i \in S : \A j \in S : u[i] <= u[j]}) > 1 THEN {i \in S : \A j \in S : u[i] <= u[j]} ELSE {})
RECURSIVE Reach(_, _)
Reach(u, Q) == LET N == UNION {{S \ {i} : i \in Second(u, S)} : S \in {T \in Q : Cardinality(T) > 2}} IN IF N \subseteq Q THEN Q ELSE Reach(u, Q \cup N)
Decide(e) ==
  LET n == Len(e.u) same == Cardinality(Rng(e.u)) = 1 IN
  If(e.raised, "raised")
  \cup If(~e.raised /\ same /\ e.state # "none", "no-preference-keeps-a-function")
  \cup If(~e.raised /\ ~same /\ e.state = "kept", "answer-without-effect")
  \cup If(~e.raised /\ ~same /\ e.state = "fit" /\
          ~\E S \in Reach(e.u, {1..n}) : Follows(e.v, e.u, S, 0, 20) /\ \E i \in Second(e.u, S) : Abs(e.v[i] - e.v2) <= 20, "value-of-the-second-best")
\* where the function follows the whole ranking there was mostly nothing to leave out
Seconds(e) ==
  LET A == {i \in 1..Len(e.ds) : Len(e.ds[i].u) > 2 /\ Follows(e.ds[i].v, e.ds[i].u, 1..Len(e.ds[i].u), 0, 20)}
      B == {i \in A : \E j \in Second(e.ds[i].u, 1..Len(e.ds[i].u)) : Abs(e.ds[i].v[j] - e.ds[i].v2) <= 20} IN
  If(100 * Cardinality(B) < e.least * Cardinality(A), "value-of-the-second-best")
=============================================================================
