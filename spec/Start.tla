------------------------------- MODULE Start ---------------------------------
(* How a run starts: solutions supplied by the user, designs drawn by samplings. *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* ---- supplied solutions: g[i] = [x |-> code, done |-> values are known already] ---- *)
RepairOf(x) == x - (x % 2)                       \* the repair operator of the drivers
Repaired(g, rep) == [i \in 1..Len(g) |-> IF rep /\ ~g[i].done THEN [g[i] EXCEPT !.x = RepairOf(@)] ELSE g[i]]
IsNew(s, i) == \A j \in 1..(i - 1) : s[j].x # s[i].x
RECURSIVE Keep(_, _)
Keep(s, i) == IF i > Len(s) THEN <<>> ELSE (IF IsNew(s, i) THEN <<s[i]>> ELSE <<>>) \o Keep(s, i + 1)
First(g, rep, elim) == LET s == Repaired(g, rep) IN IF elim THEN Keep(s, 1) ELSE s
Xs(s) == [i \in 1..Len(s) |-> s[i].x]
RECURSIVE Todo(_, _)
Todo(s, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i].done THEN <<>> ELSE <<s[i].x>>) \o Todo(s, i + 1)
Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Occ(a, a[i]) = Occ(b, a[i])
Given(e) ==
  LET w == First(e.g, e.rep, e.elim) IN
  IF e.raised THEN {"raised"}
  ELSE If(~SameBag(e.got, Xs(w)), "first-generation-not-what-was-given")
    \cup If(SameBag(e.got, Xs(w)) /\ e.got # Xs(w), "order-of-the-given-not-kept")
    \cup If(~SameBag(e.rows, Todo(w, 1)), "known-values-evaluated-again-or-new-ones-not")
    \cup If(e.count # Len(Todo(w, 1)), "start-counted-wrongly")
    \cup If(e.got = Xs(w) /\ \E i \in 1..Len(w) : e.kept[i] # w[i].done, "known-values-not-kept")
(* ---- a local search starts at the best of its first solutions: q[i] = <<violation, value>> ---- *)
Better(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Begin(e) == IF e.raised THEN {"raised"}
            ELSE If(e.at \notin 1..Len(e.q), "starts-somewhere-else")
              \cup If(e.at \in 1..Len(e.q) /\ \E i \in 1..Len(e.q) : Better(e.q[i], e.q[e.at]), "does-not-start-at-the-best")
              \cup If(Len(e.q) # e.n, "number-of-start-points-wrong")
(* ---- designs ---- *)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
(* cell[i][j]: slice of variable j sample i lies in, pos: position inside the slice in thousandths, fixed: variables without a range *)
Lhs(e) ==
  IF e.raised THEN {"raised"}
  ELSE If(Len(e.cell) # e.n \/ \E i \in 1..Len(e.cell) : Len(e.cell[i]) # e.m, "number-of-samples-wrong")
    \cup If(~e.inside, "sample-out-of-bounds")
    \cup If(Len(e.cell) = e.n /\ \E j \in 1..e.m : ~e.fixed[j] /\ {e.cell[i][j] : i \in 1..e.n} # 1..e.n, "not-one-sample-per-slice")
    \cup If(~e.smooth /\ \E i \in 1..Len(e.pos), j \in 1..e.m : ~e.fixed[j] /\ Abs(e.pos[i][j] - 500) > 1, "not-in-the-middle-of-the-slice")
(* the design returned has the best score among those the criterion was asked for *)
Best(e) == IF e.raised THEN {"raised"}
           ELSE If(Len(e.asked) < e.its, "fewer-designs-scored-than-asked-for")
             \cup If(e.asked # <<>> /\ \E i \in 1..Len(e.asked) : e.asked[i] > e.score, "better-design-thrown-away")
             \cup If(\A i \in 1..Len(e.asked) : e.asked[i] # e.score, "design-was-not-a-candidate")
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sq(x) == x * x
Dist2(a, b) == SumTo([j \in 1..Len(a) |-> Sq(a[j] - b[j])], Len(a))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxMin2(P) == Min({Dist2(P[i], P[j]) : <<i, j>> \in {<<i, j>> \in (1..Len(P)) \X (1..Len(P)) : i < j}})
Score(e) ==
  IF e.raised THEN {"raised"}
  ELSE IF e.crit = "maxmin" THEN If(Abs(e.val - MaxMin2(e.P)) > 0, "criterion-wrong")      \* val: the square of the value
  ELSE LET n == Len(e.P) m == Len(e.P[1])
           S(j) == SumTo(Col(e.P, j), n)
           C(j, k) == n * SumTo([i \in 1..n |-> e.P[i][j] * e.P[i][k]], n) - S(j) * S(k)
           R(j, k) == (10000 * Sq(C(j, k))) \div (C(j, j) * C(k, k))
           T == {<<j, k>> \in (1..m) \X (1..m) : k < j}
           RECURSIVE Tot(_)
           Tot(U) == IF U = {} THEN 0 ELSE LET u == CHOOSE u \in U : TRUE IN R(u[1], u[2]) + Tot(U \ {u})
       IN If(Abs((0 - e.val) - Tot(T)) > 1 + Cardinality(T), "criterion-wrong")              \* val: in ten-thousandths
(* random samplings: the number asked for, values of the declared type, and over many draws every value (slice) there is *)
Random(e) ==
  LET A == CASE e.kind = "int" -> {<<v>> : v \in e.lo..e.hi}
             [] e.kind = "bits" -> {<<v>> : v \in {0, 1}}
             [] e.kind = "options" -> {<<v>> : v \in 1..e.hi}
             [] e.kind = "slices" -> {<<v>> : v \in 1..e.hi}
             [] e.kind = "perm" -> {[i \in 1..e.hi |-> p[i] - 1] : p \in Perms(e.hi)}
             [] e.kind = "orders" -> Perms(e.hi)
      D == {e.drawn[i] : i \in 1..Len(e.drawn)}
  IN IF e.raised THEN {"raised"}
     ELSE If(e.count # e.n, "number-of-samples-wrong") \cup If(~e.typed, "sample-of-another-type")
       \cup If(D \ A # {}, "sample-out-of-space") \cup If(A \ D # {}, "never-drawn")
=============================================================================
