------------------------------ MODULE RefDirs ------------------------------
(* Structured reference directions: the simplex lattices, the traversal that yields   *)
(* them in portions, their scaled layers, what a number of points admits, and the      *)
(* greedy farthest-point subset behind the unstructured sets.                          *)
(* All coordinates are integers over a common denominator given with each event.       *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Max0(a, b) == IF a > b THEN a ELSE b
RECURSIVE Total(_, _)
Total(v, j) == IF j = 0 THEN 0 ELSE v[j] + Total(v, j - 1)
RECURSIVE Lattice(_, _)
Lattice(m, p) == IF m = 1 THEN {<<p>>} ELSE UNION {{<<i>> \o v : v \in Lattice(m - 1, p - i)} : i \in 0..p}
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF n < k THEN 0 ELSE (Choose(n - 1, k - 1) * n) \div k
Count(m, p) == Choose(m + p - 1, p)
Boundary(m, p) == {v \in Lattice(m, p) : \E j \in 1..m : v[j] = 0}
(* the lattice that contains its predecessor: the rings around the center *)
IncLattice(m, p) == {[j \in 1..m |-> m * v[j] + (p - c)] : <<c, v>> \in UNION {{<<c, v>> : v \in IF c = 0 THEN {[j \in 1..m |-> 0]} ELSE Boundary(m, c)} : c \in 0..p}}
RECURSIVE IncCount(_, _)
IncCount(m, p) == IF p = 0 THEN 1 ELSE IncCount(m, p - 1) + (IF m = 1 THEN 0 ELSE Count(m, p) - (IF p >= m THEN Choose(p - 1, m - 1) ELSE 0))
CountOf(kind, m, p) == IF kind = "inc" THEN IncCount(m, p) ELSE Count(m, p)
RECURSIVE Largest(_, _, _, _)
Largest(kind, m, n, p) == IF CountOf(kind, m, p + 1) > n THEN p ELSE Largest(kind, m, n, p + 1)
Partition(kind, m, n) == IF m = 1 THEN 0 ELSE Largest(kind, m, n, 0)
RECURSIVE Less(_, _, _)
Less(a, b, j) == IF j > Len(a) THEN TRUE ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE Less(a, b, j + 1)
Lex(rows) == \A i \in 1..(Len(rows) - 1) : Less(rows[i], rows[i + 1], 1)

(* ---------------- traversal in portions: a stack of partial points ---------------- *)
Start(p) == <<[pt |-> <<>>, beta |-> p]>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Push(_, _, _)
Push(s, it, i) == IF i > it.beta THEN s ELSE Push(Append(s, [pt |-> Append(it.pt, i), beta |-> it.beta - i]), it, i + 1)
RECURSIVE Pull(_, _, _, _)
Pull(m, s, k, out) ==
  IF k = 0 \/ s = <<>> THEN [stack |-> s, out |-> out]
  ELSE LET it == s[Len(s)] IN
       IF Len(it.pt) + 1 = m THEN Pull(m, Front(s), k - 1, Append(out, Append(it.pt, it.beta)))
       ELSE Pull(m, Push(Front(s), it, 0), k, out)

(* ---------------- expected point sets over the event's denominator ---------------- *)
(* scaled by a/b towards the center: coordinates over Max(p,1) * m * b *)
Scaled(kind, m, p, a, b, f) ==
  IF p = 0 THEN {[j \in 1..m |-> b * f]}
  ELSE IF kind = "inc" THEN {[j \in 1..m |-> f * (v[j] * a + (b - a) * p)] : v \in IncLattice(m, p)}
  ELSE {[j \in 1..m |-> f * (v[j] * a * m + (b - a) * p)] : v \in Lattice(m, p)}

Lat(e) == IF e.raised THEN {"raised"} ELSE
  LET X == Scaled(e.kind, e.m, e.p, e.a, e.b, 1) IN
  If(~e.exact, "off the lattice") \cup If(SetOf(e.rows) # X, "exactly the lattice points")
  \cup If(Len(e.rows) # Cardinality(SetOf(e.rows)), "each once") \cup If(e.lex /\ ~Lex(e.rows), "sorted")
  \cup If(Len(e.rows) # CountOf(e.kind, e.m, e.p), "count")
(* the number of points decides the partitions, or nothing is returned *)
Points(e) ==
  LET p == Partition(e.kind, e.m, e.n)
      ok == CountOf(e.kind, e.m, p) = e.n IN
  If(ok /\ e.raised, "possible number refused") \cup If(~ok /\ ~e.raised, "impossible number accepted")
  \cup If(ok /\ ~e.raised /\ e.got # e.n, "number of points")
  \cup If(~ok /\ e.raised /\ e.said # <<>> /\ e.said # <<CountOf(e.kind, e.m, p), p, CountOf(e.kind, e.m, p + 1), p + 1>>, "suggested alternatives")
Multi(e) == IF e.raised THEN {"raised"} ELSE
  LET X == UNION {Scaled("das", e.m, L.p, L.a, L.b, L.f) : L \in SetOf(e.layers)} IN
  If(~e.exact, "off the lattice") \cup If(SetOf(e.rows) # X, "exactly the union") \cup If(Len(e.rows) # Cardinality(X), "each once")
(* portions of the traversal *)
Batch(s, e) ==
  LET all == Scaled("das", e.m, e.p, e.a, e.b, 1)
      rem == Cardinality(all) - s.n
      want == IF e.req < 0 THEN rem ELSE IF e.req < rem THEN e.req ELSE rem IN
  IF e.raised THEN {"raised"} ELSE
  If(Len(e.rows) # want, "portion size") \cup If(SetOf(e.rows) \cap s.seen # {} \/ Cardinality(SetOf(e.rows)) # Len(e.rows), "each once")
  \cup If(~(SetOf(e.rows) \subseteq all) \/ ~e.exact, "off the lattice") \cup If(e.more # (s.n + want < Cardinality(all)), "has_next")
  \cup If(e.number # Cardinality(all), "number_of_points")
BatchStep(s, e) == [n |-> s.n + Len(e.rows), seen |-> s.seen \cup SetOf(e.rows)]
(* layer-wise: edges of the lattice, each layer scaled by one factor (rows, s over U) *)
LayerPts(m, p) == IF p = 0 THEN {[j \in 1..m |-> 0]} ELSE {v \in Lattice(m, p) : Cardinality({j \in 1..m : v[j] # 0}) <= 2}
RECURSIVE LayerTotal(_, _, _)
LayerTotal(m, ps, k) == IF k = 0 THEN 0 ELSE Cardinality(LayerPts(m, ps[k])) + LayerTotal(m, ps, k - 1)
Layers(e) == IF e.raised THEN {"raised"} ELSE
  LET U == e.U
      at(k) == LayerTotal(e.m, e.ps, k - 1)
      near(r, v, p, s) == \A j \in 1..e.m : IF p = 0 THEN Abs(r[j] * e.m - U) <= 3 * e.m
                                             ELSE Abs(r[j] * p * e.m - (s * v[j] * e.m + (U - s) * p)) <= 3 * p * e.m IN
  If(Len(e.rows) # LayerTotal(e.m, e.ps, Len(e.ps)), "count") \cup
  (IF Len(e.rows) # LayerTotal(e.m, e.ps, Len(e.ps)) THEN {} ELSE
   If(\E k \in 1..Len(e.ps) : LET Y == {e.rows[i] : i \in (at(k) + 1)..at(k + 1)} IN
        \E v \in LayerPts(e.m, e.ps[k]) : ~\E r \in Y : near(r, v, e.ps[k], e.s[k]), "layer points"))
  \cup If(\E k \in 1..Len(e.s) : e.s[k] < 0 \/ e.s[k] > U, "layer scaling")
  \cup If(\A k \in 1..Len(e.s) : e.s[k] < U, "outermost layer") \cup If(~e.same, "repeatable")
(* any method: rows over U *)
Simplex(e) ==
  If(\E i \in 1..Len(e.rows) : \E j \in 1..e.m : e.rows[i][j] < 0, "non-negative")
  \cup If(\E i \in 1..Len(e.rows) : Abs(Total(e.rows[i], e.m) - e.U) > e.m, "sums to one")
Method(e) == IF e.raised THEN {"raised"} ELSE
  If(~e.finite, "finite") \cup If(Len(e.rows) # e.n, "number of directions") \cup Simplex(e)
  \cup If(~e.same, "repeatable with the same seed") \cup If(e.lex /\ ~Lex(e.rows), "sorted") \cup If(e.distinct < Len(e.rows), "distinct")
  \cup If(e.keep /\ LET p == Partition("das", e.m, e.n) IN p > 0 /\ \E v \in Boundary(e.m, p) : ~\E r \in SetOf(e.rows) : \A j \in 1..e.m : Abs(r[j] * p - v[j] * e.U) <= 2 * p, "boundary lattice kept")
  \cup If(e.corner /\ e.n >= e.m /\ \E i \in 1..e.m : ~\E r \in SetOf(e.rows) : \A j \in 1..e.m : r[j] = (IF i = j THEN e.U ELSE 0), "corners")
Sample(e) == IF e.raised THEN {"raised"} ELSE If(Len(e.rows) # e.n, "number of points") \cup Simplex(e)
Project(e) == IF e.raised THEN {"raised"} ELSE Simplex(e)
  \cup If(\E i \in 1..Len(e.rows) : (\A j \in 1..e.m : e.src[i][j] >= 0) /\ e.rows[i] # e.src[i], "points of the simplex stay")
(* greedy farthest points: e.X integer points, e.init chosen before, e.sel the result *)
RECURSIVE D2(_, _, _)
D2(a, b, j) == IF j = 0 THEN 0 ELSE (a[j] - b[j]) * (a[j] - b[j]) + D2(a, b, j - 1)
Closest(X, i, C) == LET ds == {D2(X[i], X[c], Len(X[i])) : c \in C} IN CHOOSE d \in ds : \A x \in ds : d <= x
Farthest(e) == IF e.raised THEN {"raised"} ELSE
  LET n0 == Max0(Len(e.init), 1)
      C(k) == {e.sel[i] : i \in 1..(k - 1)} IN
  If(Len(e.sel) # e.n, "number of points") \cup If(SubSeq(e.sel, 1, Len(e.init)) # e.init, "initial points kept")
  \cup If(\E i \in 1..Len(e.sel) : e.sel[i] \notin 1..Len(e.X), "valid indices") \cup If(Cardinality(SetOf(e.sel)) # Len(e.sel), "each once")
  \cup (IF \E i \in 1..Len(e.sel) : e.sel[i] \notin 1..Len(e.X) THEN {} ELSE
        If(\E k \in (n0 + 1)..Len(e.sel) : \E i \in (1..Len(e.X)) \ C(k) : Closest(e.X, i, C(k)) > Closest(e.X, e.sel[k], C(k)), "farthest point next"))
=============================================================================
