----------------------------- MODULE Indicators -----------------------------
(* Quality indicators on integer grids. Objective values are integers; a preset      *)
(* normalisation maps them to multiples of 1 / L, so every quantity below is again    *)
(* an integer in units of 1 / L. Distances are compared in thousandths of a unit.     *)
EXTENDS Hypervolume, Dominance
If(b, nm) == IF b THEN {} ELSE {nm}
SetOf(s) == {s[k] : k \in 1..Len(s)}
Sq(x) == x * x
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumTo(_, _), ISq(_, _, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
(* integer square root by bisection *)
ISq(x, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m * m <= x THEN ISq(x, m, b) ELSE ISq(x, a, m)
ISqrt(x) == ISq(x, 0, 46340)

(* a vector after the preset normalisation, in units of 1 / L *)
Norm(p, id, nd, L) == [j \in 1..Len(p) |-> IF nd[j] = id[j] THEN (p[j] - id[j]) * L ELSE ((p[j] - id[j]) * L) \div (nd[j] - id[j])]
Scale(p, L) == [j \in 1..Len(p) |-> p[j] * L]
MapSeq(s, Op(_)) == [k \in 1..Len(s) |-> Op(s[k])]

(* ------------------------------------------------------------------ distances --- *)
D2(a, b) == Sum([j \in 1..Len(a) |-> Sq(a[j] - b[j])])
DPlus2(z, a) == Sum([j \in 1..Len(a) |-> Sq(Max2(a[j] - z[j], 0))])
Milli(d2) == ISqrt(d2 * 1000000)
Nearest(from, S, d(_, _)) == MinS({d(from, b) : b \in S})
GDsum(A, Z) == Sum([k \in 1..Len(A) |-> Milli(MinS({D2(A[k], z) : z \in SetOf(Z)}))])
IGDsum(A, Z) == Sum([k \in 1..Len(Z) |-> Milli(MinS({D2(a, Z[k]) : a \in SetOf(A)}))])
GDPsum(A, Z) == Sum([k \in 1..Len(A) |-> Milli(MinS({DPlus2(z, A[k]) : z \in SetOf(Z)}))])
IGDPsum(A, Z) == Sum([k \in 1..Len(Z) |-> Milli(MinS({DPlus2(Z[k], a) : a \in SetOf(A)}))])
(* additive and (as a fraction of two integers) multiplicative epsilon *)
EpsAdd(A, Z) == MaxS({MinS({MaxS({a[j] - z[j] : j \in 1..Len(z)}) : a \in SetOf(A)}) : z \in SetOf(Z)})
FrLe(x, y) == x[1] * y[2] <= y[1] * x[2]
MaxFr(S) == CHOOSE x \in S : \A y \in S : FrLe(y, x)
MinFr(S) == CHOOSE x \in S : \A y \in S : FrLe(x, y)
EpsMul(A, Z) == MaxFr({MinFr({MaxFr({<<a[j], z[j]>> : j \in 1..Len(z)}) : a \in SetOf(A)}) : z \in SetOf(Z)})
(* spacing: n^2 times the variance of the distances to the nearest other point (city block) *)
City(a, b) == Sum([j \in 1..Len(a) |-> Abs(a[j] - b[j])])
SpacingN2(A) == LET d == [k \in 1..Len(A) |-> MinS({City(A[k], A[i]) : i \in (1..Len(A)) \ {k}})] IN Len(A) * Sum([k \in 1..Len(A) |-> Sq(d[k])]) - Sq(Sum(d))
Without(A, k) == [i \in 1..(Len(A) - 1) |-> IF i < k THEN A[i] ELSE A[i + 1]]
Front(A) == SelectSeq(A, LAMBDA p : ~\E q \in SetOf(A) : Dom(q, p))
(* exclusive contribution among the non-dominated points; a dominated point has none *)
FrontContribution(A, k, ref) == IF \E q \in SetOf(A) : Dom(q, A[k]) THEN 0 ELSE
  LET N == Front(A) i == CHOOSE i \in 1..Len(N) : N[i] = A[k] IN HV(SetOf(N), ref) - HV(SetOf(Without(N, i)), ref)
Contribution(A, k, ref) == HV(SetOf(A), ref) - HV(SetOf(Without(A, k)), ref)

(* ------------------------------------------------------------------ judging ----- *)
(* val: thousandths of the sum over n points, floors of n roots against one rounding *)
Near(val, sum, n) == val - sum >= -1 /\ val - sum <= n + 1
Value(e) ==
  LET nm(p) == IF e.zto THEN Norm(p, e.ideal, e.nadir, e.L) ELSE Scale(p, e.L)
      (* distances divided by the range, without normalising *)
      dn(p) == IF e.bydist THEN Norm(p, e.ideal, e.nadir, e.L) ELSE nm(p)
      A == MapSeq(e.F, nm)
      Z == MapSeq(e.P, nm)
      Ad == MapSeq(e.F, dn)
      Zd == MapSeq(e.P, dn) IN
  IF e.raised THEN {"raised"} ELSE
  If(e.clean, "input-modified") \cup
  (CASE Len(e.F) = 0 -> If(e.val = 0, "wrong-for-the-empty-set")
     [] e.ind = "hv" -> If(e.val = HV(SetOf(A), IF e.rawref THEN Scale(e.ref, e.L) ELSE nm(e.ref)), "wrong-hypervolume")
     [] e.ind = "gd" -> If(Near(e.val, GDsum(Ad, Zd), Len(A)), "wrong-distance")
     [] e.ind = "igd" -> If(Near(e.val, IGDsum(Ad, Zd), Len(Z)), "wrong-distance")
     [] e.ind = "gd+" -> If(Near(e.val, GDPsum(Ad, Zd), Len(A)), "wrong-distance")
     [] e.ind = "igd+" -> If(Near(e.val, IGDPsum(Ad, Zd), Len(Z)), "wrong-distance")
     [] e.ind = "eps" -> If(e.val = EpsAdd(A, Z), "wrong-epsilon")
     [] e.ind = "eps*" -> LET x == EpsMul(A, Z) IN If(Abs(e.val - (x[1] * 100000) \div x[2]) <= 1, "wrong-epsilon")
     [] e.ind = "spacing" -> If(e.val = SpacingN2(A), "wrong-spacing"))
(* hypervolume with exclusive contributions kept up to date under additions and deletions *)
Apply(A, o) == IF o.op = "add" THEN A \o o.F ELSE Without(A, o.i)
Incremental(A, e) ==
  IF e.raised THEN {"raised"} ELSE
  LET B == Apply(A, e)
      h == HV(SetOf(B), e.ref) IN
  If(e.F2 = B, "wrong-points-held")
  \cup If(Len(e.hvc) = Len(B) /\ \A k \in 1..Len(e.hvc) : e.hvc[k] = FrontContribution(B, k, e.ref), "wrong-contribution")
  \cup If(Abs(e.hv - 100 * h) <= 5 * h, "hypervolume-too-far-off")
(* mean over recorded time steps *)
Mean(e) ==
  IF e.raised THEN {"raised"} ELSE
  LET n == Len(e.sets) s == Sum([k \in 1..n |-> (IGDsum(e.sets[k].F, e.sets[k].P) * e.common) \div Len(e.sets[k].P)]) IN
  If(Abs(e.val - s) <= (n * e.common * 4), "wrong-mean") \cup If(e.times = [k \in 1..n |-> e.sets[k].t], "wrong-times")

(* ---------------------------------------------------- R-metric (unit weights) ---- *)
ArgMin(S, f(_)) == CHOOSE i \in S : \A j \in S : f(i) < f(j) \/ (f(i) = f(j) /\ i <= j)
First(s, I) == [k \in 1..Cardinality(I) |-> s[CHOOSE i \in I : Cardinality({j \in I : j < i}) = k - 1]]
Represent(s, r) == s[ArgMin(1..Len(s), LAMBDA i : MaxS({s[i][j] - r[j] : j \in 1..Len(r)}))]
(* points less than half the width away from the representative, in every objective; h = width *)
Trim(s, z, h) == SelectSeq(s, LAMBDA p : \A j \in 1..Len(z) : 2 * Abs(p[j] - z[j]) < h)
Shift(s, z, r) == LET d == MaxS({z[j] - r[j] : j \in 1..Len(r)}) IN [k \in 1..Len(s) |-> [j \in 1..Len(r) |-> s[k][j] + r[j] + d - z[j]]]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RPop(F, O) == SelectSeq(F, LAMBDA p : ~\E o \in SetOf(O) : Dom(o, p))
RCluster(S, R, i) == First(S, {k \in 1..Len(S) : ArgMin(1..Len(R), LAMBDA q : D2(S[k], R[q])) = i})
RFront(e) == LET S == RPop(e.F, e.others) R == e.refs IN
  Cat([i \in 1..Len(R) |-> LET c == RCluster(S, R, i) IN IF c = <<>> THEN <<>> ELSE LET z == Represent(c, R[i]) IN Shift(Trim(c, z, e.width), z, R[i])])
RTarget(e) == LET R == e.refs IN
  Cat([i \in 1..Len(R) |-> LET z == Represent(e.P, R[i]) IN Trim(e.P, z, e.width)])
RMetric(e) ==
  IF e.raised THEN {"raised"} ELSE
  LET A == RFront(e) Z == RTarget(e)
      nadir == [j \in 1..Len(e.refs[1]) |-> MaxS({e.refs[i][j] + 2 * e.w : i \in 1..Len(e.refs)})] IN
  IF A = <<>> THEN If(e.none, "value-for-nothing") ELSE
  If(~e.none, "no-value")
  \cup (IF e.none THEN {} ELSE If(Abs((e.rigd * Len(Z)) - IGDsum(A, Z)) <= 2 * Len(Z) + 2, "wrong-r-igd") \cup If(e.rhv = HV(SetOf(A), nadir), "wrong-r-hv"))
=============================================================================
