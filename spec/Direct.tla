------------------------------- MODULE Direct -------------------------------
(* Direct search: simplex moves, pattern moves, interval divisions, bracketing.        *)
(* A value is <<constraint violation, objective>> (ranks); points are scaled integers. *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Better(a, b) == IF a[1] > 0 /\ b[1] > 0 THEN a[1] < b[1] ELSE IF b[1] > 0 THEN TRUE ELSE a[1] = 0 /\ a[2] < b[2]
(* the objective of an infeasible point does not matter *)
Norm(v) == IF v[1] > 0 THEN <<v[1], 0>> ELSE v
NormAll(vs) == [i \in 1..Len(vs) |-> Norm(vs[i])]
Sorted(vs) == \A i \in 1..(Len(vs) - 1) : ~Better(vs[i + 1], vs[i])
RECURSIVE Insert(_, _)
Insert(v, vs) == IF vs = <<>> THEN <<v>> ELSE IF Better(v, Head(vs)) THEN <<v>> \o vs ELSE <<Head(vs)>> \o Insert(v, Tail(vs))
RECURSIVE Sort(_)
Sort(vs) == IF vs = <<>> THEN <<>> ELSE Insert(Head(vs), Sort(Tail(vs)))
BestOf(vs) == Sort(vs)[1]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE SumCol(_, _, _)
SumCol(P, n, j) == IF n = 0 THEN 0 ELSE P[n][j] + SumCol(P, n - 1, j)

(* ------------------------------- simplex method ------------------------------- *)
(* what follows a reflection of value r; vs: values of the sorted simplex (n + 1)  *)
AfterReflect(vs, r) == LET n == Len(vs) - 1 IN
  IF Better(r, vs[1]) THEN "expand" ELSE IF Better(r, vs[n]) THEN "take" ELSE IF Better(r, vs[n + 1]) THEN "outside" ELSE "inside"
(* the move is finished by: "r" the reflected, "x" the new point, "shrink" *)
AfterMove(ph, vs, r, x) == CASE ph = "expand" -> IF Better(x, r) THEN "x" ELSE "r"
                              [] ph = "outside" -> IF Better(x, r) THEN "x" ELSE "shrink"
                              [] ph = "inside" -> IF Better(x, vs[Len(vs)]) THEN "x" ELSE "shrink"
Asked(ph, n) == CASE ph = "simplex" -> n + 1 [] ph = "shrink" -> n [] OTHER -> 1
(* positions. P: the simplex, sorted; S: sum of the first n; all with the tolerance t   *)
Within(x, lo, hi) == \A j \in 1..Len(x) : lo[j] - 1 <= x[j] /\ x[j] <= hi[j] + 1
Tol == 6
(* x = c + (num/den) * (y - c), with c = S / n *)
On(x, S, n, y, num, den) == \A j \in 1..Len(x) : Abs(den * n * x[j] - (den * S[j] + num * (n * y[j] - S[j]))) <= Tol * den * n + Tol * Abs(num) * n
FullAt(S, n, y, num, den, j) == (den * S[j] + num * (n * y[j] - S[j]))          \* times den * n
(* cut at the bounds: the largest step which stays inside *)
Leaves(S, n, y, num, den, lo, hi, slack) == \E j \in 1..Len(y) : \/ FullAt(S, n, y, num, den, j) > den * n * (hi[j] + slack)
                                                                  \/ FullAt(S, n, y, num, den, j) < den * n * (lo[j] - slack)
Collinear(x, S, n, y) == \A j, k \in 1..Len(x) :
  LET A(i) == n * x[i] - S[i]
      B(i) == n * y[i] - S[i] IN Abs(A(j) * B(k) - A(k) * B(j)) <= Tol * n * (Abs(A(j)) + Abs(A(k)) + Abs(B(j)) + Abs(B(k)) + Tol * n)
AtBound(x, S, n, y, lo, hi) == \E j \in 1..Len(x) : (Abs(x[j] - lo[j]) <= Tol /\ n * y[j] <= S[j] + Tol * n) \/ (Abs(x[j] - hi[j]) <= Tol /\ n * y[j] >= S[j] - Tol * n)
SameWay(x, S, n, y) == \A j \in 1..Len(x) : LET A == n * x[j] - S[j]
                                               B == n * y[j] - S[j] IN Abs(A) <= Tol * n \/ Abs(B) <= Tol * n \/ (A > 0) = (B > 0)
(* y: where a step of length one leads to *)
Step1(x, S, n, y, num, den, lo, hi, nm) ==
  If(~Within(x, lo, hi), "inside the bounds")
  \cup (IF Leaves(S, n, y, num, den, lo, hi, Tol)
        THEN If(~(Collinear(x, S, n, y) /\ SameWay(x, S, n, y) /\ AtBound(x, S, n, y, lo, hi)), nm)
        ELSE IF Leaves(S, n, y, num, den, lo, hi, -Tol)
        THEN If(~(On(x, S, n, y, num, den) \/ (Collinear(x, S, n, y) /\ AtBound(x, S, n, y, lo, hi))), nm)
        ELSE If(~On(x, S, n, y, num, den), nm))
NMFails(cfg, s, e) ==
  LET n == cfg.n
      S == [j \in 1..n |-> SumCol(e.P, n, j)]
      mir == [j \in 1..n |-> (2 * S[j] - n * e.P[n + 1][j])]            \* the mirrored point, times n
      P1 == e.P[1] IN
  If(Len(e.X) # Asked(s.ph, n) /\ s.ph # "start", "number of points")
  \cup (IF Len(e.X) # Asked(s.ph, n) THEN {} ELSE
  CASE s.ph = "start" -> {}
    [] s.ph = "simplex" ->
       If(Norm(e.vals[1]) # Norm(BestOf(s.vs)) \/ ~(e.old[1]), "the simplex starts at the best point")
       \cup If(\E i \in 1..n : \E j \in 1..n : (i # j /\ Abs(e.X[i + 1][j] - e.X[1][j]) > 1), "one edge per axis")
       \cup If(\E i \in 1..n : Abs(e.X[i + 1][i] - e.X[1][i] - (IF e.X[1][i] + e.D[i] < e.hi[i] - 1 THEN e.D[i] ELSE IF e.X[1][i] + e.D[i] > e.hi[i] + 1 THEN -e.D[i] ELSE e.X[i + 1][i] - e.X[1][i])) > 2, "length of the edges")
    [] s.ph = "reflect" ->
       If(~Within(e.X[1], e.lo, e.hi), "inside the bounds")
       \cup (LET y == [j \in 1..n |-> 2 * S[j] - n * e.P[n + 1][j]]
                 (* with the mirror image as integers, times n: use a simplex scaled by n *)
                 nS == [j \in 1..n |-> n * S[j]]
                 nx == [j \in 1..n |-> n * e.X[1][j]]
                 nlo == [j \in 1..n |-> n * e.lo[j]]
                 nhi == [j \in 1..n |-> n * e.hi[j]] IN
             Step1(nx, nS, n, y, 1, 1, nlo, nhi, "reflection through the centroid"))
    [] s.ph = "expand" -> Step1(e.X[1], S, n, e.R, cfg.be[1], cfg.be[2], e.lo, e.hi, "expansion")
    [] s.ph = "outside" -> If(~On(e.X[1], S, n, e.R, cfg.ga[1], cfg.ga[2]), "outside contraction")
    [] s.ph = "inside" -> If(~On(e.X[1], S, n, e.R, -cfg.ga[1], cfg.ga[2]), "inside contraction")
    [] s.ph = "shrink" -> If(\E i \in 1..n : \E j \in 1..n : Abs(cfg.de[2] * (e.X[i][j] - P1[j]) - cfg.de[1] * (e.P[i + 1][j] - P1[j])) > Tol * (cfg.de[1] + cfg.de[2]), "shrinks towards the best"))
(* the state after the values are known: phase, sorted values, reflected value *)
NMNext(s, vals) ==
  LET n == Len(s.vs) - 1
      back(vs) == [ph |-> "reflect", vs |-> Sort(vs), r |-> <<0, 0>>, done |-> TRUE]
      swap(v) == back([s.vs EXCEPT ![n + 1] = v]) IN
  CASE s.ph = "start" -> [ph |-> "simplex", vs |-> Sort(vals), r |-> <<0, 0>>, done |-> TRUE]
    [] s.ph = "simplex" -> back(vals)
    [] s.ph = "reflect" -> (LET nx == AfterReflect(s.vs, vals[1]) IN IF nx = "take" THEN swap(vals[1]) ELSE [s EXCEPT !.ph = nx, !.r = vals[1], !.done = FALSE])
    [] s.ph = "shrink" -> back(<<s.vs[1]>> \o vals)
    [] OTHER -> (LET nx == AfterMove(s.ph, s.vs, s.r, vals[1]) IN
                 IF nx = "shrink" THEN [s EXCEPT !.ph = "shrink", !.done = FALSE] ELSE swap(IF nx = "x" THEN vals[1] ELSE s.r))
NMEv(cfg, s, e) == IF e.raised THEN {"raised"} ELSE
  LET f == NMFails(cfg, s, e) IN
  IF "number of points" \in f THEN f ELSE
  LET t == NMNext(s, e.vals) IN
  f \cup If(e.done # t.done, "moves follow the comparison rule")
    \cup If(e.done /\ t.done /\ s.ph # "start" /\ (Len(e.pop) # cfg.n + 1 \/ NormAll(Sort(e.pop)) # NormAll(t.vs)), "only the worst vertex is replaced")
    \cup If(e.done /\ s.ph # "start" /\ ~Sorted(e.pop), "vertices sorted from best to worst")
NMStep(s, e) == NMNext(s, e.vals)

(* -------------------------------- pattern search -------------------------------- *)
(* cfg: n, lo, hi, D (first step lengths), q (contraction 1/q), p (pattern step p[1]/p[2]), tol *)
Clip(x, lo, hi) == Mx(lo, Mn(hi, x))
Near(cfg, a, b) == \A j \in 1..Len(a) : Abs(a[j] - b[j]) <= cfg.tol
AlongAxis(cfg, s, k, sg) == [s.b.x EXCEPT ![k] = Clip(@ + sg * s.sign[k] * (cfg.D[k] \div Pow(cfg.q, s.nf)), cfg.lo[k], cfg.hi[k])]
PatternPt(cfg, s) == [j \in 1..cfg.n |-> Clip(s.e.x[j] + (cfg.p[1] * (s.e.x[j] - s.c.x[j])) \div cfg.p[2], cfg.lo[j], cfg.hi[j])]
Sgn(x) == IF x > 0 THEN 1 ELSE -1
Open1 == {[done |-> {}, ax |-> 0]}
PSInit(n) == [ph |-> "start", c |-> [x |-> <<>>, v |-> <<0, 0>>], e |-> [x |-> <<>>, v |-> <<0, 0>>], b |-> [x |-> <<>>, v |-> <<0, 0>>], sign |-> [j \in 1..n |-> 1], nf |-> 0, alts |-> {}]
(* what precedes the next point: a new generation starts by a pattern move or by an exploration *)
Prepared(s) ==
  IF s.ph = "begin" THEN
    (IF Better(s.e.v, s.c.v) THEN [s EXCEPT !.ph = "trial", !.sign = [j \in 1..Len(s.sign) |-> Sgn(s.e.x[j] - s.c.x[j])]]
     ELSE [s EXCEPT !.ph = "explore", !.nf = @ + 1, !.b = s.c, !.alts = Open1])
  ELSE s
(* the alternatives (which axis) the point is consistent with *)
Fits(cfg, s, x) ==
  {a \in [done : SUBSET (1..cfg.n), ax : 0..cfg.n] :
     \/ (\E a0 \in s.alts : a0.ax = 0 /\ a.ax \notin ({0} \cup a0.done) /\ a.done = a0.done \cup {a.ax} /\ Near(cfg, x, AlongAxis(cfg, s, a.ax, 1)))
     \/ (\E a0 \in s.alts : a0.ax # 0 /\ a = [a0 EXCEPT !.ax = 0] /\ Near(cfg, x, AlongAxis(cfg, s, a0.ax, -1)))}
PSFails(cfg, s0, e) ==
  LET s == Prepared(s0) IN
  CASE s.ph = "start" -> {}
    [] s.ph = "trial" -> If(~Near(cfg, e.x, PatternPt(cfg, s)), "pattern move from the last two accepted points")
    [] s.ph = "explore" -> If(Fits(cfg, s, e.x) = {}, "exploration along each axis by the current step")
PSNext(cfg, s0, x, v) ==
  LET s == Prepared(s0)
      pt == [x |-> x, v |-> v] IN
  CASE s.ph = "start" -> [s EXCEPT !.ph = "begin", !.c = pt, !.e = pt]
    [] s.ph = "trial" -> [s EXCEPT !.ph = "explore", !.c = s.e, !.b = pt, !.alts = Open1]
    [] s.ph = "explore" ->
       (LET fit == Fits(cfg, s, x)
            first == \E a \in s.alts : a.ax = 0
            alts == IF Better(v, s.b.v) \/ ~first THEN {[a EXCEPT !.ax = 0] : a \in fit} ELSE fit
            b == IF Better(v, s.b.v) THEN pt ELSE s.b
            over == \E a \in alts : a.ax = 0 /\ a.done = 1..cfg.n IN
        IF over THEN [s EXCEPT !.ph = "begin", !.e = b, !.b = b, !.alts = {}] ELSE [s EXCEPT !.b = b, !.alts = alts])
PSEv(cfg, s, e) == IF e.raised THEN {"raised"} ELSE
  LET f == PSFails(cfg, s, e)
      t == PSNext(cfg, s, e.x, e.v) IN
  f \cup (IF f # {} THEN {} ELSE If(e.done # (t.ph = "begin"), "every axis explored exactly once")
    \cup If(e.done /\ t.ph = "begin" /\ s.ph # "start" /\ (e.pop[1] # t.c.v \/ e.pop[2] # t.e.v), "centre and explored point are kept")
    \cup If(\E j \in 1..cfg.n : e.x[j] < cfg.lo[j] - cfg.tol \/ e.x[j] > cfg.hi[j] + cfg.tol, "inside the bounds"))

(* ------------------------------ interval divisions ------------------------------ *)
(* a cell: [id, lo, hi, x, v]; widths relative to the box: all boxes are cubes here *)
Width(c, j) == c.hi[j] - c.lo[j]
RECURSIVE WidthSum(_, _)
WidthSum(c, j) == IF j = 0 THEN 0 ELSE Width(c, j) + WidthSum(c, j - 1)
Size(c) == WidthSum(c, Len(c.lo))
(* objective: normalised by the population plus a tenth of the violation (exact) *)
Obj(cells, c) == LET fs == {cells[i].v[2] : i \in 1..Len(cells)}
                     r == MaxOf(fs) - MinOf(fs) IN
                 IF r = 0 THEN c.v[1] ELSE 10 * (c.v[2] - MinOf(fs)) + c.v[1] * r
Beats(cells, a, b) == Size(a) >= Size(b) /\ Obj(cells, a) <= Obj(cells, b) /\ (Size(a) > Size(b) \/ Obj(cells, a) < Obj(cells, b))
Candidates(cells) == {c \in SetOf(cells) : ~\E d \in SetOf(cells) : Beats(cells, d, c)}
RECURSIVE Layers(_, _)
LayerOf(cells, S, c) == CHOOSE k \in 1..Cardinality(S) : c \in Layers(cells, S)[k]
Layers(cells, S) == IF S = {} THEN <<>> ELSE LET nd == {c \in S : ~\E d \in S : Beats(cells, d, c)} IN <<nd>> \o Layers(cells, S \ nd)
Longest(c) == {j \in 1..Len(c.lo) : \A k \in 1..Len(c.lo) : Width(c, j) >= Width(c, k)}
Thirds(c, j) == LET w == Width(c, j) \div 3 IN
  [left |-> [lo |-> c.lo, hi |-> [c.hi EXCEPT ![j] = c.lo[j] + w]],
   mid |-> [lo |-> [c.lo EXCEPT ![j] = @ + w], hi |-> [c.hi EXCEPT ![j] = @ - w]],
   right |-> [lo |-> [c.lo EXCEPT ![j] = c.hi[j] - w], hi |-> c.hi]]
Box(c) == [lo |-> c.lo, hi |-> c.hi]
IsCentre(c) == \A j \in 1..Len(c.lo) : 2 * c.x[j] = c.lo[j] + c.hi[j]
(* e.before / e.after: the cells before and after the request, e.offs: the new ones *)
DivEv(cfg, e) == IF e.raised THEN {"raised"} ELSE
  LET B == SetOf(e.before)
      ids == {c.id : c \in SetOf(e.after)}
      was(i) == CHOOSE c \in B : c.id = i
      isn(i) == CHOOSE c \in SetOf(e.after) : c.id = i
      divided == {i \in ids : Box(isn(i)) # Box(was(i))}
      cand == {c.id : c \in Candidates(e.before)}
      cut == Len(e.before) > cfg.max
      fits(i) == \E j \in Longest(was(i)) : LET t == Thirds(was(i), j) IN
                    /\ Box(isn(i)) = t.mid
                    /\ \E o1 \in SetOf(e.offs) : Box(o1) = t.left
                    /\ \E o2 \in SetOf(e.offs) : Box(o2) = t.right IN
  If(\E o \in SetOf(e.offs) \cup SetOf(e.after) : ~IsCentre(o), "every point is the centre of its cell")
  \cup If(\E i \in divided : ~fits(i), "cells are divided into exact thirds along a longest side")
  \cup If(Len(e.offs) # 2 * Cardinality(divided), "two new points per divided cell")
  \cup If(~cut /\ ids # {c.id : c \in B}, "no cell is lost")
  \cup (IF ~cut THEN {} ELSE
        LET L == Layers(e.before, B)
            lay(i) == CHOOSE k \in 1..Len(L) : \E c \in L[k] : c.id = i IN
        If(Cardinality(ids) # cfg.keep \/ ~(ids \subseteq {c.id : c \in B}), "size of the truncated archive")
        \cup If(\E i \in {c.id : c \in B} \ ids : \E k \in ids : lay(i) < lay(k), "the best cells are kept"))
  \cup If(~(divided \subseteq cand), "only potentially optimal cells are divided")
  \cup (IF cut THEN {} ELSE If(Cardinality(cand) <= cfg.ncand /\ divided # cand, "every potentially optimal cell is divided")
        \cup If(Cardinality(cand) > cfg.ncand /\ Cardinality(divided) # cfg.ncand, "number of divided cells"))

(* ---------------------------------- bracketing ---------------------------------- *)
(* positions in millionths of the interval before the step, values are ranks *)
GoldenEv(e) == IF e.raised THEN {"raised"} ELSE
  LET left == e.v[2] < e.v[3]
      R == 618034
      want == IF left THEN <<e.ids[1], 0, e.ids[2], e.ids[3]>> ELSE <<e.ids[2], e.ids[3], 0, e.ids[4]>>
      pos == IF left THEN <<e.x[1], e.x[3] - (R * ((e.x[3] - e.x[1]) \div 1000)) \div 1000, e.x[2], e.x[3]>>
             ELSE <<e.x[2], e.x[3], e.x[2] + (R * ((e.x[4] - e.x[2]) \div 1000)) \div 1000, e.x[4]>> IN
  If(\E i \in 1..4 : want[i] # 0 /\ e.nids[i] # want[i], "the bracket keeps the better side")
  \cup If(\E i \in 1..4 : Abs(e.nx[i] - pos[i]) > 1500, "golden section of the bracket")
  \cup If(~(e.nx[1] <= e.nx[2] /\ e.nx[2] <= e.nx[3] /\ e.nx[3] <= e.nx[4]), "bracket ordered")
  \cup If(e.nx[1] < e.x[1] \/ e.nx[4] > e.x[4] \/ e.nx[4] - e.nx[1] > 620000, "bracket shrinks")
(* a, b, c of the bracket; the new ones, d: the point evaluated in this step *)
QuadEv(e) == IF e.raised THEN {"raised"} ELSE
  LET a == e.ids[1]
      b == e.ids[2]
      c == e.ids[3]
      d == e.d
      shaped == e.v[3] < e.v[1] /\ e.v[3] < e.v[2]
      half(p, q) == (p + q) \div 2
      lo == IF e.v[1] <= e.v[2] THEN <<e.x[1], e.x[3]>> ELSE <<e.x[3], e.x[2]>> IN
  IF ~shaped THEN
    If(e.nids # (IF e.v[1] <= e.v[2] THEN <<a, c, d>> ELSE <<c, b, d>>), "the side of the better end is kept")
    \cup If(Abs(e.dx - half(lo[1], lo[2])) > 2, "the middle of the bracket")
  ELSE
    If(e.dx < e.x[1] - 2 \/ e.dx > e.x[2] + 2, "inside the bracket")
    \cup If(e.known /\ Abs(e.dx - e.vertex) > 2000, "vertex of the parabola")
    \cup (LET cl == IF e.x[3] > e.dx THEN d ELSE c
              dr == IF e.x[3] > e.dx THEN c ELSE d
              fl == IF e.x[3] > e.dx THEN e.fd ELSE e.v[3]
              fr == IF e.x[3] > e.dx THEN e.v[3] ELSE e.fd IN
          If(~e.tie /\ e.nids # (IF fl <= fr THEN <<a, dr, cl>> ELSE <<cl, b, dr>>), "the best point stays inside"))
(* a line through a box; the objective is the sum of i * x_i *)
RECURSIVE LineVal(_, _, _)
LineVal(e, a, j) == IF j = 0 THEN 0 ELSE LET x == e.p[j] + a * e.d[j] IN
  j * (IF e.strict THEN Clip(x, e.lo, e.hi) ELSE x) + LineVal(e, a, j - 1)
LineEv(e) == If(\E i \in 1..Len(e.a) : e.v[i] # LineVal(e, e.a[i], Len(e.p)), "values along the line")
             \cup If(e.n # 1 \/ e.inner # Len(e.p), "one variable")
(* doubling steps until it gets worse *)
ExpoEv(cfg, s, e) ==
  LET want == Mn(s.alpha, cfg.hi) IN
  If(Abs(e.x - want) > cfg.tol, "doubling steps") \cup If(e.over # ((s.f < e.f) \/ Abs(e.x - cfg.hi) <= cfg.tol), "stops when it gets worse or at the bound")
ExpoStep(s, e) == [alpha |-> 2 * e.x, f |-> e.f]
=============================================================================
