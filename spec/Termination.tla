----------------------------- MODULE Termination -----------------------------
(* Stopping criteria. A criterion is a tree of records                          *)
(*   [k |-> "none"], [k |-> "gen", n], [k |-> "evals", n], [k |-> "time", n]     *)
(*   (n = 0: no limit), [k |-> "fmin", v], [k |-> "feasible"],                   *)
(*   [k |-> "ind", min |-> minimise?, thr],                                     *)
(*   [k |-> "delta", src |-> "f"|"cv"|"x"|"mo", tol |-> <<a, b>>, skip, w,       *)
(*    opt |-> switch of the criterion (only feasible / stop when feasible)],     *)
(*   [k |-> "robust", kids |-> <<c>>, period], [k |-> "any"|"all", kids |-> seq] *)
(* and its state [p |-> progress <<num, den>>, forced, has, data, ctr, win,      *)
(* lo, hi, kids]. Upd(c, s, o) is the state after one look at the run in         *)
(* observation o = [gen, evals, now, ind, constr, m |-> members of the reported  *)
(* optimum as records [f, cv, x]].                                              *)
EXTENDS Integers, Sequences, FiniteSets
INF == 1000000
Zero == <<0, 1>>
One == <<1, 1>>
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
MinR(S) == CHOOSE a \in S : \A b \in S : Leq(a, b)
MaxR(S) == CHOOSE a \in S : \A b \in S : Leq(b, a)
Range(q) == {q[i] : i \in 1..Len(q)}
Clamp(a) == IF Leq(One, a) THEN One ELSE IF Leq(a, Zero) THEN Zero ELSE a
MinS(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxS(S) == CHOOSE a \in S : \A b \in S : a >= b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Feas(o) == SelectSeq(o.m, LAMBDA i : i.cv <= 0)
AnyFeas(o) == Len(Feas(o)) > 0
MinCV(o) == MinS({i.cv : i \in Range(o.m)})

RECURSIVE Fresh(_)
Fresh(c) == [p |-> Zero, forced |-> FALSE, has |-> FALSE, data |-> <<>>, ctr |-> 0, win |-> <<>>, lo |-> INF, hi |-> -INF,
             kids |-> IF c.k \in {"robust", "any", "all"} THEN [i \in 1..Len(c.kids) |-> Fresh(c.kids[i])] ELSE <<>>]

(* what a change-based criterion remembers of a generation *)
Data(c, o) ==
  CASE c.src = "f" -> LET S == IF c.opt THEN Feas(o) ELSE o.m IN
                      <<IF Len(S) = 0 THEN INF ELSE MinS({i.f : i \in Range(S)})>>
    [] c.src = "cv" -> <<MinCV(o)>>
    [] c.src = "x" -> [i \in 1..Len(o.m) |-> o.m[i].x]
    [] c.src = "mo" -> LET S == IF c.opt THEN Feas(o) ELSE o.m IN [i \in 1..Len(S) |-> S[i].f]

(* mean distance from the new points to the nearest old point *)
MeanMin(new, old) == <<Sum([i \in 1..Len(new) |-> MinS({Abs(new[i] - old[j]) : j \in 1..Len(old)})]), Len(new)>>
Infinite == <<1, 0>>
Delta(c, prev, cur) ==
  CASE c.src = "f" -> IF prev[1] = INF \/ cur[1] = INF THEN Infinite ELSE <<MaxS({0, prev[1] - cur[1]}), 1>>
    [] c.src = "cv" -> <<MaxS({0, prev[1] - cur[1]}), 1>>
    [] c.src = "x" -> LET d == MeanMin(cur, prev) IN <<d[1], d[2] * c.w>>
    [] c.src = "mo" ->
         IF Len(prev) = 0 \/ Len(cur) = 0 THEN Infinite
         ELSE LET r == MaxS(Range(cur)) - MinS(Range(cur))
                  w == IF r = 0 THEN 1 ELSE r
                  d == MeanMin(cur, prev)
              IN MaxR({<<Abs(MinS(Range(cur)) - MinS(Range(prev))), w>>, <<Abs(MaxS(Range(cur)) - MaxS(Range(prev))), w>>, <<d[1], d[2] * w>>})
Within(d, tol) == d # Infinite /\ Leq(d, tol)
(* progress of a change that is too large: 1/(1+excess) *)
Excess(d, tol) == IF d = Infinite THEN Zero
                  ELSE <<d[2] * tol[2], d[2] * tol[2] + d[1] * tol[2] - tol[1] * d[2]>>

(* a change below tolerance keeps the anchor it was measured against *)
UpdDelta(c, s, o) ==
  LET cur == Data(c, o)
      moved == [s EXCEPT !.has = TRUE, !.data = cur, !.ctr = s.ctr + 1]
  IN IF ~s.has THEN [moved EXCEPT !.p = Zero]
     ELSE IF s.ctr > 0 /\ s.ctr % (c.skip + 1) # 0 THEN moved
     ELSE IF Within(Delta(c, s.data, cur), c.tol) THEN [s EXCEPT !.p = One]
     ELSE [moved EXCEPT !.p = Excess(Delta(c, s.data, cur), c.tol)]

Ratio(a, n) == IF n = 0 THEN Zero ELSE Clamp(<<a, n>>)
RECURSIVE Upd(_, _, _)
Upd(c, s, o) ==
  IF s.forced THEN [s EXCEPT !.p = One]
  ELSE CASE c.k = "none" -> [s EXCEPT !.p = Zero]
    [] c.k = "gen" -> [s EXCEPT !.p = Ratio(o.gen, c.n)]
    [] c.k = "evals" -> [s EXCEPT !.p = Ratio(o.evals, c.n)]
    [] c.k = "time" -> [s EXCEPT !.p = Ratio(o.now, c.n)]
    [] c.k = "fmin" ->
         [s EXCEPT !.p = IF ~AnyFeas(o) THEN Zero
                         ELSE LET f == MinS({i.f : i \in Range(Feas(o))}) IN
                              IF f <= c.v THEN One ELSE IF c.v > 0 THEN <<c.v, f>> ELSE Zero]
    [] c.k = "feasible" ->
         LET cv == MinCV(o)
             s0 == IF s.has THEN s ELSE [s EXCEPT !.has = TRUE, !.data = <<cv>>]
         IN [s0 EXCEPT !.p = IF cv <= 0 THEN One ELSE IF s0.data[1] <= 0 THEN Zero ELSE Clamp(<<s0.data[1] - cv, s0.data[1]>>)]
    [] c.k = "ind" ->
         LET hi == MaxS({s.hi, o.ind})  lo == MinS({s.lo, o.ind}) IN
         [s EXCEPT !.hi = hi, !.lo = lo,
                   !.p = IF c.min THEN (IF o.ind <= c.thr THEN One ELSE <<hi - o.ind, hi - c.thr>>)
                         ELSE (IF o.ind >= c.thr THEN One ELSE <<o.ind - lo, c.thr - lo>>)]
    [] c.k = "delta" /\ c.src = "cv" ->
         IF ~o.constr THEN [s EXCEPT !.p = Zero]
         ELSE IF AnyFeas(o) THEN [s EXCEPT !.p = IF c.opt THEN One ELSE Zero]
         ELSE UpdDelta(c, s, o)
    [] c.k = "delta" -> UpdDelta(c, s, o)
    [] c.k = "robust" ->
         LET k == Upd(c.kids[1], s.kids[1], o)
             w == Append(s.win, k.p)
             w2 == IF Len(w) > c.period THEN Tail(w) ELSE w
         IN [s EXCEPT !.kids = <<k>>, !.win = w2, !.p = MinR(Range(w2))]
    [] c.k \in {"any", "all"} ->
         LET ks == [i \in 1..Len(c.kids) |-> Upd(c.kids[i], s.kids[i], o)]
             P == {ks[i].p : i \in 1..Len(ks)}
         IN [s EXCEPT !.kids = ks, !.p = IF c.k = "any" THEN MaxR(P) ELSE MinR(P)]

(* forcing the criterion itself (i = 0) or one of its parts *)
Force(s, i) == IF i = 0 THEN [s EXCEPT !.forced = TRUE] ELSE [s EXCEPT !.kids[i].forced = TRUE]
Stopped(s) == Leq(One, s.p)
=============================================================================
