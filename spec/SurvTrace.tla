------------------------------ MODULE SurvTrace -----------------------------
(* Recorded survival calls ("surv"), clearing ("clear") and generations of whole  *)
(* runs ("pairs": pairwise competition first).                                  *)
EXTENDS Survival, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [z |-> 0]
StepS(tr, s, e) == s
(* order of quality: violation, objective, position *)
QLess(P, i, j) == P[i].cv < P[j].cv \/ (P[i].cv = P[j].cv /\ (P[i].f[1] < P[j].f[1] \/ (P[i].f[1] = P[j].f[1] /\ i < j)))
RECURSIVE QSort(_, _)
QSort(P, S) == IF S = {} THEN <<>> ELSE LET b == CHOOSE i \in S : \A j \in S \ {i} : QLess(P, i, j) IN <<b>> \o QSort(P, S \ {b})
ClearBreaks(e) ==
  LET N == Len(e.P)
      o == QSort(e.P, 1..N)
      d2(i, j) == SumOver([k \in DOMAIN e.X[1] |-> (e.X[o[i]][k] - e.X[o[j]][k]) * (e.X[o[i]][k] - e.X[o[j]][k])], DOMAIN e.X[1])
      close == [i \in 1..N |-> [j \in 1..N |-> 4 * d2(i, j) < e.eps4]]
      sel == Clear(N, close, IF e.n < N THEN e.n ELSE N, <<>>, {}, 1) IN
  If([x \in 1..Len(sel) |-> o[sel[x][1]]] = e.R, "clearing-order-wrong")
  \cup If(Len(e.R) # Len(sel) \/ [x \in 1..Len(sel) |-> sel[x][2]] = e.iter, "clearing-round-wrong")
CRelM(a, b) == CRel(a.f, b.f, a.cv, b.cv)
FailS(tr, s, e) ==
  CASE e.k = "surv" -> SurvivalBreaks(e.kind, e.P, e.n, e.R, e.dens, e.refpt) \cup If(e.same, "survivor-values-changed")
    [] e.k = "clear" -> ClearBreaks(e)
    [] e.k = "pairs" ->
       LET m == Len(e.P) \div 2
           beaten == {i \in 1..m : CRelM(e.P[i], e.P[m + i]) = -1} \cup {m + i : i \in {j \in 1..m : CRelM(e.P[j], e.P[m + j]) = 1}}
           cand == SelectSeq([i \in 1..2 * m |-> IF i % 2 = 1 THEN (i + 1) \div 2 ELSE m + (i \div 2)], LAMBDA i : i \notin beaten)
           pos(i) == IF \E x \in 1..Len(cand) : cand[x] = i THEN CHOOSE x \in 1..Len(cand) : cand[x] = i ELSE 0 IN
       SurvivalBreaks(e.kind, [x \in 1..Len(cand) |-> e.P[cand[x]]], e.n, [x \in 1..Len(e.R) |-> pos(e.R[x])], <<>>, <<>>)
    [] OTHER -> {"raised"}
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
