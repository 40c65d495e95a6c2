------------------------------ MODULE SortTrace ------------------------------
(* Results of the sorting / dominance code against module Dominance.             *)
(* Events:                                                                       *)
(*  [op: "sort", F, n, fronts (1-based), ranks, stop]   all fronts of one method *)
(*  [op: "first", F, idx]                   non-dominated-only modes             *)
(*  [op: "rel", F, V, M]                    matrix of pairwise relation codes    *)
EXTENDS Dominance, TLC, Json, IOUtils
VARIABLES t, l, st

Sets(fr) == [k \in 1..Len(fr) |-> RangeOf(fr[k])]

SortBad(e) ==
  LET n == Len(e.F) IN
  IF \E k \in 1..Len(e.fronts) : \E j \in 1..Len(e.fronts[k]) : e.fronts[k][j] \notin 1..n
  THEN {"index-out-of-range"}
  ELSE IF \E k \in 1..Len(e.fronts) : ~ NoDup(e.fronts[k]) THEN {"index-twice-in-front"}
  ELSE LET got == Sets(e.fronts)
           want == IF e.stop > 0 THEN LayersUntil(e.F, 1..n, e.stop)
                   ELSE IF e.nf > 0 THEN SubSeq(Layers(e.F, 1..n), 1, IF e.nf < Len(Layers(e.F, 1..n)) THEN e.nf ELSE Len(Layers(e.F, 1..n)))
                   ELSE Layers(e.F, 1..n)
       IN (IF got = want THEN {} ELSE {"fronts-are-not-the-dominance-layers"})
          \cup (IF e.ranks = <<>> THEN {}
                ELSE IF Len(e.ranks) # n THEN {"rank-length"}
                ELSE IF \E k \in 1..Len(want) : \E i \in want[k] : e.ranks[i] # k - 1 THEN {"rank-is-not-front-index"} ELSE {})

FirstBad(e) ==
  LET n == Len(e.F) IN
  IF \E j \in 1..Len(e.idx) : e.idx[j] \notin 1..n THEN {"index-out-of-range"}
  ELSE IF ~ NoDup(e.idx) THEN {"index-twice-in-front"}
  ELSE IF RangeOf(e.idx) # NonDom(e.F, 1..n) THEN {"not-the-non-dominated-set"} ELSE {}

RelBad(e) ==
  IF Len(e.M) # Len(e.F) \/ \E i \in 1..Len(e.M) : Len(e.M[i]) # Len(e.R) THEN {"relation-shape"}
  ELSE IF \E i \in 1..Len(e.F) : \E j \in 1..Len(e.R) :
             e.M[i][j] # (IF e.V = <<>> THEN EpsRel(e.F[i], e.R[j], e.eps) ELSE CRel(e.F[i], e.R[j], e.V[i], e.V[j]))
       THEN {"relation-wrong"} ELSE {}

AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == 0
StepS(tr, s, e) == 0
FailS(tr, s, e) ==
  IF e.op = "sort" THEN SortBad(e)
  ELSE IF e.op = "first" THEN FirstBad(e)
  ELSE IF e.op = "rel" THEN RelBad(e)
  ELSE {"raised"}

INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
