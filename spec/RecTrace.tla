------------------------------ MODULE RecTrace ------------------------------
EXTENDS Recomb, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == 0
FailS(tr, s, e) ==
  IF e.raised THEN {"raised"} ELSE
  (IF "parents" \in DOMAIN e THEN If(e.parents, "parents-changed") ELSE {}) \cup
  (* with a probability between zero and one: either it was applied, or it was not *)
  (IF "half" \in DOMAIN e /\ e.half /\ Copies(e) = {} THEN {} ELSE
   CASE e.k = "exchange" -> Exchange(e)
     [] e.k = "cover" -> Cover(e)
     [] e.k = "ox" -> OX(e)
     [] e.k = "oxcover" -> OXCover(e)
     [] e.k = "erx" -> ERX(e)
     [] e.k = "copies" -> Copies(e)
     [] e.k = "arith" -> Arith(e)
     [] e.k = "mutation" -> Mutation(e)
     [] e.k = "rate" -> Rate(e)
     [] OTHER -> {e.k})
StepS(tr, s, e) == s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
