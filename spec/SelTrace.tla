------------------------------ MODULE SelTrace ------------------------------
EXTENDS Selection, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == 0
Set(s) == {s[k] : k \in 1..Len(s)}
FailS(tr, s, e) ==
  CASE e.k = "contests" -> IF e.reject /\ e.raised THEN {} ELSE Contests(e)
    [] e.k = "restricted" -> Contests(e) \cup (IF e.raised THEN {} ELSE Restricted(e))
    [] e.k = "de" -> DE(e)
    [] e.k = "fill" -> Fill([e EXCEPT !.cols = Set(e.cols)])
    [] e.k = "neighbourhood" -> Neighbourhood(e)
    [] e.k = "elite" -> Elite(e)
    [] e.k = "random" -> Random(e)
    [] e.k = "pair" -> Repeated(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) == s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
