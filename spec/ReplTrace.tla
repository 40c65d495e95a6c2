------------------------------ MODULE ReplTrace ------------------------------
EXTENDS Replace, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == Fresh
Sets(e) == IF e.k \in {"repl", "torepl"} THEN [e EXCEPT !.R = Range(@)]
           ELSE IF e.k = "local" THEN [e EXCEPT !.nb = [i \in 1..Len(@) |-> Range(@[i])]] ELSE e
FailS(tr, s, e) == Breaks(s, Sets(e))
StepS(tr, s, e) == Upd(s, Sets(e))
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
