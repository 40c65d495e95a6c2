------------------------------ MODULE HeapTrace ------------------------------
EXTENDS PopHeap, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == Empty0
FailS(tr, s, e) == IF e.k = "op" THEN Breaks(s, e) ELSE {"raised"}
StepS(tr, s, e) == IF e.k = "op" THEN [heap |-> e.heap, pops |-> e.pops] ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
