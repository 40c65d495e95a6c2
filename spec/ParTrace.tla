------------------------------ MODULE ParTrace ------------------------------
EXTENDS Parallel, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == Start0
FailS(tr, s, e) == Breaks(s, e)
StepS(tr, s, e) == After(s, e)
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
