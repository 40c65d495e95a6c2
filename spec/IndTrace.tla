------------------------------ MODULE IndTrace ------------------------------
EXTENDS Indicators, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == <<>>
FailS(tr, s, e) ==
  CASE e.k = "value" -> Value(e)
    [] e.k = "incr" -> Incremental(s, e)
    [] e.k = "mean" -> Mean(e)
    [] e.k = "rmetric" -> RMetric(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) == IF e.k = "incr" /\ ~e.raised THEN Apply(s, e) ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
