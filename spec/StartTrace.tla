----------------------------- MODULE StartTrace ------------------------------
EXTENDS Start, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == 0
FailS(tr, s, e) ==
  CASE e.k = "given" -> Given(e)
    [] e.k = "input" -> If(e.raised, "raised") \cup If(~e.raised /\ ~e.same, "supplied-data-changed")
    [] e.k = "begin" -> Begin(e)
    [] e.k = "lhs" -> Lhs(e)
    [] e.k = "best" -> Best(e)
    [] e.k = "score" -> Score(e)
    [] e.k = "random" -> Random(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) == s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
