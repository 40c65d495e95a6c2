------------------------------ MODULE ProbTrace ------------------------------
EXTENDS Problem, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == {}
FailS(tr, s, e) ==
  CASE e.k = "eval" -> EvalBreaks(s, e)
    [] e.k = "exact" -> ExactBreaks(tr.cfg, e)
    [] e.k = "decl" -> DeclBreaks(e)
    [] e.k = "part" -> PartBreaks(e)
    [] e.k = "nan" -> NanBreaks(e)
    [] e.k = "form" -> FormBreaks(e)
    [] OTHER -> {"raised"}
StepS(tr, s, e) == IF e.k = "eval" THEN EvalStep(s, e) ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
