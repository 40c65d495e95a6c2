------------------------------ MODULE OptTrace -------------------------------
(* Recorded calls of the optimum filter ("filter"), reports of optimizers after  *)
(* every generation ("gen") and result objects ("res").                         *)
EXTENDS Optimum, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [z |-> 0]
StepS(tr, s, e) == s
FailS(tr, s, e) ==
  CASE e.k = "filter" -> If(FilterOK(e.P, e.least, e.R), "filter-wrong") \cup If(e.same, "filter-changed-the-population")
    [] e.k = "gen" -> ReportBreaks(tr.cfg.style, e.P, e.pop, e.opt, e.prev)
    [] e.k = "res" -> ResultBreaks(e.P, e.opt, e.least, e.ids, e.r)
    [] OTHER -> {"raised"}
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
