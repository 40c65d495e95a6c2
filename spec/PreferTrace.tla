----------------------------- MODULE PreferTrace -----------------------------
EXTENDS Prefer, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == 0
FailS(tr, s, e) ==
  CASE e.k = "rank" -> Rank(e)
    [] e.k = "dialog" -> Dialog(e)
    [] e.k = "matrix" -> Matrix(e)
    [] e.k = "poly" -> PolyEv(e)
    [] e.k = "fit" -> Fit(e)
    [] e.k = "share" -> Share(e)
    [] e.k = "far" -> Far(e)
    [] e.k = "gen" -> Gen(e)
    [] e.k = "seconds" -> Seconds(e)
    [] e.k = "decide" -> Decide(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) == s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
