----------------------------- MODULE OptimaTrace -----------------------------
EXTENDS Optima, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [v |-> 0, c |-> Empty]
FailS(tr, s, e) ==
  CASE e.k = "cache" -> CacheEv(s, e)
    [] e.k = "flow" -> Flow(e)
    [] e.k = "tsp" -> Tsp(e)
    [] e.k = "sack" -> Sack(e)
    [] e.k = "span" -> Span(e)
    [] e.k = "def" -> Def(e)
    [] e.k = "front" -> Front(e)
    [] e.k = "att" -> Att(e)
    [] e.k = "shape" -> Shape(e)
    [] e.k = "set" -> SetEv(e)
    [] e.k = "like" -> Like(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) == IF e.k = "cache" THEN CacheNext(s, e) ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
