------------------------------ MODULE RefTrace ------------------------------
EXTENDS RefDirs, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [n |-> 0, seen |-> {}]
FailS(tr, s, e) ==
  CASE e.k = "lattice" -> Lat(e)
    [] e.k = "points" -> Points(e)
    [] e.k = "multi" -> Multi(e)
    [] e.k = "batch" -> Batch(s, e)
    [] e.k = "layers" -> Layers(e)
    [] e.k = "method" -> Method(e)
    [] e.k = "sample" -> Sample(e)
    [] e.k = "project" -> Project(e)
    [] e.k = "farthest" -> Farthest(e)
    [] e.k = "holds" -> If(~e.ok, e.what)
    [] OTHER -> {e.k}
StepS(tr, s, e) == IF e.k = "batch" /\ ~e.raised THEN BatchStep(s, e) ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
