------------------------------ MODULE DirTrace ------------------------------
EXTENDS Direct, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == CASE tr.cfg.m = "nm" -> [ph |-> "start", vs |-> <<<<0, 0>>>>, r |-> <<0, 0>>, done |-> TRUE]
               [] tr.cfg.m = "ps" -> PSInit(tr.cfg.n)
               [] tr.cfg.m = "expo" -> [alpha |-> tr.cfg.alpha, f |-> tr.cfg.f]
               [] OTHER -> <<>>
FailS(tr, s, e) ==
  CASE e.k = "nm" -> NMEv(tr.cfg, s, e)
    [] e.k = "ps" -> PSEv(tr.cfg, s, e)
    [] e.k = "dv" -> DivEv(tr.cfg, e)
    [] e.k = "golden" -> GoldenEv(e)
    [] e.k = "quad" -> QuadEv(e)
    [] e.k = "expo" -> ExpoEv(tr.cfg, s, e)
    [] e.k = "begin" -> If(\E i \in 1..Len(e.want) : Abs(e.x[i] - e.want[i]) > 2, "the first points of the bracket")
    [] e.k = "line" -> LineEv(e)
    [] e.k = "holds" -> If(~e.ok, e.what)
    [] OTHER -> {e.k}
StepS(tr, s, e) ==
  CASE e.k = "nm" /\ ~e.raised -> NMStep(s, e)
    [] e.k = "ps" /\ ~e.raised -> PSNext(tr.cfg, s, e.x, e.v)
    [] e.k = "expo" -> ExpoStep(s, e)
    [] OTHER -> s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
