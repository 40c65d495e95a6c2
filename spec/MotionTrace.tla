---------------------------- MODULE MotionTrace -----------------------------
EXTENDS Motion, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [X |-> <<>>, V |-> <<>>, P |-> <<>>]
FailS(tr, s, e) ==
  CASE e.k = "eq" -> EqEv(e)
    [] e.k = "move" -> MoveEv(s, e)
    [] e.k = "init" -> InitEv(e)
    [] e.k = "adapt" -> AdaptEv(e)
    [] e.k = "factors" -> FactorEv(e)
    [] e.k = "wins" -> WinEv(e)
    [] e.k = "hall" -> HallEv(e)
    [] e.k = "grades" -> GradesEv(e)
    [] e.k = "own" -> OwnEv(e)
    [] e.k = "pair" -> PairEv(e)
    [] e.k = "es" -> EsEv(e)
    [] e.k = "sigma" -> SigmaEv(e)
    [] e.k = "normal" -> NormalEv(e)
    [] e.k = "log" -> LogEv(e)
    [] e.k = "dyn" -> DynEv(e)
    [] e.k = "share" -> ShareEv(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) == IF e.k = "move" /\ ~e.raised /\ e.chain THEN [X |-> e.Xn, V |-> e.Vn, P |-> IF Len(e.Kn) > 0 THEN BestAfter(e) ELSE <<>>] ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
