----------------------------- MODULE NicheTrace -----------------------------
EXTENDS Niching, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Huge == 1000000
InitS(tr) == IF "pop" \in DOMAIN tr.cfg THEN [pop |-> tr.cfg.pop, z |-> tr.cfg.z, done |-> {}]
             ELSE IF "ideal" \in DOMAIN tr.cfg THEN [ideal |-> tr.cfg.ideal, worst |-> tr.cfg.worst, ext |-> <<>>, ref |-> SetOf(tr.cfg.ref)] ELSE <<>>
FailS(tr, s, e) ==
  CASE e.k = "niching" -> NichingEv(e)
    [] e.k = "assoc" -> AssocEv(e)
    [] e.k = "survive" -> SurviveEv(s, e)
    [] e.k = "aspire" -> AspireEv(e)
    [] e.k = "decomp" -> DecompEv(e)
    [] e.k = "moead" -> MoeadEv(tr.cfg, s, e)
    [] e.k = "batch" -> BatchEv(tr.cfg, s, e)
    [] e.k = "neighbours" -> NeighbourEv(tr.cfg, e)
    [] e.k = "apd" -> ApdEv(s, e)
    [] e.k = "arch" -> ArchEv(s, e)
    [] e.k = "holds" -> If(~e.ok, e.what)
    [] OTHER -> {e.k}
StepS(tr, s, e) ==
  CASE e.k = "survive" /\ ~e.raised -> NormStep(s, e)
    [] e.k = "moead" /\ ~e.raised -> MoeadStep(s, e)
    [] e.k = "batch" /\ ~e.raised -> [s EXCEPT !.pop = e.after, !.z = e.z]
    [] e.k = "apd" /\ ~e.raised -> ApdStep(s, e)
    [] e.k = "arch" /\ ~e.raised -> ArchStep(s, e)
    [] OTHER -> s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
