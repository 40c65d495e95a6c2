------------------------------ MODULE LifeTrace ------------------------------
(* Recorded runs against Lifecycle; in addition the content of each generation  *)
(* (digest dg of everything generated and kept in it) must be the one the       *)
(* reference run of the same configuration had (cfg.ref, empty = no reference). *)
EXTENDS Lifecycle, TLC, Json, IOUtils
VARIABLES t, l, st

AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == Fresh
DigestBad(c, s, e) ==
  IF e.k = "cb" /\ Len(c.ref) > 0
  THEN IF s.g > Len(c.ref) THEN {"more-generations-than-reference"}
       ELSE IF e.dg # c.ref[s.g] THEN {"generation-differs-between-drive-modes"} ELSE {}
  ELSE IF e.k = "end" /\ Len(c.ref) > 0 /\ s.done # Len(c.ref) THEN {"fewer-generations-than-reference"} ELSE {}
FailS(tr, s, e) == Breaks(tr.cfg, s, e) \cup DigestBad(tr.cfg, s, e)
StepS(tr, s, e) == Apply(tr.cfg, s, e)
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
