------------------------------ MODULE CallTrace ------------------------------
(* A callback that is part of a collection is initialised once and then         *)
(* notified once per generation, exactly like a single callback.                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == 0
StepS(tr, s, e) == 0
Want(n) == <<"cb-init">> \o [j \in 1..n |-> "cb"]
FailS(tr, s, e) ==
  IF e.k # "seen" THEN {"raised"}
  ELSE (IF e.kinds = Want(tr.cfg.n) THEN {} ELSE {"member-callback-not-notified-once-per-generation"})
       \cup (IF e.gens = <<1>> \o [j \in 1..tr.cfg.n |-> j] THEN {} ELSE {"member-callback-saw-other-generations"})
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
