------------------------------ MODULE TermTrace ------------------------------
(* Recorded looks of stopping criteria, in isolation and in whole runs.         *)
(* event: look  [o, p4 (progress * 10^4, rounded), full (progress >= 1),         *)
(*               nil (progress = 0), range, stop (has_terminated),               *)
(*               exact (progress is comparable)]                                *)
(*        force [i]; "end" (the run was left, with: next = has_next);            *)
(*        "raised"; "reuse" [same: untouched criterion, gens]; "secs" [h,m,s,v]   *)
EXTENDS Termination, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [s |-> Fresh(tr.cfg.c), looks |-> 0, ended |-> FALSE]
StepS(tr, z, e) ==
  CASE e.k = "look" -> [s |-> Upd(tr.cfg.c, z.s, e.o), looks |-> z.looks + 1, ended |-> z.ended]
    [] e.k = "force" -> [z EXCEPT !.s = Force(z.s, e.i)]
    [] e.k = "end" -> [z EXCEPT !.ended = TRUE]
    [] OTHER -> z
If(b, nm) == IF b THEN {} ELSE {nm}
Near(p4, p) == Abs(p4 * p[2] - 10000 * p[1]) <= p[2]
FailS(tr, z, e) ==
  CASE e.k = "look" ->
         LET r == Upd(tr.cfg.c, z.s, e.o) IN
         If(~Stopped(z.s) /\ ~z.ended, "looked-again-after-stop")
         \cup If(e.range, "progress-outside-0-1")
         \cup If(e.stop <=> Stopped(r), IF e.stop THEN "stops-too-early" ELSE "stops-too-late")
         \cup If(e.stop <=> e.full, "progress-and-stop-disagree")
         \cup If(e.exact => Near(e.p4, r.p), "progress-wrong")
    [] e.k = "end" -> If(~e.next /\ Stopped(z.s), "run-ended-without-reason") \cup If(e.looks = z.looks, "looks-not-once-per-generation")
    [] e.k = "reuse" -> If(e.same, "criterion-object-modified") \cup If(e.a = e.b, "criterion-not-reusable")
    [] e.k = "secs" -> If(e.v = 3600 * e.h + 60 * e.m + e.s, "time-string-misread")
    [] e.k = "force" -> {}
    [] OTHER -> {"raised"}
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
