------------------------------ MODULE EvalTrace ------------------------------
(* Recorded evaluator calls (kind "op") and recorded runs (kinds "eval",         *)
(* "look") against Evaluator.                                                   *)
EXTENDS Evaluator, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
ToSet(q) == {q[j] : j \in 1..Len(q)}
Obs(p) == [x |-> p.x, mark |-> [i \in 1..Len(p.mark) |-> ToSet(p.mark[i])], val |-> p.val, n |-> p.n]
Op(e) == CASE e.op = "eval" -> [e EXCEPT !.want = ToSet(@)] [] e.op = "poison" -> [e EXCEPT !.want = ToSet(@)] [] OTHER -> e
InitS(tr) == IF "init" \in DOMAIN tr.cfg THEN Obs(tr.cfg.init) ELSE [rows |-> 0]
StepS(tr, s, e) == CASE e.k = "op" -> Obs(e.post)
                     [] e.k = "eval" -> [rows |-> s.rows + e.rows]
                     [] OTHER -> s
If(b, nm) == IF b THEN {} ELSE {nm}
FailS(tr, s, e) ==
  CASE e.k = "op" ->
    LET o == Op(e.o)  r == Obs(e.post) IN
    IF o.op # "eval" THEN If(r = Apply(s, o), "harness-operation")
    ELSE If(e.rows = (IF Fails(s, o) /\ e.looped THEN SubSeq(Rows(s, o), 1, Len(e.rows)) ELSE Rows(s, o)), "submitted-rows-wrong")
         \cup If(e.raised <=> Fails(s, o), IF e.raised THEN "raised" ELSE "failure-swallowed")
         \cup If(r.n = s.n + (IF o.count /\ ~Fails(s, o) THEN Len(Pending(s, o)) ELSE 0), "counter-wrong")
         \cup If(r.x = s.x, "variables-changed")
         \cup If(e.raised \/ e.same, "returned-other-solutions")
         \cup If(EvalOK(s, o, [r EXCEPT !.n = s.n + (IF o.count /\ ~Fails(s, o) THEN Len(Pending(s, o)) ELSE 0), !.x = s.x]),
                 IF Fails(s, o) THEN "failed-evaluation-left-traces" ELSE "values-or-marks-wrong")
         \cup If(Sound(r), "marked-value-not-its-own")
    [] e.k = "eval" -> {}
    [] e.k = "look" ->
         If(e.n_eval = s.rows, "counter-differs-from-submitted")
         \cup If(\A j \in 1..Len(e.sols) : e.sols[j].marked => e.sols[j].has = e.sols[j].want, "solution-carries-foreign-values")
         \cup If(\A j \in 1..Len(e.sols) : e.sols[j].marked, "unevaluated-solution-in-population")
    [] OTHER -> {"raised"}
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
