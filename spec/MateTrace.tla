------------------------------ MODULE MateTrace -----------------------------
EXTENDS Mating, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [off |-> <<>>, tries |-> 0]
FailS(tr, s, e) ==
  CASE e.k = "elim" -> ElimBreaks(e.v, e.o, e.self, e.kept) \cup If(e.same, "changed-or-replaced")
         \cup (IF e.ret THEN If(e.kept = e.yes /\ Range(e.no) = DOMAIN e.v \ Range(e.kept) /\ Increasing(e.no), "indices-disagree") ELSE {})
    [] e.k = "near" -> ElimNearBreaks(e.n, {<<q[1], q[2]>> : q \in Range(e.near)}, e.kept) \cup If(e.same, "changed-or-replaced")
    [] e.k = "groups" -> If({Range(g) : g \in Range(e.groups)} = {{i \in DOMAIN e.v : e.v[i] = x} : x \in {y \in Range(e.v) : Cardinality({i \in DOMAIN e.v : e.v[i] = y}) > 1}}
                            /\ \A g \in Range(e.groups) : Distinct(g), "groups-differ")
    (* the infill loop, scripted *)
    [] e.k = "batch" -> If(More(s.off, tr.cfg.n, s.tries, tr.cfg.max), "mated-without-need") \cup If(e.want = tr.cfg.n - Len(s.off), "wrong-number-requested")
    [] e.k = "result" -> If(~More(s.off, tr.cfg.n, s.tries, tr.cfg.max), "stopped-too-early") \cup If(e.off = s.off, "candidates-differ")
         \cup OffBreaks(tr.cfg.pop, e.off, tr.cfg.n, s.tries, tr.cfg.max)
    (* a generation of a run *)
    [] e.k = "mated" -> OffBreaks(e.pop, e.off, e.n, e.tries, e.max)
    [] e.k = "init" -> If(Distinct(e.off), "duplicate-candidates") \cup If(Len(e.off) <= e.n, "too-many-candidates")
         \cup If(Range(e.off) = Range(e.sampled), "lost-without-a-duplicate")
    [] e.k = "ended" -> If(e.candidates > 0 \/ e.stopped, "continues-without-candidates")
    [] OTHER -> {"raised"}
StepS(tr, s, e) == IF e.k = "batch" THEN [off |-> Infill(tr.cfg.pop, s.off, tr.cfg.n, e.b), tries |-> s.tries + 1] ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
