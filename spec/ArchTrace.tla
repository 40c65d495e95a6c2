------------------------------ MODULE ArchTrace -----------------------------
(* cfg: P members in the order of being offered, cap, trunc, elim                *)
(* event add: off, res, after (positions, 0 = not among the offered), n offered so far *)
EXTENDS Archive, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [arch |-> <<>>, cut |-> {}]
Known(e) == \A q \in {e.off, e.res, e.after} : \A i \in 1..Len(q) : q[i] > 0
Cut(tr, s, e) == LET P == tr.cfg.P IN {i \in BestOf(P, RangeOf(s.arch) \cup RangeOf(e.off)) : ~Represented(P, i, RangeOf(e.res))}
Bound(tr, e) == tr.cfg.cap > 0 /\ Len(e.res) = tr.cfg.trunc
FailS(tr, s, e) ==
  CASE e.k = "add" ->
     IF ~Known(e) THEN {"member-was-never-offered"}
     ELSE LET c == IF Bound(tr, e) THEN s.cut \cup Cut(tr, s, e) ELSE s.cut IN
          AddBreaks(tr.cfg.P, s.arch, e.off, e.res, e.after, tr.cfg.cap, tr.cfg.trunc, tr.cfg.elim)
          \cup HistoryBreaks(tr.cfg.P, e.n, e.res, c, tr.cfg.cap)
          \cup If(e.kind = tr.cfg.kind, "another-kind-of-archive") \cup If(e.same, "offered-solutions-changed")
    [] OTHER -> {"raised"}
StepS(tr, s, e) == IF e.k = "add" /\ Known(e) THEN [arch |-> e.res, cut |-> IF Bound(tr, e) THEN s.cut \cup Cut(tr, s, e) ELSE s.cut] ELSE s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
