----------------------------- MODULE SpaceTrace -----------------------------
EXTENDS Space, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == 0
FailS(tr, s, e) ==
  CASE e.k = "repair" -> RepairBreaks(e.rule, e.x, e.y, e.z, e.lo, e.hi)
    (* a repair towards a reference solution: in bounds, and nothing happens inside *)
    [] e.k = "towards" -> If(\A i \in DOMAIN e.y : In(e.y[i], e.lo[i], e.hi[i]), "out-of-bounds")
         \cup If((\A i \in DOMAIN e.x : In(e.x[i], e.lo[i], e.hi[i])) => e.y = e.x, "moved-a-solution-in-bounds")
         \cup If(e.z = e.y, "repeating-changes-again")
    [] e.k = "rows" -> UNION {RowBreaks(e.vars, e.X[i], e.ty[i]) : i \in DOMAIN e.X} \cup If(Len(e.X) = e.n \/ e.n < 0, "wrong-number-of-solutions")
    [] OTHER -> {"raised"}
StepS(tr, s, e) == s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
