------------------------------- MODULE CVTrace -------------------------------
EXTENDS CV, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
M == 576
InitS(tr) == None
FailS(tr, s, e) ==
  CASE e.k = "cv" -> ReadBreaks(e.g, e.h, e.cfg, e, M)
    [] e.k = "feas" -> FeasBreaks(e.g, e.h, e.cfg, e, M)
    (* violation computed by the code itself (float): feasible exactly when within the tolerance, ranks *)
    [] e.k = "within" -> If(e.feas = (e.cv <= e.eps), "feasibility-wrong")
    [] e.k = "wrap" -> WrapBreaks(e, M)
    [] e.k = "decl" -> DeclBreaks(e)
    (* tolerance of adaptive epsilon, as parts of the initial mean violation, in millionths *)
    [] e.k = "adapt" -> If(Abs(e.eps - Max2(0, 1000000 - (e.perc * e.num) \div e.den)) <= 4, "tolerance-not-as-configured")
         \cup If(e.perc >= e.until => e.eps <= 4, "tolerance-after-its-end")
    [] e.k \in {"G", "H", "config", "copy", "reset", "read"} -> IndBreaks(tr.cfg.cfgs, s, e, M)
    [] OTHER -> {"raised"}
StepS(tr, s, e) == StepInd(s, e)
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
