----------------------------- MODULE ScaleTrace ------------------------------
EXTENDS Scale, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [w |-> <<>>, b |-> [f |-> <<>>, a |-> <<>>]]
FailS(tr, s, e) ==
  CASE e.k = "norm" -> Norm(e)
    [] e.k = "std" -> Std(e)
    [] e.k = "ideal" -> IdealEv(s.b, e)
    [] e.k = "pw" -> PW(e)
    [] e.k = "neigh" -> Neigh(e)
    [] e.k = "outl" -> Outlier(e)
    [] e.k = "knee" -> Knee(e)
    [] e.k = "wheel" -> Wheel(e)
    [] e.k = "sort" -> Sort(e)
    [] e.k = "win" -> WinEv(s.w, e)
    [] e.k = "params" -> Params(e)
    [] e.k = "made" -> Made(e)
    [] e.k = "control" -> Control(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) == CASE e.k = "win" -> [s EXCEPT !.w = IF e.op = "new" THEN <<>> ELSE WinNext(s.w, e)]
                     [] e.k = "ideal" -> [s EXCEPT !.b = Ideals(s.b, e)]
                     [] OTHER -> s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
