----------------------------- MODULE ReportTrace -----------------------------
EXTENDS Report, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [P |-> {}, last |-> 0 - 1, H |-> <<>>, top |-> 0, shown |-> 0, w |-> <<>>]
FailS(tr, s, e) ==
  CASE e.k = "head" -> Heading(e)
    [] e.k = "row" -> Row(s, e)
    [] e.k = "rec" -> Rec(s, e)
    [] e.k = "run" -> Running(s, e)
    [] e.k = "perc" -> Progress(s, e)
    [] e.k = "win" -> Win(s, e)
    [] e.k = "text" -> Text(e)
    [] e.k = "calls" -> Calls(e)
    [] OTHER -> {e.k}
StepS(tr, s, e) ==
  CASE e.k = "row" -> AfterRow(s, e)
    [] e.k = "rec" -> AfterRec(s, e)
    [] e.k = "run" -> AfterRunning(s, e)
    [] e.k = "perc" -> AfterProgress(s, e)
    [] e.k = "win" -> AfterWin(s, e)
    [] OTHER -> s
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
