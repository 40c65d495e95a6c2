------------------------------ MODULE TraceBase ------------------------------
(* Validation of traces recorded from the implementation.                      *)
(* Every trace is a JSON record [key, cfg, ev]; event e of trace tr is judged   *)
(* in abstract state st by Failing(tr, st, e), the set of names of the clauses  *)
(* of the specification it violates, and Step(tr, st, e) is the state after it. *)
(* The verdict is total: a rejected event is reported and validation goes on.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Traces, InitSt(_), Failing(_, _, _), Step(_, _, _)
VARIABLES t, l, st

TraceInit == /\ t \in 1..Len(Traces)
             /\ l = 0
             /\ st = InitSt(Traces[t])

TraceNext == /\ l < Len(Traces[t].ev)
             /\ LET tr == Traces[t]
                    e == tr.ev[l + 1]
                    bad == Failing(tr, st, e)
                IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, l + 1, bad>>)
                   /\ st' = Step(tr, st, e)
             /\ l' = l + 1
             /\ t' = t

TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, st>>

(* every trace was started; the harness checks that distinct states = all events + all traces *)
TraceAccepted == TLCGet("distinct") >= Len(Traces)
=============================================================================
