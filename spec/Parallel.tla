------------------------------- MODULE Parallel -------------------------------
(* Evaluation of batches of solutions by concurrent workers.                      *)
(* A solution is an integer x; its values are F(x) and G(x), shifted by the        *)
(* offset the caller passes on. A worker takes a solution, computes F, then G and  *)
(* hands the values back; it may fail before either step. The batch is answered    *)
(* after all workers are done, or with an error once one of them failed.           *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
FOf(x, off) == 7 * x + 1 + off
GOf(x, off) == x - 2
Values(X, off) == [k \in 1..Len(X) |-> [F |-> FOf(X[k], off), G |-> GOf(X[k], off)]]
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Range(s) == {s[k] : k \in 1..Len(s)}

(* trace state: per batch b, what was asked [X, off] and the calls made so far *)
(* events: batch (asked), call (a worker takes a solution), fail (it fails), end (the answer) *)
Start0 == [ask |-> <<>>, calls |-> <<>>, failed |-> <<>>]
Breaks(s, e) ==
  CASE e.k = "batch" -> {}
    [] e.k = "call" -> If(e.x \in Range(s.ask[e.b].X), "evaluated-something-else")
                       \cup If(Count(s.calls[e.b], e.x) < Count(s.ask[e.b].X, e.x), "evaluated-twice")
                       \cup If(e.off = s.ask[e.b].off, "arguments-lost")
    [] e.k = "fail" -> {}
    [] e.k = "end" ->
         LET q == s.ask[e.b] IN
         IF s.failed[e.b] THEN
            If(e.raised, "failure-not-reported") \cup If(~e.raised \/ e.right, "error-lost")
            \cup If(e.vals = q.before, "failure-turned-into-values") \cup If(e.marked = q.marked, "marked-evaluated-after-failure")
            \cup If(e.n_eval = q.n_eval, "failed-batch-counted")
         ELSE If(~e.raised, "raised-without-failure")
            \cup If(e.raised \/ e.vals = Values(q.X, q.off), "other-values-than-serial")
            \cup If(e.raised \/ ~e.counted \/ \A x \in Range(q.X) : Count(s.calls[e.b], x) = Count(q.X, x), "not-evaluated-exactly-once")
            \cup If(e.raised \/ e.marked = Len(q.X), "not-marked") \cup If(e.raised \/ e.n_eval = q.n_eval + Len(q.X), "counter-wrong")
    (* whole runs: generations under a parallel runner against those under serial evaluation *)
    [] e.k = "run" -> If(e.raised = e.fails, IF e.fails THEN "failure-not-reported" ELSE "raised-without-failure")
                      \cup If(e.raised \/ e.fails \/ e.gens = e.serial, "other-run-than-serial")
                      \cup If(e.raised \/ e.fails \/ ~e.counted \/ e.calls = e.n_eval, "not-evaluated-exactly-once")
    (* copies: the copy holds everything but the runner's resources; the original keeps working *)
    [] e.k = "copy" -> If(~e.raised, "cannot-be-copied") \cup If(e.raised \/ ~e.has, "runner-travelled-along")
                       \cup If(e.raised \/ e.same, "copy-lost-something") \cup If(e.raised \/ e.works, "original-stopped-working")
                       \cup If(e.raised \/ e.again, "copy-with-a-runner-differs")
    [] OTHER -> {e.k}
After(s, e) ==
  CASE e.k = "batch" -> [ask |-> Append(s.ask, [X |-> e.X, off |-> e.off, before |-> e.before, marked |-> e.marked, n_eval |-> e.n_eval]),
                         calls |-> Append(s.calls, <<>>), failed |-> Append(s.failed, FALSE)]
    [] e.k = "call" -> [s EXCEPT !.calls[e.b] = Append(@, e.x)]
    [] e.k = "fail" -> [s EXCEPT !.failed[e.b] = TRUE]
    [] OTHER -> s
=============================================================================
