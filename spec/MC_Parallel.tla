----------------------------- MODULE MC_Parallel -----------------------------
(* All schedules of the workers of one or two overlapping batches, with failures.   *)
(* The answer is assembled in the way the runners do it: by position.                *)
EXTENDS Parallel, TLC, Json
CONSTANTS Batches, N, Workers, Faults, Fine   \* Fine: taking a solution and computing F are separate steps
VARIABLES st, val, ans, sched, bad
vars == <<st, val, ans, sched, bad>>
B == 1..Batches
T == B \X (1..N)
X(b) == [k \in 1..N |-> 10 * b + k]
Off(b) == 100 * b
Init == /\ st = [t \in T |-> "wait"] /\ val = [t \in T |-> [F |-> -1, G |-> -1]]
        /\ ans = [b \in B |-> <<>>] /\ sched = <<>> /\ bad = [b \in B |-> FALSE]
Busy(b) == Cardinality({i \in 1..N : st[<<b, i>>] \in {"run", "mid"}})
NFaults == Cardinality({t \in T : st[t] = "fail"})
(* a pool with fewer workers than tasks takes them in order *)
Start(t) == /\ st[t] = "wait" /\ Busy(t[1]) < Workers
            /\ (Workers < N => \A i \in 1..(t[2] - 1) : st[<<t[1], i>>] # "wait")
            /\ st' = [st EXCEPT ![t] = IF Fine THEN "run" ELSE "mid"] /\ sched' = Append(sched, [b |-> t[1], i |-> t[2], p |-> "start"])
            /\ val' = IF Fine THEN val ELSE [val EXCEPT ![t].F = FOf(X(t[1])[t[2]], Off(t[1]))]
            /\ UNCHANGED <<ans, bad>>
Half(t) == /\ st[t] = "run" /\ st' = [st EXCEPT ![t] = "mid"] /\ val' = [val EXCEPT ![t].F = FOf(X(t[1])[t[2]], Off(t[1]))]
           /\ sched' = Append(sched, [b |-> t[1], i |-> t[2], p |-> "half"]) /\ UNCHANGED <<ans, bad>>
Done(t) == /\ st[t] = "mid" /\ st' = [st EXCEPT ![t] = "done"] /\ val' = [val EXCEPT ![t].G = GOf(X(t[1])[t[2]], Off(t[1]))]
           /\ sched' = Append(sched, [b |-> t[1], i |-> t[2], p |-> "done"]) /\ UNCHANGED <<ans, bad>>
Fail(t) == /\ st[t] \in {"run", "mid"} /\ NFaults < Faults /\ st' = [st EXCEPT ![t] = "fail"] /\ bad' = [bad EXCEPT ![t[1]] = TRUE]
           /\ sched' = Append(sched, [b |-> t[1], i |-> t[2], p |-> "fail"]) /\ UNCHANGED <<val, ans>>
(* the caller gathers results by position; it may stop at the first failure it meets *)
Gather(b) == /\ Len(ans[b]) < N /\ ~\E k \in 1..Len(ans[b]) : ans[b][k] = "raised"
             /\ LET k == Len(ans[b]) + 1 IN /\ st[<<b, k>>] \in {"done", "fail"}
                                           /\ ans' = [ans EXCEPT ![b] = Append(@, IF st[<<b, k>>] = "done" THEN "ok" ELSE "raised")]
             /\ UNCHANGED <<st, val, sched, bad>>
Next == \E t \in T : Start(t) \/ Half(t) \/ Done(t) \/ Fail(t) \/ Gather(t[1])
Spec == Init /\ [][Next]_vars
Raised(b) == \E k \in 1..Len(ans[b]) : ans[b][k] = "raised"
Answered(b) == Raised(b) \/ Len(ans[b]) = N
AllOver == \A t \in T : st[t] \in {"done", "fail"}
Inv == \A b \in B : /\ Answered(b) /\ ~Raised(b) => [k \in 1..N |-> val[<<b, k>>]] = Values(X(b), Off(b))
                    /\ Raised(b) => bad[b]
                    /\ bad[b] /\ AllOver => ~(Len(ans[b]) = N /\ ~Raised(b))
                    /\ \A k \in 1..N : st[<<b, k>>] = "done" => val[<<b, k>>] = [F |-> FOf(X(b)[k], Off(b)), G |-> GOf(X(b)[k], Off(b))]
(* only the schedule is of interest to the replay *)
NextS == \E t \in T : Start(t) \/ Half(t) \/ Done(t) \/ Fail(t)
SpecS == Init /\ [][NextS]_vars
Emit == (\A t \in T : st'[t] \in {"done", "fail"}) => PrintT("PATH " \o ToJson([n |-> N, m |-> Batches, w |-> Workers, fine |-> Fine, s |-> sched']))
=============================================================================
