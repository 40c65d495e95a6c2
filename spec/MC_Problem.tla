------------------------------ MODULE MC_Problem -----------------------------
(* Plans: how a set of rows is evaluated (one by one, in batches of any composition and order, with   *)
(* repetitions); and the collection of the values of an element-wise evaluation whose rows may each   *)
(* set or not set each key: whatever is accepted has every value at its own row.                      *)
EXTENDS Problem, TLC, Json
CONSTANTS NRows, MaxBatch, MaxPlan
VARIABLES plan, seen, todo, col
Batches == UNION {[1..k -> 1..NRows] : k \in 1..MaxBatch}
Init == plan = <<>> /\ seen = {} /\ todo = <<>> /\ col = <<>>
(* collection row by row: col = values of a key in the order they were produced *)
Start(b) == /\ todo = <<>> /\ Len(plan) < MaxPlan
            /\ \E s \in SUBSET (1..Len(b)) : plan' = Append(plan, [rows |-> b, set |-> s]) /\ todo' = b /\ col' = <<>> /\ seen' = seen
Cur == plan[Len(plan)]
Take == /\ todo # <<>>
        /\ LET i == Len(Cur.rows) - Len(todo) + 1 IN
           /\ col' = IF i \in Cur.set THEN Append(col, Head(todo)) ELSE col
           /\ todo' = Tail(todo)
           /\ seen' = IF Len(todo) = 1 /\ Len(col') = Len(Cur.rows) THEN seen \cup {<<Cur.rows[j], "F", col'[j]>> : j \in 1..Len(Cur.rows)} ELSE seen
        /\ plan' = plan
Next == (\E b \in Batches : Start(b)) \/ Take
Spec == Init /\ [][Next]_<<plan, seen, todo, col>>
Accepted == todo = <<>> /\ plan # <<>> /\ Len(col) = Len(Cur.rows)
Inv == /\ (Accepted => \A j \in 1..Len(col) : col[j] = Cur.rows[j])
       /\ \A t, u \in seen : (t[1] = u[1] /\ t[2] = u[2]) => t[3] = u[3]
Emit == (todo' = <<>> /\ Len(plan') = MaxPlan) => PrintT("PATH " \o ToJson([plan |-> plan']))
View == <<plan, todo>>
=============================================================================
