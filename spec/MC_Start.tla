------------------------------ MODULE MC_Start -------------------------------
(* All supplied starts of up to MaxLen solutions: laws of the rule, and the cases for the replay. *)
EXTENDS Start, TLC, Json
CONSTANTS MaxLen, Codes
VARIABLES g, rep, elim
Sol == [x : Codes, done : BOOLEAN]
Init == /\ g \in UNION {[1..n -> Sol] : n \in 1..MaxLen} /\ rep \in BOOLEAN /\ elim \in BOOLEAN
Next == UNCHANGED <<g, rep, elim>>
Spec == Init /\ [][Next]_<<g, rep, elim>>
W == First(g, rep, elim)
Laws ==
  /\ Len(W) >= 1 /\ Len(W) <= Len(g)
  /\ elim => \A i, j \in 1..Len(W) : i # j => W[i].x # W[j].x
  /\ ~elim => Len(W) = Len(g)
  /\ \A i \in 1..Len(W) : W[i].done => W[i] \in {g[k] : k \in 1..Len(g)}
  /\ rep => \A i \in 1..Len(W) : ~W[i].done => W[i].x % 2 = 0
  /\ First(W, rep, elim) = W
  /\ Given([g |-> g, rep |-> rep, elim |-> elim, got |-> Xs(W), rows |-> Todo(W, 1), count |-> Len(Todo(W, 1)),
            kept |-> [i \in 1..Len(W) |-> W[i].done], raised |-> FALSE]) = {}
  \* dropping the last solution, or evaluating one again, is noticed
  /\ Given([g |-> g, rep |-> rep, elim |-> elim, got |-> SubSeq(Xs(W), 1, Len(W) - 1), rows |-> Todo(W, 1), count |-> Len(Todo(W, 1)),
            kept |-> [i \in 1..Len(W) |-> W[i].done], raised |-> FALSE]) # {}
Emit == PrintT("PATH " \o ToJson([g |-> g, rep |-> rep, elim |-> elim]))
=============================================================================
