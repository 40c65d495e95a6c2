------------------------------ MODULE MC_Mating -----------------------------
(* The infill loop over every sequence of batches a mating could draw.          *)
EXTENDS Mating, TLC, Json
CONSTANTS V, MaxPop, MaxN, MaxTries
VARIABLES pop, n, off, tries, hist, done
vars == <<pop, n, off, tries, hist, done>>
Seqs(S, k) == UNION {[1..m -> S] : m \in 0..k}
Init == /\ pop \in {q \in Seqs(V, MaxPop) : Distinct(q)} /\ n \in 1..MaxN
        /\ off = <<>> /\ tries = 0 /\ hist = <<>> /\ done = FALSE
Mate == /\ ~done /\ More(off, n, tries, MaxTries)
        /\ \E b \in Seqs(V, n - Len(off) + 1) :
             /\ off' = Infill(pop, off, n, b)
             /\ tries' = tries + 1
             /\ hist' = Append(hist, b)
             /\ UNCHANGED <<pop, n, done>>
Stop == /\ ~done /\ ~More(off, n, tries, MaxTries) /\ done' = TRUE /\ UNCHANGED <<pop, n, off, tries, hist>>
Next == Mate \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* hist hidden: one history per (pop, n, off, tries) and last batch *)
view == <<pop, n, off, tries, done>>
Inv == done => OffBreaks(pop, off, n, tries, MaxTries) = {}
Partial == Distinct(off) /\ Range(off) \cap Range(pop) = {} /\ Len(off) <= n /\ tries <= MaxTries
Ends == <>done
Out == done' => PrintT("PATH " \o ToJson([pop |-> pop, n |-> n, batches |-> hist, off |-> off, max |-> MaxTries]))
=============================================================================
