---------------------------- MODULE MC_Lifecycle -----------------------------
(* The protocol explored as a system: any event the rules allow may happen.     *)
(* Checks that the rules imply what users rely on, and enumerates the drivers   *)
(* (sequences of public calls) that are replayed on the implementation.         *)
EXTENDS Lifecycle, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Budget, Depth, Calls
VARIABLES s, c, ncb, ngiven, nback, stopAt

Cfgs == [loop : BOOLEAN, hist : BOOLEAN, arch : BOOLEAN, internal : BOOLEAN]
Events(x) ==
  [k : {"infill"}, n : 0..Budget + 1, stamps : {<<>>, <<x.g>>, <<x.g + 1>>}, nil : BOOLEAN, force : BOOLEAN, out : {<<>>, <<1>>, <<2>>}]
  \cup [k : {"eval"}, rows : {1}] \cup [k : {"adv"}, n : 0..Budget + 1]
  \cup [k : {"term"}, n : 0..Budget + 1, stop : {x.g >= stopAt}]
  \cup [k : {"disp"}, n : 0..Budget + 1] \cup [k : {"cb-init"}]
  \cup [k : {"cb"}, st : {x.g}, n : 0..Budget + 1, hist : 0..Budget, histn : {[j \in 1..i |-> j] : i \in 0..Budget}, same : {TRUE}, off : {TRUE}]
  \cup [k : {"arch"}, out : {<<>>, <<1>>, <<2>>}] \cup [k : {"fin"}]
  \cup [k : {"done"}, n : 0..Budget + 2, init : BOOLEAN, next : BOOLEAN, result : BOOLEAN, off : {TRUE}]

Init == s = Fresh /\ c \in Cfgs /\ ncb = 0 /\ ngiven = 0 /\ nback = 0 /\ stopAt \in 1..Budget
Next == \E e \in Events(s) :
          /\ Breaks(c, s, e) = {}
          /\ e.k = "eval" => s.rows < 2 * Budget
          /\ s' = Apply(c, s, e)
          /\ ncb' = IF e.k = "cb" THEN ncb + 1 ELSE ncb
          /\ ngiven' = IF e.k = "infill" THEN ngiven + 1 ELSE ngiven
          /\ nback' = IF e.k = "done" THEN nback + 1 ELSE nback
          /\ ngiven' <= 2 * Budget
          /\ UNCHANGED <<c, stopAt>>
vars == <<s, c, ncb, ngiven, nback, stopAt>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

CounterExact == s.g = s.done + 1
SnapsOne == s.snaps = [j \in 1..(s.done + (IF s.ph = "cb" THEN 1 ELSE 0)) |-> j]
CallbackOnce == ncb = s.done + (IF s.ph = "cb" THEN 1 ELSE 0)
Alternate == ngiven = nback + (IF s.ph = "idle" THEN 0 ELSE 1)
StopsExactly == s.done <= stopAt /\ (s.fin => s.g >= stopAt)
NothingAfterEnd == s.stop /\ s.ph = "idle" => s.fin /\ s.done = stopAt
Inv == SnapsOne /\ CounterExact /\ CallbackOnce /\ Alternate /\ StopsExactly /\ NothingAfterEnd
Monotone == [][s'.g \in {s.g, s.g + 1} /\ s'.done >= s.done]_vars
(* a finished run cannot continue: every behaviour of a generational run ends finalised *)
Ends == ~c.loop => <>(s.ph = "idle" /\ s.stop)

(* driver programs *)
Progs == UNION {[1..d -> Calls] : d \in 0..Depth}
Write == ndJsonSerialize(IOEnv.OUT_FILE, SetToSeq({[calls |-> p, budget |-> b] : p \in Progs, b \in 1..Budget}))
ASSUME IF "OUT_FILE" \in DOMAIN IOEnv THEN Write ELSE TRUE
=============================================================================
