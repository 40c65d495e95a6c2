------------------------------ MODULE Lifecycle ------------------------------
(* The generation protocol of a run, as a transition relation over observable   *)
(* events.  State s:                                                            *)
(*   g     number of the generation in progress (1 = the initial one)           *)
(*   ph    "idle" | "given" | "none" | "adv" | "term" | "disp" | "cb"           *)
(*   out   identities of the candidates handed out and not yet handed back      *)
(*   done  completed generations      evald: candidates seen by the problem     *)
(*   arch  archive updated in this advance      fin: run finalised              *)
(*   stop  value of the stopping criterion at its last update                   *)
(*   snaps what each completed generation looked like to the callback          *)
(*   rows  solutions submitted to the problem so far                            *)
(* Configuration c: loop (step-wise optimizer), hist (history kept),            *)
(*   internal (a dynamic optimizer that generates and evaluates inside a step)  *)
(*   arch (an archive is attached)                                              *)
(* Events carry a field k naming their kind.                                    *)
EXTENDS Naturals, Sequences, FiniteSets

Fresh == [g |-> 1, ph |-> "idle", out |-> <<>>, done |-> 0, arch |-> FALSE, fin |-> FALSE,
          stop |-> FALSE, rows |-> 0, inited |-> FALSE, cbinit |-> FALSE, snaps |-> <<>>]

(* names of the rules that event e breaks in state s *)
Breaks(c, s, e) ==
  LET If(b, nm) == IF b THEN {} ELSE {nm} IN
  CASE e.k = "infill" ->
         If(s.ph = "idle", "candidates-requested-before-previous-were-handed-back")
         \cup If(~s.stop, "new-generation-after-the-end")
         \cup If(e.n = s.g, "generation-counter-wrong-at-infill")
         \cup If(\A j \in 1..Len(e.stamps) : e.stamps[j] = s.g, "candidate-stamped-with-wrong-generation")
         \cup If(e.nil => (e.force \/ c.loop \/ c.internal), "no-candidates-without-reason")
         \cup If(e.nil \/ Len(e.stamps) > 0, "empty-candidate-set")
         \cup If((Len(e.out) > 0) = ~e.nil /\ (Len(e.stamps) > 0) = ~e.nil, "candidates-inconsistent")
    [] e.k = "eval" ->
         If(s.ph \in {"given", "adv"}, "evaluation-outside-a-generation")
    [] e.k = "adv" ->
         If(s.ph \in {"given", "none"}, "advance-without-candidates-handed-out")
         \cup If(e.n = s.g, "generation-counter-wrong-at-advance")
    [] e.k = "term" ->
         If(s.ph = "adv", "criterion-updated-outside-generation-end")
         \cup If(e.n = s.g, "criterion-sees-wrong-generation")
    [] e.k = "disp" ->
         If(s.ph = "term", "display-not-after-criterion")
         \cup If(e.n = s.g, "display-sees-wrong-generation")
    [] e.k = "cb-init" ->
         If(s.ph = "disp", "callback-initialised-at-wrong-point")
         \cup If(~s.cbinit /\ s.done = 0, "callback-initialised-again")
    [] e.k = "cb" ->
         If(s.ph = "disp", "callback-not-after-display")
         \cup If(s.cbinit, "callback-not-initialised")
         \cup If(e.n = s.g, "callback-sees-wrong-generation")
         \cup If(e.hist = (IF c.hist THEN s.g ELSE 0), "history-length-wrong")
         \cup If(c.hist => e.histn = [j \in 1..s.g |-> j], "history-entries-wrong")
         \cup If(e.same, "history-entry-differs-from-state")
         \cup If(e.off, "current-offspring-not-the-candidates")
    [] e.k = "arch" ->
         If(c.arch /\ s.ph \in {"cb", "adv"} /\ Len(s.out) > 0, "archive-updated-outside-advance")
         \cup If(~s.arch, "archive-updated-twice")
         \cup If(e.out = s.out, "archive-given-other-solutions")
    [] e.k = "fin" ->
         If(s.ph \in {"cb", "adv"} /\ s.stop, "finalised-before-the-end")
         \cup If(~s.fin, "finalised-twice")
    [] e.k = "done" ->
         If(s.ph = "cb" \/ (s.ph = "adv" /\ c.loop /\ s.inited), "generation-incomplete")
         \cup If(e.n = (IF s.ph = "cb" THEN s.g + 1 ELSE s.g), "generation-counter-wrong-after-advance")
         \cup If(e.init, "not-initialised-after-first-generation")
         \cup If(e.next = ~s.stop, "has-next-disagrees-with-criterion")
         \cup If(s.stop => s.fin, "not-finalised-at-the-end")
         \cup If(~s.stop => ~s.fin, "finalised-early")
         \cup If(e.result = s.stop, "result-returned-at-wrong-time")
         \cup If(e.off, "offspring-attribute-not-the-candidates")
         \cup If(s.arch = (c.arch /\ Len(s.out) > 0), "archive-not-updated")
    (* what the entries of the history look like after the run: each still shows its generation *)
    [] e.k = "past" -> If(e.st = s.snaps, "history-entry-changed-later")
    [] e.k = "end" ->
         If(s.ph = "idle", "run-ended-inside-a-generation")
         \cup If(s.stop, "run-ended-before-criterion")
         \cup If(e.extra = 0, "activity-after-the-end")
         \cup If(e.gens = s.done, "completed-generations-miscounted")
    [] OTHER -> {"raised"}

Apply(c, s, e) ==
  CASE e.k = "infill" -> [s EXCEPT !.ph = IF e.nil THEN "none" ELSE "given", !.out = e.out, !.arch = FALSE]
    [] e.k = "eval"   -> [s EXCEPT !.rows = @ + e.rows]
    [] e.k = "adv"    -> [s EXCEPT !.ph = "adv"]
    [] e.k = "term"   -> [s EXCEPT !.ph = "term", !.stop = e.stop]
    [] e.k = "disp"   -> [s EXCEPT !.ph = "disp"]
    [] e.k = "cb-init"-> [s EXCEPT !.cbinit = TRUE]
    [] e.k = "cb"     -> [s EXCEPT !.ph = "cb", !.snaps = Append(@, e.st)]
    [] e.k = "arch"   -> [s EXCEPT !.arch = TRUE]
    [] e.k = "fin"    -> [s EXCEPT !.fin = TRUE]
    [] e.k = "done"   -> IF s.ph = "cb" THEN [s EXCEPT !.ph = "idle", !.done = @ + 1, !.g = @ + 1, !.out = <<>>, !.inited = TRUE]
                         ELSE [s EXCEPT !.ph = "idle", !.out = <<>>]
    [] OTHER -> s
=============================================================================
