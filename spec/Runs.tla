-------------------------------- MODULE Runs --------------------------------
(* Runs as values. A run is fully determined by its configuration, its seed and   *)
(* the generation it has reached: whatever else happens in the process - other     *)
(* runs, the global random generators, copies, serialisation, display - must not   *)
(* change what it does. memo remembers what every (configuration, seed,          *)
(* generation) looked like when it was first seen.                              *)
EXTENDS Integers, Sequences, FiniteSets
(* observed state: slots : run id -> [cfg, seed, gen]; memo : set of <<key, digest>>; g : digest of the global generators *)
Start0 == [slot |-> <<>>, memo |-> <<>>, g |-> 0]
Has(memo, k) == \E i \in 1..Len(memo) : memo[i][1] = k
Val(memo, k) == memo[CHOOSE i \in 1..Len(memo) : memo[i][1] = k][2]
Put(memo, k, d) == IF Has(memo, k) THEN memo ELSE Append(memo, <<k, d>>)
Agrees(memo, k, d) == ~Has(memo, k) \/ Val(memo, k) = d
IsSlot(s, r) == r \in 1..Len(s.slot)
Key(s, r) == <<s.slot[r].cfg, s.slot[r].seed, s.slot[r].gen>>
If(b, nm) == IF b THEN {} ELSE {nm}

Breaks(s, e) ==
  CASE e.k = "start" -> If(e.r = Len(s.slot) + 1, "bad-event") \cup If(s.g = e.g, "global-random-state-changed")
    (* one more generation of run r: d what it looks like, a false "done" or "more" is part of d *)
    [] e.k = "step" -> If(IsSlot(s, e.r), "bad-event")
         \cup (IF ~IsSlot(s, e.r) THEN {} ELSE
               LET k == [Key(s, e.r) EXCEPT ![3] = @ + 1] IN
               If(Agrees(s.memo, k, e.d), IF s.slot[e.r].copied THEN "resumed-run-differs" ELSE IF s.slot[e.r].shared THEN "run-disturbed-by-its-copy" ELSE "same-seed-differs"))
         \cup If(s.g = e.g, "global-random-state-changed")
    (* run r was copied to a new slot: both look as before *)
    [] e.k = "copy" -> If(e.to = Len(s.slot) + 1 /\ IsSlot(s, e.r), "bad-event")
         \cup (IF ~IsSlot(s, e.r) THEN {} ELSE
               If(s.slot[e.r].gen = 0 \/ Agrees(s.memo, Key(s, e.r), e.old), "copying-changed-the-original")
               \cup If(s.slot[e.r].gen = 0 \/ Agrees(s.memo, Key(s, e.r), e.new), "copy-differs-from-original"))
         \cup If(s.g = e.g, "global-random-state-changed")
    (* a whole run in one call: ds what its generations looked like *)
    [] e.k = "whole" -> If(\A i \in 1..Len(e.ds) : Agrees(s.memo, <<e.cfg, e.seed, i>>, e.ds[i]), "same-seed-differs")
         \cup If(Agrees(s.memo, <<e.cfg, e.seed, 0 - e.budget>>, Len(e.ds)), "same-seed-different-length")
         \cup If(Agrees(s.memo, <<e.cfg, e.seed, -1000 - e.budget>>, e.res), "same-seed-different-result")
         \cup If(s.g = e.g, "global-random-state-changed")
    (* run r has nothing more to do: how many generations it had, and what they led to *)
    [] e.k = "end" -> If(IsSlot(s, e.r), "bad-event")
         \cup (IF ~IsSlot(s, e.r) THEN {} ELSE
               If(Agrees(s.memo, <<s.slot[e.r].cfg, s.slot[e.r].seed, -2000 - e.budget>>, e.d), IF s.slot[e.r].copied THEN "resumed-run-leads-elsewhere" ELSE "run-leads-elsewhere")
               \cup If(Agrees(s.memo, <<s.slot[e.r].cfg, s.slot[e.r].seed, 0 - e.budget>>, s.slot[e.r].gen), IF s.slot[e.r].copied THEN "resumed-run-ends-elsewhere" ELSE "run-ends-elsewhere"))
    (* a finished run r is given a larger budget: it looks as it did *)
    [] e.k = "extend" -> If(IsSlot(s, e.r), "bad-event") \cup (IF ~IsSlot(s, e.r) THEN {} ELSE If(Agrees(s.memo, Key(s, e.r), e.d) /\ e.more, "does-not-continue"))
    (* what generation gen looks like, seen at the time or in the history afterwards *)
    [] e.k = "snap" -> If(Agrees(s.memo, <<e.cfg, e.seed, e.gen>>, e.d), "history-entry-changed")
    (* an object handed in by the user looks like d *)
    [] e.k = "arg" -> If(Agrees(s.memo, <<e.cfg, 0, 0>>, e.d), "object-passed-in-was-modified")
    [] e.k = "perturb" -> {}
    [] OTHER -> {"raised"}

Upd(s, e) ==
  CASE e.k = "start" -> [s EXCEPT !.slot = Append(@, [cfg |-> e.cfg, seed |-> e.seed, gen |-> 0, copied |-> FALSE, shared |-> FALSE])]
    [] e.k = "step" -> IF ~IsSlot(s, e.r) THEN s ELSE
         [s EXCEPT !.slot[e.r].gen = @ + 1, !.memo = Put(@, [Key(s, e.r) EXCEPT ![3] = @ + 1], e.d), !.g = e.g]
    [] e.k = "copy" -> IF ~IsSlot(s, e.r) THEN s ELSE
         [s EXCEPT !.slot = Append([@ EXCEPT ![e.r].shared = TRUE], [s.slot[e.r] EXCEPT !.copied = TRUE]), !.g = e.g]
    [] e.k = "whole" -> LET n == Len(e.ds)
                            F[i \in 0..n] == IF i = 0 THEN s.memo ELSE Put(F[i - 1], <<e.cfg, e.seed, i>>, e.ds[i]) IN
         [s EXCEPT !.memo = Put(Put(F[n], <<e.cfg, e.seed, 0 - e.budget>>, n), <<e.cfg, e.seed, -1000 - e.budget>>, e.res), !.g = e.g]
    [] e.k = "end" -> IF ~IsSlot(s, e.r) THEN s ELSE 
         [s EXCEPT !.memo = Put(Put(@, <<s.slot[e.r].cfg, s.slot[e.r].seed, 0 - e.budget>>, s.slot[e.r].gen), <<s.slot[e.r].cfg, s.slot[e.r].seed, -2000 - e.budget>>, e.d)]
    [] e.k = "snap" -> [s EXCEPT !.memo = Put(@, <<e.cfg, e.seed, e.gen>>, e.d)]
    [] e.k = "arg" -> [s EXCEPT !.memo = Put(@, <<e.cfg, 0, 0>>, e.d)]
    [] e.k = "perturb" -> [s EXCEPT !.g = e.g]
    [] OTHER -> s
=============================================================================
