------------------------------ MODULE Replace --------------------------------
(* One-against-one replacement, the memories of swarms and the best-so-far.     *)
(* A solution is [x, cv, f]: x its place (equal places are duplicates), cv its  *)
(* violation (0: feasible), f its objective; all order-preserving integers.     *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
Better(a, b) == IF a.cv > 0 /\ b.cv > 0 THEN a.cv < b.cv
                ELSE IF a.cv = 0 /\ b.cv = 0 THEN a.f < b.f ELSE a.cv = 0
BetterEps(a, b, eps) == IF a.cv > 0 /\ b.cv > 0 THEN b.cv - a.cv > eps
                        ELSE IF a.cv = 0 /\ b.cv = 0 THEN b.f - a.f > eps ELSE a.cv = 0
NotWorse(a, b) == ~Better(b, a)
(* offspring i is where a member or an earlier offspring already is *)
Known(pop, off, i) == (\E j \in 1..Len(pop) : pop[j].x = off[i].x) \/ (\E j \in 1..(i - 1) : off[j].x = off[i].x)
Taken(pop, off) == {i \in 1..Len(off) : Better(off[i], pop[i]) /\ ~Known(pop, off, i)}
Replaced(pop, off) == [i \in 1..Len(pop) |-> IF i \in Taken(pop, off) THEN off[i] ELSE pop[i]]
BestOf(S) == CHOOSE a \in S : \A b \in S : NotWorse(a, b)
Range(q) == {q[i] : i \in 1..Len(q)}

(* state of a run: mem (best of what each particle visited), best (so far) *)
Fresh == [mem |-> <<>>, any |-> FALSE, best |-> [x |-> 0, cv |-> 0, f |-> 0], lastopt |-> <<>>, loc |-> <<>>]

Breaks(s, e) ==
  CASE e.k = "better" -> If(e.res = BetterEps(e.a, e.b, e.eps), "comparison-wrong")
    (* R: positions that are reported as replaced; after: i = member i kept, -i = offspring i took its place *)
    [] e.k = "repl" ->
         If(e.R \subseteq 1..Len(e.off) /\ \A i \in e.R : Better(e.off[i], e.pop[i]), "replaced-by-one-that-is-not-better")
         \cup If(\A i \in e.R : ~Known(e.pop, e.off, i), "replaced-by-a-duplicate")
         \cup If(Taken(e.pop, e.off) \subseteq e.R, "improvement-not-taken")
         \cup If(e.after = [i \in 1..Len(e.pop) |-> IF i \in e.R THEN 0 - i ELSE i], "other-positions-touched")
         \cup If(e.same, "population-passed-in-modified")
    (* by the order of a survival: strictly better is taken, strictly worse is not *)
    [] e.k = "torepl" ->
         If(\A i \in e.R : NotWorse(e.off[i], e.pop[i]), "replaced-by-a-worse-one")
         \cup If(\A i \in 1..Len(e.off) : Better(e.off[i], e.pop[i]) => i \in e.R, "improvement-not-taken")
         \cup If(e.after = [i \in 1..Len(e.pop) |-> IF i \in e.R THEN 0 - i ELSE i], "other-positions-touched")
    (* values v that represent (f, cv) without parameters: feasible before infeasible *)
    [] e.k = "less" -> If(\A i, j \in 1..Len(e.P) : Better(e.P[i], e.P[j]) => e.v[i] < e.v[j], "penalised-value-in-wrong-order")
         \cup If(\A i \in 1..Len(e.P) : e.P[i].cv = 0 => e.v[i] = e.P[i].f, "feasible-value-changed")
    [] e.k = "sorted" -> If({e.I[i] : i \in 1..Len(e.I)} = 1..Len(e.P) /\ Len(e.I) = Len(e.P), "not-an-order")
         \cup If(\A i, j \in 1..Len(e.I) : i < j => NotWorse(e.P[e.I[i]], e.P[e.I[j]]), "sorted-wrongly")
    (* one generation of a one-against-one optimizer. pop: before, off: offspring with their target (0: unknown);
       now[i] = j > 0: member j is at i, -j: offspring j is at i, 0: something else *)
    [] e.k = "gen" ->
         If(Len(e.now) = Len(e.pop), "population-size-changed")
         \cup If(\A i \in 1..Len(e.now) : e.now[i] = i \/ e.now[i] < 0, "member-lost-or-moved")
         \cup If(\A i \in 1..Len(e.now) : e.now[i] < 0 => Better(e.off[0 - e.now[i]], e.pop[i]), "replaced-by-one-that-is-not-better")
         \cup If(\A i \in 1..Len(e.now) : e.now[i] < 0 => e.tgt[0 - e.now[i]] \in {0, i}, "replaced-by-the-offspring-of-another")
         \cup If(\A j \in 1..Len(e.off) : LET i == e.tgt[j] IN
                   i > 0 /\ Better(e.off[j], e.pop[i]) /\ ~(\E k \in 1..Len(e.pop) : e.pop[k].x = e.off[j].x) /\ ~(\E k \in 1..Len(e.off) : k # j /\ e.off[k].x = e.off[j].x)
                   => e.now[i] = 0 - j, "improvement-not-taken")
    (* particles at P, their memories M *)
    [] e.k = "visit" ->
         If(Len(e.P) = Len(e.M) /\ (s.mem # <<>> => Len(s.mem) = Len(e.M)), "particles-lost")
         \cup (IF Len(e.P) # Len(e.M) \/ (s.mem # <<>> /\ Len(s.mem) # Len(e.M)) THEN {} ELSE
               LET old == IF s.mem = <<>> THEN e.P ELSE s.mem
                   dup(i) == \E j \in 1..Len(old) : old[j].x = e.P[i].x \/ (j < i /\ e.P[j].x = e.P[i].x) IN
               If(\A i \in 1..Len(e.M) : NotWorse(e.M[i], old[i]), "memory-became-worse")
               \cup If(\A i \in 1..Len(e.M) : e.M[i].x \in {old[i].x, e.P[i].x}, "memory-of-a-place-never-visited")
               \cup If(\A i \in 1..Len(e.M) : NotWorse(e.M[i], e.P[i]) \/ dup(i), "memory-not-the-best-visited")
               \cup If(\A i \in 1..Len(e.M) : e.M[i].x # old[i].x => Better(e.M[i], old[i]), "memory-replaced-without-improvement"))
    (* best of the memories of the neighbours nb[i] of every particle *)
    [] e.k = "local" ->
         If(\A i \in 1..Len(e.L) : \A j \in e.nb[i] : NotWorse(e.L[i], e.M[j]), "local-best-worse-than-a-neighbour")
         \cup If(\A i \in 1..Len(e.L) : s.loc = <<>> \/ NotWorse(e.L[i], s.loc[i]), "local-best-became-worse")
    (* what was evaluated since the last generation, and what is reported now *)
    [] e.k = "best" ->
         LET seen == Range(e.ev) \cup (IF s.any THEN {s.best} ELSE {}) IN
         If(Len(e.opt) > 0, "nothing-reported")
         \cup If(\A i \in 1..Len(e.opt) : s.lastopt = <<>> \/ \A j \in 1..Len(s.lastopt) : NotWorse(e.opt[i], s.lastopt[j]), "reported-best-became-worse")
         \cup If(e.full => \A i \in 1..Len(e.opt) : \A b \in seen : NotWorse(e.opt[i], b), "better-solution-was-lost")
    [] OTHER -> {"raised"}

Upd(s, e) ==
  CASE e.k = "visit" -> [s EXCEPT !.mem = e.M]
    [] e.k = "local" -> [s EXCEPT !.loc = e.L]
    [] e.k = "best" -> LET seen == Range(e.ev) \cup (IF s.any THEN {s.best} ELSE {}) IN
         [s EXCEPT !.any = seen # {}, !.best = IF seen = {} THEN @ ELSE BestOf(seen), !.lastopt = e.opt]
    [] OTHER -> s
=============================================================================
