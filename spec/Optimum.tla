------------------------------- MODULE Optimum -------------------------------
(* What an optimizer may report. A population is a sequence of members          *)
(* [f |-> objective vector, cv |-> violation]; S ranges over sets of positions.  *)
EXTENDS Dominance
FeasSet(P, S) == {i \in S : P[i].cv <= 0}
LeastViolated(P, S) == {i \in S : \A j \in S : P[i].cv <= P[j].cv}
(* the best of the members S: feasible ones that no feasible one dominates,      *)
(* or else the least violated ones                                             *)
BestOf(P, S) == LET A == FeasSet(P, S) IN
             IF A # {} THEN {i \in A : \A j \in A : ~Dom(P[j].f, P[i].f)} ELSE LeastViolated(P, S)
Best(P) == BestOf(P, 1..Len(P))
Multi(P) == Len(P) > 0 /\ Len(P[1].f) > 1
AnyFeas(P, S) == FeasSet(P, S) # {}

(* the filter: R is the sequence of positions returned (<<0>> = nothing at all) *)
FilterOK(P, least, R) ==
  IF Len(P) = 0 \/ (~AnyFeas(P, 1..Len(P)) /\ ~least) THEN R = <<0>>
  ELSE /\ NoDup(R) /\ RangeOf(R) \subseteq Best(P)
       /\ IF Multi(P) /\ AnyFeas(P, 1..Len(P)) THEN RangeOf(R) = Best(P) ELSE Len(R) = 1

(* names of rules broken by a report. P: members of pop, previous and current     *)
(* report; pop, opt, prev, off: their positions in P. style:                    *)
(*  "exact" all of the best members of the population                            *)
(*  "some"  some of them (reference-vector methods: those next to a direction)    *)
(*  "sofar" one of the best of the population and what was reported before        *)
(*  "niche" one member per niche, the best one among them                      *)
(*  "whole" every feasible member of the population                              *)
(*  "arch"  an archive: best members of everything it reports and holds           *)
Times(q, i) == Cardinality({j \in 1..Len(q) : q[j] = i})
Max2(a, b) == IF a > b THEN a ELSE b
If(b, nm) == IF b THEN {} ELSE {nm}
ReportBreaks(style, P, pop, opt, prev) ==
  LET S == RangeOf(pop)
      O == RangeOf(opt)
      V == RangeOf(prev)
      feas == AnyFeas(P, S) IN
  If(S # {} => O # {}, "optimum-empty")
  \cup If(\A i \in O : Times(opt, i) <= Max2(1, Times(pop, i)), "optimum-repeated")
  \cup If(AnyFeas(P, S) => \A i \in O : P[i].cv <= 0, "infeasible-reported-although-feasible-exist")
  \cup If(AnyFeas(P, O) \/ Len(opt) = 1, "several-infeasible-reported")
  \cup CASE style = "exact" ->
              If(O \subseteq S, "reported-is-not-in-population")
              \cup If(O \subseteq BestOf(P, S), "reported-is-not-best")
              \cup If((feas /\ Multi(P)) => BestOf(P, S) \subseteq O, "best-member-not-reported")
         [] style = "some" ->
              If(O \subseteq S, "reported-is-not-in-population")
              \cup If(O \subseteq BestOf(P, S), "reported-is-not-best")
         [] style = "niche" ->
              If(O \subseteq S, "reported-is-not-in-population")
              \cup If(BestOf(P, S) \cap O # {}, "no-best-member-reported")
         [] style = "sofar" ->
              If(O \subseteq S \cup V, "reported-is-not-in-population")
              \cup If(O \subseteq BestOf(P, S \cup V), "reported-is-not-best")
         [] style = "whole" ->
              If(O \subseteq S, "reported-is-not-in-population")
              \cup If(feas => O = FeasSet(P, S), "feasible-member-not-reported")
              \cup If(~feas => O \subseteq BestOf(P, S), "reported-is-not-best")
         [] style = "arch" ->
              If(O \subseteq BestOf(P, O \cup S), "reported-is-not-best")

(* the result object: r = [opt |-> positions or <<0>>, x, f, g, h: identities of the rows of      *)
(* X, F, (G), (H), flat: given as a single row, none: nothing given, success, msg]                *)
ResultBreaks(P, opt, least, ids, r) ==
  LET O == RangeOf(opt)
      some == Len(opt) > 0
      feas == some /\ AnyFeas(P, O) IN
  If(r.success <=> feas, "success-flag-wrong")
  \cup If(r.msg = (IF feas THEN "ok" ELSE IF ~some THEN "empty" ELSE IF least THEN "least" ELSE "infeasible"), "message-wrong")
  \cup If(r.none <=> ~(feas \/ (some /\ least)), "values-given-or-missing-wrongly")
  \cup IF r.none THEN {} ELSE
       If(IF feas THEN r.opt = opt ELSE Len(r.opt) = 1 /\ r.opt[1] \in LeastViolated(P, O), "result-optimum-differs-from-algorithm")
       \cup If(\A k \in {"x", "f", "g", "h"} : r[k] = [j \in 1..Len(r.opt) |-> ids[r.opt[j]][k]], "result-rows-differ-from-optimum")
=============================================================================
