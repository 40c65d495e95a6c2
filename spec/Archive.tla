------------------------------- MODULE Archive -------------------------------
(* The archive of best solutions. Members [x |-> identity of the variables,      *)
(* f |-> objectives, cv |-> violation] are referred to by positions in the       *)
(* sequence P of everything offered; an archive is a sequence of positions.      *)
(* cap = 0: unlimited; trunc: what is left when the capacity is exceeded.        *)
EXTENDS Optimum
Twin(P, i, j) == P[i].x = P[j].x
(* positions one of which duplicates the other are represented by one of them *)
NoTwins(P, R) == \A a, b \in 1..Len(R) : a # b => ~Twin(P, R[a], R[b])
Represented(P, i, S) == \E j \in S : i = j \/ Twin(P, i, j)
Classes(P, S) == {{j \in S : j = i \/ Twin(P, i, j)} : i \in S}

(* ---- one insertion: the receiver held old, the batch off was offered, res is returned, *)
(* the receiver holds after afterwards; elim: duplicates are eliminated                 *)
AddBreaks(P, old, off, res, after, cap, trunc, elim) ==
  LET S == RangeOf(old) \cup RangeOf(off)
      B == BestOf(P, S)
      R == RangeOf(res)
      many == IF elim THEN Cardinality(Classes(P, B)) ELSE Cardinality({i \in 1..Len(old) : old[i] \in B}) + Cardinality({i \in 1..Len(off) : off[i] \in B})
      cut == cap > 0 /\ many > cap IN
  If(R \subseteq S, "member-was-never-offered")
  \cup If(R \cap S \subseteq B, "member-is-not-best")
  \cup If(NoDup(res) /\ (elim => NoTwins(P, res)), "member-duplicated")
  \cup If(~cut => \A i \in B : IF elim THEN Represented(P, i, R) ELSE i \in R, "best-not-kept")
  \cup If(cut => Len(res) = trunc, "truncated-to-another-size")
  \cup If(cap > 0 => Len(res) <= cap, "capacity-exceeded")
  \cup If(after = old, "receiver-changed")

(* ---- what holds after any history: all = number of positions offered, cut = positions lost to the capacity *)
HistoryBreaks(P, all, res, cut, cap) ==
  LET O == 1..all
      R == RangeOf(res)
      covers(j, i) == i = j \/ Twin(P, i, j) \/ (Dom(P[j].f, P[i].f) /\ P[j].cv <= 0) IN
  If(\A i, j \in R : P[i].cv <= 0 /\ P[j].cv <= 0 => ~Dom(P[i].f, P[j].f), "one-member-dominates-another")
  \cup If(O # {} => R # {}, "archive-empty")
  \cup If(AnyFeas(P, O) => \A i \in R : P[i].cv <= 0, "infeasible-kept")
  \cup If(\A i \in FeasSet(P, O) : \E j \in R \cup cut : P[j].cv <= 0 /\ covers(j, i), "offered-lost")
  \cup If(~AnyFeas(P, O) => \A i \in R : i \in LeastViolated(P, O), "not-the-least-violation")
  \cup If((cut = {}) => \A i \in BestOf(P, O) : Represented(P, i, R), "best-offered-lost")
=============================================================================
