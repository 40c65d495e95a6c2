------------------------------- MODULE Mating -------------------------------
(* Duplicate elimination and the infill loop. Solutions are numbers (equal number *)
(* = duplicates under the configured criterion); positions tell them apart.      *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
Range(q) == {q[i] : i \in DOMAIN q}
Distinct(q) == \A i, j \in DOMAIN q : i /= j => q[i] /= q[j]

(* ---- elimination: keys v of the given solutions, keys o of all they are compared with, kept the positions kept in order *)
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
ElimBreaks(v, o, toItself, kept) ==
  If(\A i \in DOMAIN kept : kept[i] \in DOMAIN v, "not-from-the-input")
  \cup If(Increasing(kept), "order-not-kept")
  \cup (IF ~(\A i \in DOMAIN kept : kept[i] \in DOMAIN v) THEN {} ELSE
        LET K == [i \in DOMAIN kept |-> v[kept[i]]] IN
        If(~toItself \/ Distinct(K), "duplicates-left")
        \cup If(Range(K) \cap Range(o) = {}, "duplicate-of-others-left")
        \cup If(Range(v) \ Range(o) \subseteq Range(K), "lost-without-a-duplicate")
        \cup If(toItself \/ \A i \in DOMAIN v : v[i] \in Range(o) \/ i \in Range(kept), "lost-without-a-duplicate"))
(* a criterion with a tolerance: near is the set of pairs <<i, j>>, i < j, within it *)
ElimNearBreaks(n, near, kept) ==
  LET K == Range(kept) IN
  If(K \subseteq 1..n, "not-from-the-input") \cup If(Increasing(kept), "order-not-kept")
  \cup If(\A i \in K, j \in K : <<i, j>> \notin near, "duplicates-left")
  \cup If(\A i \in (1..n) \ K : \E j \in 1..n : <<i, j>> \in near \/ <<j, i>> \in near, "lost-without-a-duplicate")

(* ---- the infill loop: offspring so far, batch drawn, after removing duplicates and surplus *)
FirstOf(q) == SelectSeq([i \in DOMAIN q |-> <<i, q[i]>>], LAMBDA e : \A j \in 1..(e[1] - 1) : q[j] /= e[2])
Keys(q) == [i \in DOMAIN q |-> q[i][2]]
Fresh(batch, pop, off) == Keys(SelectSeq(FirstOf(batch), LAMBDA e : e[2] \notin Range(pop) \cup Range(off)))
Cut(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
Infill(pop, off, n, batch) == off \o Cut(Fresh(batch, pop, off), n - Len(off))
More(off, n, tries, max) == Len(off) < n /\ tries < max

(* ---- what a finished call must satisfy: off the keys of the candidates, n wanted, tries used of max *)
OffBreaks(pop, off, n, tries, max) ==
  If(Distinct(off), "duplicate-candidates") \cup If(Range(off) \cap Range(pop) = {}, "duplicate-of-population")
  \cup If(Len(off) <= n, "too-many-candidates") \cup If(Len(off) = n \/ tries >= max, "too-few-candidates")
  \cup If(tries <= max, "too-many-attempts")
=============================================================================
