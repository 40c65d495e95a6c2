------------------------------ MODULE MC_Report ------------------------------
(* All short histories of sets of solutions, of evaluation counts, of progress    *)
(* values and of window operations, with the laws of what is reported about them. *)
EXTENDS Report, TLC, Json
CONSTANTS Hi, Len2
VARIABLES c
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Pts == {<<x, y>> : x, y \in 0..Hi}
Chains == {S \in SUBSET Pts : Cardinality(S) \in 1..Hi + 1 /\ \A p, q \in S : ~Dom(p, q)}
RECURSIVE Ord(_)
Ord(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<x>> \o Ord(S \ {x})
\* a generation without anything feasible is the empty set
Gens == {Ord(S) : S \in Chains} \cup {<<>>}
Pfs == {<<<<0, 2>>, <<2, 0>>>>, <<<<0, 2>>, <<1, 1>>, <<3, 0>>>>}
Init == \/ \E h \in Seqs(Gens, 1, Len2), pf \in Pfs \cup {<<>>} : (Len(h) > 2 => pf = <<>>) /\ c = [k |-> "multi", h |-> h, pf |-> pf]
        \/ \E F \in Seqs(0 - 1..1, 1, 2), v \in Seqs(0..1, 2, 2), b \in {<<>>, <<<<0 - 1>>>>} : c = [k |-> "single", F |-> F, cv |-> SubSeq(v, 1, Len(F)), pf |-> b]
        \/ \E s \in Seqs({1, 2, 3, 5}, 1, 4), nth \in {0, 1, 3, 4} : c = [k |-> "rec", s |-> s, nth |-> nth, last |-> 0 - 1, at |-> 0, i |-> 0, hit |-> <<>>]
        \/ \E s \in Seqs({0, 2500, 2900, 5700, 10000}, 1, 4) : c = [k |-> "perc", s |-> s]
        \/ \E s \in Seqs({0, 1, 2}, 1, 5), z \in 0..3 : c = [k |-> "win", s |-> s, size |-> z, w |-> <<>>, i |-> 0]
Next == \/ /\ c.k = "rec" /\ c.i < Len(c.s)
           /\ LET e == c.at + c.s[c.i + 1] d == Due(c.last, e, c.nth) IN
              c' = [c EXCEPT !.i = c.i + 1, !.at = e, !.last = IF d THEN e ELSE c.last, !.hit = IF d THEN Append(c.hit, e) ELSE c.hit]
        \/ c.k = "win" /\ c.i < Len(c.s) /\ c' = [c EXCEPT !.i = c.i + 1, !.w = IF c.s[c.i + 1] = 0 THEN <<>> ELSE Window(c.w, c.s[c.i + 1], c.size)]
        \/ UNCHANGED c
Spec == Init /\ [][Next]_c
Laws ==
  CASE c.k = "multi" ->
         \A i \in 2..Len(c.h) : c.h[i] # <<>> /\ c.h[i - 1] # <<>> =>
           LET a == c.h[i - 1] b == c.h[i] IN
           /\ Eps(b, b, 0, 6)                                                \* nothing moves: no change
           /\ (SetOf(b) \subseteq SetOf(a) /\ Moved(b, a) = "f" => Eps(b, a, 0, 6))
           /\ (~SetOf(b) \subseteq SetOf(a) => ~Eps(b, a, 0, 6))
    [] c.k = "rec" -> \* never twice for the same count of n evaluations, and every count reached is recorded
         /\ \A i, j \in 1..Len(c.hit) : i < j /\ c.nth > 0 => c.hit[i] \div c.nth < c.hit[j] \div c.nth
         /\ (c.i > 0 /\ c.nth > 0 => c.hit[Len(c.hit)] \div c.nth = c.at \div c.nth)
    [] c.k = "win" -> (c.size > 0 => Len(c.w) <= c.size)
    [] OTHER -> TRUE
Start == CASE c.k \in {"rec", "win"} -> c.i = 0 [] OTHER -> TRUE
Emit == ~Start \/ PrintT("PATH " \o ToJson(c))
=============================================================================
