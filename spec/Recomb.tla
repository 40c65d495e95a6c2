------------------------------- MODULE Recomb -------------------------------
(* Variation: what offspring of given parents may look like, operator by operator.  *)
(* Parents and offspring are rows of gene codes; equal codes are equal genes.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
Pos(r) == 1..Len(r)
Genes(r) == {r[j] : j \in Pos(r)}
IsPerm(r, of) == Len(r) = Len(of) /\ Genes(r) = Genes(of) /\ Cardinality(Genes(r)) = Len(r)
Diff(p, q) == {j \in Pos(p) : p[j] # q[j]}

(* -------------------------------------------------------------- exchange -------- *)
Ex(p, q, M) == [j \in Pos(p) |-> IF j \in M THEN q[j] ELSE p[j]]
Half(x) == (x + 1) \div 2
Min(a, b) == IF a < b THEN a ELSE b
(* positions behind an odd number of cuts; a cut c lies between c and c + 1 *)
Behind(C, n) == {j \in 1..n : Cardinality({c \in C : c < j}) % 2 = 1}
Arc(s, len, n) == {((s - 1 + d) % n) + 1 : d \in 0..(len - 1)}
Cuts(k, n) == {C \in SUBSET (1..(n - 1)) : Cardinality(C) = Min(k, n - 1)}
Masks(op, k, p, q) ==
  LET n == Len(p) IN
  CASE op = "uniform" -> SUBSET (1..n)
    [] op = "half" -> {M \in SUBSET Diff(p, q) : Cardinality(M) = Half(Cardinality(Diff(p, q)))}
    [] op = "points" -> {Behind(C, n) : C \in Cuts(k, n)}
    [] op = "arc" -> {Arc(s, len, n) : s \in 1..n, len \in 1..n}
    [] op = "binomial" -> (SUBSET (1..n)) \ {1..n}
Children(p, q, M, noff) == IF noff = 1 THEN <<Ex(p, q, M)>> ELSE <<Ex(p, q, M), Ex(q, p, M)>>
Families(op, k, p, q, noff) == {Children(p, q, M, noff) : M \in Masks(op, k, p, q)}
(* the same question for long rows, answered from the positions that changed *)
LongMask(op, k, p, q, M) ==
  LET n == Len(p)
      cuts == {c \in 1..(n - 1) : (c \in M) # ((c + 1) \in M)} IN
  CASE op = "uniform" -> TRUE
    [] op = "half" -> Cardinality(M) = Half(Cardinality(Diff(p, q)))
    [] op = "points" -> Diff(p, q) # 1..n \/ (1 \notin M /\ Cardinality(cuts) = Min(k, n - 1))
    [] op = "arc" -> Diff(p, q) # 1..n \/ (M # {} /\ Cardinality({j \in 1..n : j \in M /\ ((j % n) + 1) \notin M}) <= 1)
    [] op = "binomial" -> Diff(p, q) # 1..n \/ M # 1..n
Exchange(e) ==
  LET p == e.par[1] q == e.par[2] o == e.off n == Len(p)
      ok == Len(o) = e.noff /\ \A i \in 1..Len(o) : Len(o[i]) = n IN
  IF ~ok THEN {"shape"} ELSE
  If(\A i \in 1..Len(o) : \A j \in 1..n : o[i][j] \in {p[j], q[j]}, "gene-from-nowhere")
  \cup If(Len(o) # 2 \/ \A j \in 1..n : (o[1][j] = p[j] /\ o[2][j] = q[j]) \/ (o[1][j] = q[j] /\ o[2][j] = p[j]), "not-complementary")
  \cup If(IF n <= 5 THEN o \in Families(e.op, e.points, p, q, e.noff) ELSE LongMask(e.op, e.points, p, q, {j \in 1..n : o[1][j] # p[j]}), "not-an-exchange-of-this-operator")
(* over many draws exactly the families of the definition come out *)
Cover(e) ==
  LET seen == {e.seen[i] : i \in 1..Len(e.seen)} all == Families(e.op, e.points, e.par[1], e.par[2], e.noff) IN
  If(seen \subseteq all, "family-outside-the-definition") \cup If(all \subseteq seen, "family-never-produced")

(* ------------------------------------------------------------------ orders ------ *)
Filter(r, S) == SelectSeq(r, LAMBDA v : v \notin S)
Rotate(r, s) == [k \in Pos(r) |-> r[((s - 1 + k - 1) % Len(r)) + 1]]
OXChild(rec, don, s, t, shift) ==
  LET d == SubSeq(don, s, t)
      rest == Filter(IF shift THEN Rotate(rec, s) ELSE rec, Genes(d)) IN
  SubSeq(rest, 1, s - 1) \o d \o SubSeq(rest, s, Len(rest))
Segments(n) == IF n = 1 THEN {<<1, 1>>} ELSE {<<s, t>> \in (1..n) \X (1..n) : s < t}
OXFamilies(p, q, shift) == {<<OXChild(p, q, g[1], g[2], shift), OXChild(q, p, g[1], g[2], shift)>> : g \in Segments(Len(p))}
OX(e) ==
  If(\A i \in 1..Len(e.off) : IsPerm(e.off[i], e.par[1]), "not-a-permutation")
  \cup If(e.off \in OXFamilies(e.par[1], e.par[2], e.shift), "donor-segment-or-receiver-order-lost")
OXCover(e) ==
  LET seen == {e.seen[i] : i \in 1..Len(e.seen)} all == OXFamilies(e.par[1], e.par[2], e.shift) IN
  If(seen \subseteq all, "family-outside-the-definition") \cup If(all \subseteq seen, "family-never-produced")
At(r, v) == CHOOSE j \in Pos(r) : r[j] = v
Around(r, v) == LET n == Len(r) j == At(r, v) IN {r[(j % n) + 1], r[((j + n - 2) % n) + 1]} \ {v}
Adj(p, q, v) == Around(p, v) \cup Around(q, v)
(* the walk: next is a neighbour with fewest neighbours left, any left one if there is none *)
NextOf(p, q, done, v) ==
  LET left == Genes(p) \ done
      nb == Adj(p, q, v) \cap left
      cnt(u) == Cardinality(Adj(p, q, u) \cap left) IN
  IF nb = {} THEN left ELSE {u \in nb : \A w \in nb : cnt(u) <= cnt(w)}
Prefix(r, k) == {r[j] : j \in 1..k}
ERX(e) ==
  LET y == e.off[1] IN
  IF ~(Len(e.off) = 1 /\ IsPerm(y, e.par[1])) THEN {"not-a-permutation"} ELSE
  If(\A k \in 1..(Len(y) - 1) : y[k + 1] \in NextOf(e.par[1], e.par[2], Prefix(y, k), y[k]), "edge-not-inherited")
Reversed(r, s, t) == [j \in Pos(r) |-> IF s <= j /\ j <= t THEN r[s + t - j] ELSE r[j]]
Inversions(r) == {Reversed(r, g[1], g[2]) : g \in Segments(Len(r))}

(* ------------------------------------------------- doing nothing, when not applied *)
TimesRow(rows, r) == Cardinality({i \in 1..Len(rows) : rows[i] = r})
Copies(e) ==
  LET n == Len(e.par) m == Len(e.off) IN
  If(m = e.noff, "wrong-number")
  \cup If(\A i \in 1..m : TimesRow(e.par, e.off[i]) > 0, "not-a-copy-of-a-parent")
  \cup If(m # n \/ e.off = e.par, "copies-out-of-order")
  \cup If(m >= n \/ \A i \in 1..m : TimesRow(e.off, e.off[i]) <= TimesRow(e.par, e.off[i]), "parent-used-twice")
  \cup If(m < n \/ \A i \in 1..n : TimesRow(e.off, e.par[i]) >= 1, "parent-left-out")

(* ------------------------------------------------------------- arithmetic ------- *)
AllEqualAt(P, j) == \A i \in 1..Len(P) : P[i][j] = P[1][j]
Arith(e) ==
  LET P == e.par n == Len(P[1]) IN
  If(Len(e.off) = e.noff /\ \A i \in 1..Len(e.off) : Len(e.off[i]) = n, "shape")
  \cup If(\/ e.op = "pcx" /\ \E j \in 1..n : ~AllEqualAt(P, j)
          \/ \A j \in 1..n : AllEqualAt(P, j) => \A i \in 1..Len(e.off) : e.off[i][j] = P[1][j], "equal-genes-changed")
  \cup If(e.op # "de" \/ (\E i \in 2..(Len(P) - 1) : i % 2 = 0 /\ P[i] # P[i + 1]) \/ (\A i \in 1..Len(e.off) : e.off[i] = P[1]), "zero-difference-moved")
  \cup If(~e.none \/ e.off = SubSeq(P, 1, e.noff) \/ (e.noff = 1 /\ e.off[1] \in {P[i] : i \in 1..Len(P)}), "not-a-copy-of-a-parent")

(* --------------------------------------------------------------- mutation ------- *)
Mutation(e) ==
  IF ~(Len(e.after) = Len(e.before) /\ \A i \in 1..Len(e.after) : Len(e.after[i]) = Len(e.before[i])) THEN {"shape"} ELSE
  If(~e.none \/ e.after = e.before, "changed-with-probability-zero")
  \cup If(\A i \in 1..Len(e.after) : \A j \in 1..Len(e.fixed) : e.fixed[j] => e.after[i][j] = e.before[i][j], "fixed-variable-changed")
  \cup If(e.op # "inversion" \/ \A i \in 1..Len(e.after) : e.after[i] \in Inversions(e.before[i]) \cup {e.before[i]}, "not-one-reversed-segment")
  \cup If(~(e.op = "inversion" /\ e.all) \/ \A i \in 1..Len(e.after) : e.after[i] \in Inversions(e.before[i]), "not-applied")
  \cup If(~(e.op = "flip" /\ e.all) \/ \A i \in 1..Len(e.after) : \A j \in Pos(e.after[i]) : e.after[i][j] = 1 - e.before[i][j], "not-applied")
  \cup If(e.op # "flip" \/ \A i \in 1..Len(e.after) : \A j \in Pos(e.after[i]) : e.after[i][j] \in 0..1, "no-longer-binary")
  \cup If(e.op # "choice" \/ \A i \in 1..Len(e.after) : \A j \in Pos(e.after[i]) : e.after[i][j] \in Genes(e.options[j]), "not-a-choice")
  \cup (IF e.inplace THEN If(e.same, "other-individuals-returned") ELSE If(e.given = e.before, "given-individuals-changed"))
(* cnt of n applications with probability p / 10: within six standard deviations *)
Rate(e) == LET d == 10 * e.cnt - e.n * e.p IN If(d * d <= 36 * e.n * e.p * (10 - e.p), "rate-is-not-the-probability")
=============================================================================
