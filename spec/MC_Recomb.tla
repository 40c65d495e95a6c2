----------------------------- MODULE MC_Recomb -----------------------------
(* Every pair of short parents: exchange families, order crossover with every        *)
(* segment, and the edge-recombination walk of every pair of permutations.           *)
EXTENDS Recomb, TLC, Json
CONSTANTS N, K, NP, All
VARIABLES kind, p, q, y
vars == <<kind, p, q, y>>
Perms(n) == {r \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : i # j => r[i] # r[j]}
Id(n) == [j \in 1..n |-> j - 1]
Init == /\ y = <<>>
        /\ \/ kind = "genes" /\ \E n \in 1..N : p \in [1..n -> 0..K] /\ q \in [1..n -> 0..K]
           \/ kind = "perm" /\ \E n \in 1..NP : p \in (IF All \/ n < NP THEN Perms(n) ELSE {Id(n)}) /\ q \in Perms(n)
Walk == /\ kind = "perm" /\ Len(y) < Len(p)
        /\ \E u \in (IF y = <<>> THEN Genes(p) ELSE NextOf(p, q, Genes(y), y[Len(y)])) : y' = Append(y, u)
        /\ UNCHANGED <<kind, p, q>>
Next == Walk
Spec == Init /\ [][Next]_vars
(* the walk never gets stuck and never visits twice *)
WalkInv == kind = "perm" => /\ Cardinality(Genes(y)) = Len(y)
                            /\ ((Len(y) < Len(p) /\ y # <<>>) => NextOf(p, q, Genes(y), y[Len(y)]) # {})
(* a restart only where nothing adjacent is left *)
EdgeInv == \A k \in 1..(Len(y) - 1) : y[k + 1] \in Adj(p, q, y[k]) \/ Adj(p, q, y[k]) \subseteq Prefix(y, k)
PermInv == (kind = "perm" /\ y = <<>>) =>
  /\ \A sh \in BOOLEAN : \A f \in OXFamilies(p, q, sh) : IsPerm(f[1], p) /\ IsPerm(f[2], p)
  /\ \A g \in Segments(Len(p)) : /\ SubSeq(OXChild(p, q, g[1], g[2], FALSE), g[1], g[2]) = SubSeq(q, g[1], g[2])
                                 /\ Reversed(Reversed(p, g[1], g[2]), g[1], g[2]) = p /\ IsPerm(Reversed(p, g[1], g[2]), p)
  /\ p = q => \A sh \in {FALSE} : OXFamilies(p, q, sh) = {<<p, p>>}
Ops == {<<"uniform", 0>>, <<"half", 0>>, <<"points", 1>>, <<"points", 2>>, <<"points", 3>>, <<"arc", 0>>, <<"binomial", 0>>}
GeneInv == kind = "genes" => \A o \in Ops :
  LET F == Families(o[1], o[2], p, q, 2) IN
  /\ F # {}
  /\ F \subseteq Families("uniform", 0, p, q, 2)
  /\ \A f \in F : Ex(f[1], f[2], Diff(f[1], p)) = p /\ Diff(p, f[1]) \cup Diff(q, f[1]) = Diff(p, q)
  /\ \A M \in Masks(o[1], o[2], p, q) : LongMask(o[1], o[2], p, q, IF Diff(p, q) = 1..Len(p) \/ o[1] = "half" THEN M ELSE {})
  /\ Diff(p, q) = 1..Len(p) => \A M \in SUBSET (1..Len(p)) : LongMask(o[1], o[2], p, q, M) <=> M \in Masks(o[1], o[2], p, q)
  /\ p = q => F = {<<p, p>>}
Emit == PrintT("PATH " \o ToJson([kind |-> kind, p |-> p, q |-> q]))
EmitInit == y # <<>> \/ Emit
=============================================================================
