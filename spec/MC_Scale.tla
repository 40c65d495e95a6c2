------------------------------ MODULE MC_Scale -------------------------------
(* Small cases of every rule of Scale: laws, and the cases for the replay. *)
EXTENDS Scale, TLC, Json
CONSTANTS Bounds, MaxOps
VARIABLES c
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Leaf == {<<"a">>, <<"b">>, <<"g", "a">>, <<"g", "h", "a">>, <<"g", "h", "b">>}
Ops == {"add", "clear", "look"}
B0 == Bounds \cup {NA, 0 - 2}
Init == \/ \E xl, xu \in [1..2 -> B0] : c = [k |-> "norm", xl |-> xl, xu |-> xu]
        \/ \E mu \in Seqs({0, 1, 2, 7, 99}, 1, 5) : c = [k |-> "outl", mu |-> mu]
        \/ \E s \in {NA, 0, 1, 2, 3}, o \in Seqs(Ops, 1, MaxOps) : c = [k |-> "win", size |-> s, ops |-> o]
        \/ \E v \in Seqs(0..3, 1, 4), b \in BOOLEAN : (\E i \in 1..Len(v) : IF b THEN v[i] > 0 ELSE v[i] < Max(Rng(v))) /\ c = [k |-> "wheel", val |-> v, larger |-> b]
        \/ \E A \in Seqs(0..2, 1, 4), b \in BOOLEAN : c = [k |-> "sort", A |-> A, up |-> b]
        \/ \E f \in [Leaf -> 0..3], b \in BOOLEAN, fl \in {"default", "other"} : c = [k |-> "params", leaves |-> {[path |-> p, id |-> f[p]] : p \in {p \in Leaf : f[p] > 0}}, active |-> b, flag |-> fl]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
RECURSIVE Run(_, _, _)
Run(s, o, i) == IF i > Len(o) THEN s ELSE Run(WinNext(s, [op |-> o[i], v |-> i, size |-> c.size]), o, i + 1)
Laws ==
  CASE c.k = "norm" -> \A j \in 1..2 : LET l == c.xl[j] u == c.xu[j] k == Kind(l, u) IN
           /\ k = "both" => Fwd(l, u, l) = 0 /\ Fwd(l, u, u) = U /\ Bwd(l, u, 0) = 4 * l /\ Bwd(l, u, 4) = 4 * u
           /\ k # "bad" => \A x \in 0 - 3..3 : (k # "equal" => U * Bwd(l, u, 4 * x) = U * 4 * (IF k = "both" THEN l + x * (u - l) ELSE Bwd(l, u, 4 * x) \div 4)) /\ (k = "equal" => Bwd(l, u, x) = 4 * l)
           /\ k \in {"none", "lower", "upper"} => \A x \in 0 - 3..3 : Bwd(l, u, (4 * Fwd(l, u, x)) \div U) = 4 * x
    [] c.k = "outl" -> LET I == {i \in 1..Len(c.mu) : c.mu[i] # 99} O == Outl(c.mu, I) IN
           O # {} /\ \A S \in O : S \subseteq I /\ \A i \in S, k \in I : c.mu[k] > c.mu[i] => k \in S
    [] c.k = "win" -> LET w == Run(<<>>, c.ops, 1) IN (c.size # NA => Len(w) <= c.size) /\ \A i \in 1..Len(w) - 1 : w[i] < w[i + 1]
    [] c.k = "wheel" -> \A k \in 0..11 : Cardinality({g \in 1..Len(c.val) : Wheel([val |-> c.val, larger |-> c.larger, d |-> 12, ks |-> <<k>>, got |-> <<g>>, raised |-> FALSE]) = {}}) >= 1
    [] c.k = "sort" -> \E p \in Perms(Len(c.A)) : Sorted(c.A, p, c.up)
    [] OTHER -> TRUE
Emit == PrintT("PATH " \o ToJson(c))
=============================================================================
