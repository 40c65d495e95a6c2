----------------------------- MODULE MC_Decomp -----------------------------
(* Sub-problems with neighbourhoods: every short history of offspring on a grid.       *)
EXTENDS Niching, TLC, Json
CONSTANTS W, T, G, R, Kind
VARIABLES pop, z, hist, pop0
vars == <<pop, z, hist, pop0>>
Pts == [1..2 -> 0..G]
RECURSIVE MinAll(_, _)
MinAll(p, i) == IF i = 1 THEN p[1] ELSE MinPt(p[i], MinAll(p, i - 1))
Dirs == CASE W = 3 -> <<<<0, 2>>, <<1, 1>>, <<2, 0>>>> [] W = 4 -> <<<<0, 3>>, <<1, 2>>, <<2, 1>>, <<3, 0>>>>
Nbs(k) == {N \in SUBSET (1..W) : Cardinality(N) = T /\ k \in N /\ \A a \in N : \A b \in (1..W) \ N : D2(Dirs[k], Dirs[a]) <= D2(Dirs[k], Dirs[b])}
Hood(k) == CHOOSE N \in Nbs(k) : TRUE
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o SeqOf(S \ {x})
Cfg == [W |-> Dirs, nb |-> [k \in 1..W |-> SeqOf(Hood(k))], kind |-> Kind, theta |-> 5]
Init == /\ pop \in [1..W -> {<<0, G>>, <<G, 0>>, <<G, G>>}] /\ pop0 = pop
        /\ z = MinAll(pop, W) /\ hist = <<>>
Off(k, f) == /\ Len(hist) < R
             /\ z' = MinPt(z, f)
             /\ pop' = FoldReplace(Cfg, pop, z', <<f>>, <<k>>, 1)
             /\ hist' = Append(hist, f) /\ UNCHANGED pop0
Next == \E k \in 1..W : \E f \in Pts : Off(k, f)
Spec == Init /\ [][Next]_vars
Ideal == \A i \in 1..W : \A j \in 1..2 : z[j] <= pop[i][j]
(* never worse in its own sub-problem, measured with the ideal point of the moment *)
Monotone == [][\A i \in 1..W : Scal(Kind, pop'[i], z', Dirs[i], 5) <= Scal(Kind, pop[i], z', Dirs[i], 5)]_vars
IdealNever == [][\A j \in 1..2 : z'[j] <= z[j]]_vars
Touched == [][\E k \in 1..W : \A i \in 1..W : pop'[i] # pop[i] => i \in Hood(k)]_vars
EmitInv == Len(hist) = R => PrintT("PATH " \o ToJson([W |-> W, T |-> T, pop |-> pop0, offs |-> hist]))
=============================================================================
