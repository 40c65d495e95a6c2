------------------------------ MODULE MC_Prefer ------------------------------
(* All rankings of up to N solutions obtained by insertion, all small sets of    *)
(* points with a value function and a split, products of sums, point sets.       *)
EXTENDS Prefer, TLC, Json
CONSTANTS N, Hi, Wide
VARIABLES c
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Pts == [1..2 -> 0..Hi]
Ws == {<<1, 1>>, <<2, 1>>, <<1, 3>>}
Init == \/ \E u \in Seqs(1..N, 1, N) : c = [k |-> "rank", u |-> u, i |-> 1, j |-> 1, gr |-> <<>>]
        \/ \E F \in Seqs(Pts, 1, 3), w \in Ws : \E b \in 1..Len(F) : c = [k |-> "matrix", F |-> F, on |-> TRUE, w |-> w, v2 |-> Val(w, F[b])]
        \/ \E F \in Seqs(Pts, 2, 2) : c = [k |-> "matrix", F |-> F, on |-> FALSE, w |-> <<1, 1>>, v2 |-> 0]
        \/ \E x \in [1..4 -> 0..2] : c = [k |-> "poly", x |-> x]
        \/ \E X \in Seqs(IF Wide THEN [1..2 -> {0, 1, 3}] ELSE {<<0, 0>>, <<1, 0>>, <<3, 0>>, <<0, 3>>, <<3, 1>>}, 2, 4) : \E n \in 2..Len(X) : c = [k |-> "far", X |-> X, n |-> n]
        \/ \E n \in 2..3, a \in Seqs({0, 1, 2, 3}, 0, 3) : c = [k |-> "dialog", n |-> n, answers |-> <<a, [i \in 1..n |-> n + 1 - i]>>]
Next == \/ /\ c.k = "rank" /\ c.i <= Len(c.u)
           /\ c' = IF c.gr = <<>> THEN [c EXCEPT !.gr = <<<<1>>>>, !.i = 2]
                   ELSE LET q == Insert(c.gr, c.j, c.i, Answer(c.u, c.i, c.gr[c.j][1])) IN
                        [c EXCEPT !.gr = q.gr, !.i = IF q.done THEN c.i + 1 ELSE c.i, !.j = IF q.done THEN 1 ELSE c.j + 1]
        \/ UNCHANGED c
Spec == Init /\ [][Next]_c
Done == c.k = "rank" => c.i > Len(c.u)
Laws ==
  CASE c.k = "rank" -> /\ (Done => RankOf(c.gr, Len(c.u)) = Ranking(c.u))
                       /\ \A g \in 1..Len(c.gr) : \A i, j \in Rng(c.gr[g]) : c.u[i] = c.u[j]
                       /\ \A g, h \in 1..Len(c.gr) : g < h => c.u[c.gr[g][1]] > c.u[c.gr[h][1]]
    [] c.k = "matrix" ->
         LET n == Len(c.F) sd == IF c.on THEN [i \in 1..n |-> Side(c.w, c.v2, c.F[i])] ELSE [i \in 1..n |-> 0] L == Layers(c.F, sd, 1..n) IN
         /\ \A i, j \in 1..n : ~(Beats(c.F, sd, i, j) /\ Beats(c.F, sd, j, i))
         /\ \A i, j, k \in 1..n : Beats(c.F, sd, i, j) /\ Beats(c.F, sd, j, k) => ~Beats(c.F, sd, k, i)
         \* the layers partition the points and nobody above the second best is behind someone below it
         /\ UNION Rng(L) = 1..n /\ \A r, s \in 1..Len(L) : r # s => L[r] \cap L[s] = {}
         /\ \A i, j \in 1..n : sd[i] = 1 /\ sd[j] = 0 - 1 => (CHOOSE r \in 1..Len(L) : i \in L[r]) < (CHOOSE r \in 1..Len(L) : j \in L[r])
    [] OTHER -> TRUE
Emit == ~Done \/ PrintT("PATH " \o ToJson(IF c.k = "rank" THEN [k |-> "rank", u |-> c.u] ELSE c))
=============================================================================
