----------------------------- MODULE MC_Selection -----------------------------
(* (1) Every pair of individuals with small attributes under every comparison; the  *)
(* comparisons are strict partial orders wherever contests of more than two rely on  *)
(* it. (2) Contests drawn from consecutive permutations: whoever is drawn.            *)
EXTENDS Selection, TLC, Json
CONSTANTS N, Draws
Ind(rule) ==
  LET z == [cv |-> 0, F |-> <<0, 0>>, rank |-> 0, crowd |-> 0, niche |-> 0, dist |-> 0, fit |-> 0, iter |-> 0, gen |-> 0] IN
  CASE rule = "cv-fitness" -> {[z EXCEPT !.cv = c, !.F = <<f, 0>>] : c \in 0..2, f \in 0..2}
    [] rule = "cv" -> {[z EXCEPT !.cv = c, !.F = <<f, 0>>] : c \in 0..3, f \in 0..1}
    [] rule = "cv-niche-rank-dist" -> {[z EXCEPT !.cv = c, !.niche = n, !.rank = r, !.dist = d] : c \in 0..2, n \in 0..1, r \in 0..1, d \in 0..1}
    [] rule = "cv-dom-crowding" -> {[z EXCEPT !.cv = c, !.F = <<f, g>>, !.crowd = d, !.rank = 1 - f] : c \in 0..2, f \in 0..1, g \in 0..1, d \in 0..1}
    [] rule = "cv-rank-crowding" -> {[z EXCEPT !.cv = c, !.F = <<1 - r, 0>>, !.rank = r, !.crowd = d] : c \in 0..2, r \in 0..2, d \in 0..1}
    [] rule = "cv-dom" -> {[z EXCEPT !.cv = c, !.F = <<f, g>>] : c \in 0..2, f \in 0..2, g \in 0..1}
    [] rule = "cv-fit" -> {[z EXCEPT !.cv = c, !.fit = f] : c \in 0..2, f \in 0..3}
    [] rule = "feas-dom" -> {[z EXCEPT !.cv = c, !.F = <<f, g>>] : c \in 0..2, f \in 0..2, g \in 0..1}
    [] rule = "cv-iter-rank" -> {[z EXCEPT !.cv = c, !.iter = i, !.rank = r] : c \in 0..2, i \in 0..2, r \in 0..1}
    [] rule = "age" -> {[z EXCEPT !.gen = g, !.cv = c] : g \in 0..3, c \in 0..1}
Transitive == Rules \ {"cv-dom-crowding", "cv-niche-rank-dist"}
VARIABLES rule, a, b, left, drawn
vars == <<rule, a, b, left, drawn>>
Init == /\ rule \in Rules /\ a \in Ind(rule) /\ b \in Ind(rule)
        /\ left = 1..N /\ drawn = <<>>
(* a draw takes from the current permutation; an exhausted one is replaced by a fresh one *)
Draw == \E i \in left : /\ rule = "cv" /\ a = b /\ a.cv = 0 /\ a.F[1] = 0
                        /\ Len(drawn) < Draws /\ drawn' = Append(drawn, i)
                        /\ left' = (IF left = {i} THEN 1..N ELSE left \ {i}) /\ UNCHANGED <<rule, a, b>>
Next == Draw
Spec == Init /\ [][Next]_vars
Inv == /\ ~(Beats(rule, a, b) /\ Beats(rule, b, a))
       /\ ~Beats(rule, a, a)
       /\ (a.cv <= 0 /\ b.cv > 0 /\ rule # "age") => Beats(rule, a, b)
       /\ (rule \in Transitive /\ Len(drawn) = 0) => \A c \in Ind(rule) : Beats(rule, a, b) /\ Beats(rule, b, c) => Beats(rule, a, c)
       /\ Even(drawn, N)
Case == PrintT("PATH " \o ToJson([rule |-> rule, a |-> a, b |-> b]))
EmitInit == Len(drawn) > 0 \/ Case
=============================================================================
