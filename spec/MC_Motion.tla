------------------------------ MODULE MC_Motion ------------------------------
(* mode "eq": cases of the swarm equation.  mode "dyn": every history of changes - a problem in states 0, 1, 2, ... ,  *)
(* a population of values tagged with the state they were taken in, changes that show at all, some or no positions.    *)
EXTENDS Motion, TLC, Json
CONSTANTS Mode, Gens, G
VARIABLES c, h, now, pop
vars == <<c, h, now, pop>>
N == 2
Half2 == {1}                    \* members that a partial change reaches
InitEq == \E x \in 0..G, p \in 0..G, s \in 0..G, v \in (0 - G)..G, vm \in 1..2, r1 \in {0, 1, 4}, r2 \in {0, 2, 4}, w \in {4, 9} :
            /\ c = [k |-> "eq", x |-> x, p |-> p, s |-> s, v |-> v, vm |-> vm, r1 |-> r1, r2 |-> r2, w |-> w, c1 |-> 20, c2 |-> 15]
            /\ h = <<>> /\ now = 0 /\ pop = <<>>
InitDyn == c = [k |-> "dyn"] /\ h = <<>> /\ now = 0 /\ pop = [i \in 1..N |-> [f |-> 0, reach |-> i \in Half2]]
Init == IF Mode = "eq" THEN InitEq ELSE InitDyn
(* val(i): the value member i has in the present: all changes so far that reach it *)
Reached(i, hh) == Cardinality({k \in 1..Len(hh) : hh[k] = "all" \/ (hh[k] = "some" /\ i \in Half2)})
Gen(ch, seen) ==
  /\ Mode = "dyn" /\ Len(h) < Gens
  /\ h' = Append(h, ch)
  /\ now' = now + (IF ch = "none" THEN 0 ELSE 1)
  /\ LET truth == [i \in 1..N |-> Reached(i, h')]
         shows == \E i \in seen : truth[i] # pop[i].f
     IN pop' = IF shows THEN [i \in 1..N |-> [pop[i] EXCEPT !.f = truth[i]]] ELSE pop
  /\ UNCHANGED c
Next == \E ch \in {"none", "some", "all"}, seen \in SUBSET (1..N) \ {{}} : Gen(ch, seen)
Spec == Init /\ [][Next]_vars
(* after a noticed change all values are of the present; a change everywhere is always noticed *)
Fresh == Mode = "dyn" /\ Len(h) > 0 /\ h[Len(h)] = "all" => \A i \in 1..N : pop[i].f = Reached(i, h)
NeverAhead == Mode = "dyn" => \A i \in 1..N : pop[i].f <= Reached(i, h)
Bounded == Mode = "eq" => LET v == EqV(c) IN v <= 40 * c.vm /\ v >= 0 - 40 * c.vm /\
             LET e == [w |-> <<1000 * c.w, 1000 * c.w>>, c1 |-> <<0, 1000 * c.c1>>, c2 |-> <<0, 1000 * c.c2>>, X |-> <<<<1000 * c.x>>>>, V |-> <<<<1000 * c.v>>>>, P |-> <<<<1000 * c.p>>>>, vm |-> <<1000 * c.vm>>]
             IN 25 * v >= VL(e, 1, 1, <<1000 * c.s>>) /\ 25 * v <= VU(e, 1, 1, <<1000 * c.s>>)
Tables == Mode = "dyn" => \A f \in {0, 100, 250, 350, 500, 650, 750, 850, 1000} : Max(Rng(Grades(f))) >= 250 /\ Strategies(f) # {}
Emit == (Mode = "eq" \/ Len(h) = Gens) => PrintT("PATH " \o ToJson([c |-> c, h |-> h]))
View == <<c, h>>
=============================================================================
