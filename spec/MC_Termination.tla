--------------------------- MODULE MC_Termination ----------------------------
(* Criteria of every kind and combination, shown all short runs.                *)
EXTENDS Termination, TLC, Json, IOUtils
CONSTANTS Depth, Big
VARIABLES ci, s, n, ev, h, inner, fz
T(a, b) == <<a, b>>
Dl(src, tol, skip, opt) == [k |-> "delta", src |-> src, tol |-> tol, skip |-> skip, opt |-> opt, w |-> 8]
Rb(c, p) == [k |-> "robust", kids |-> <<c>>, period |-> p]
OneOf(q) == [k |-> "any", kids |-> q]
AllOf(q) == [k |-> "all", kids |-> q]
G(m) == [k |-> "gen", n |-> m]
E(m) == [k |-> "evals", n |-> m]
Crit == <<
  [k |-> "none"], G(1), G(4), G(0), E(7), E(1), E(0), [k |-> "time", n |-> 5],
  [k |-> "fmin", v |-> 2], [k |-> "fmin", v |-> 0], [k |-> "fmin", v |-> -1], [k |-> "feasible"],
  [k |-> "ind", min |-> TRUE, thr |-> 2], [k |-> "ind", min |-> FALSE, thr |-> 3],
  Dl("f", T(1, 1), 0, TRUE), Dl("f", T(0, 1), 1, FALSE), Dl("cv", T(1, 1), 0, TRUE), Dl("cv", T(1, 1), 1, FALSE),
  Dl("x", T(1, 8), 0, TRUE), Dl("x", T(0, 1), 2, TRUE), Dl("mo", T(1, 4), 0, TRUE), Dl("mo", T(1, 2), 1, FALSE),
  Rb(Dl("f", T(1, 1), 0, TRUE), 2), Rb(Dl("f", T(0, 1), 1, TRUE), 3), Rb(Dl("cv", T(0, 1), 0, FALSE), 2),
  Rb(Dl("x", T(1, 8), 0, TRUE), 2), Rb(Dl("mo", T(1, 4), 1, TRUE), 2), Rb(Dl("mo", T(1, 4), 0, TRUE), 3), Rb([k |-> "fmin", v |-> 2], 2), Rb(G(3), 1),
  OneOf(<<G(5), E(9)>>), AllOf(<<G(2), E(9)>>), OneOf(<<Rb(Dl("f", T(0, 1), 0, TRUE), 2), G(6)>>),
  AllOf(<<Dl("f", T(1, 1), 0, TRUE), [k |-> "feasible"]>>), OneOf(<<AllOf(<<G(3), [k |-> "fmin", v |-> 2]>>), E(12)>>),
  OneOf(<<Rb(Dl("x", T(1, 8), 0, TRUE), 2), Rb(Dl("cv", T(0, 1), 0, FALSE), 2), Rb(Dl("f", T(1, 1), 0, TRUE), 2), G(6), E(20)>>),
  OneOf(<<Rb(Dl("x", T(1, 8), 1, TRUE), 3), Rb(Dl("cv", T(0, 1), 1, FALSE), 3), Rb(Dl("mo", T(1, 4), 1, TRUE), 3), G(6), E(20)>>)
>>
Mb(f, cv, x) == [f |-> f, cv |-> cv, x |-> x]
Sets == <<
  <<Mb(4, 0, 1)>>, <<Mb(3, 0, 2)>>, <<Mb(1, 0, 2), Mb(1, 0, 4)>>, <<Mb(0, 0, 0)>>, <<Mb(5, 2, 7)>>, <<Mb(2, 1, 6)>>,
  <<Mb(4, 0, 1), Mb(8, 0, 5)>>, <<Mb(-2, 0, 3), Mb(3, 0, 4), Mb(6, 0, 8)>>, <<Mb(4, 3, 1), Mb(4, 3, 1)>> >>
Use == IF Big THEN 1..Len(Sets) ELSE {1, 2, 3, 5, 6, 7, 8}
Obs(a, step) == [gen |-> step, evals |-> ev + (IF a % 2 = 0 THEN 2 ELSE 3), now |-> step * 2 - (a % 2), ind |-> (a * 2 + step) % 6, constr |-> a % 4 # 3 \/ ci % 2 = 0, m |-> Sets[a]]
Init == /\ ci \in 1..Len(Crit) /\ s = Fresh(Crit[ci]) /\ n = 0 /\ ev = 0 /\ h = <<>> /\ inner = <<>> /\ fz = {}
Look(a) == /\ n' = n + 1
           /\ LET o == Obs(a, n + 1) IN
              /\ ev' = o.evals /\ s' = Upd(Crit[ci], s, o) /\ h' = Append(h, [op |-> "look", o |-> o])
              /\ inner' = IF Crit[ci].k = "robust" THEN Append(inner, s'.kids[1].p) ELSE inner
           /\ UNCHANGED <<ci, fz>>
DoForce(i) == /\ fz = {} /\ n > 0 /\ fz' = {i} /\ s' = Force(s, i) /\ h' = Append(h, [op |-> "force", i |-> i])
              /\ UNCHANGED <<ci, n, ev, inner>>
Next == /\ ~Stopped(s) /\ n < Depth
        /\ \/ \E a \in Use : Look(a)
           \/ DoForce(0)
           \/ Crit[ci].k \in {"any", "all"} /\ DoForce(1)
Spec == Init /\ [][Next]_<<ci, s, n, ev, h, inner, fz>>
View == <<ci, s, n, ev, fz>>
RECURSIVE Unit(_)
Unit(x) == Leq(Zero, x.p) /\ Leq(x.p, One) /\ \A i \in 1..Len(x.kids) : Unit(x.kids[i])
Inv ==
  LET c == Crit[ci] IN
  /\ Unit(s)
  /\ (fz = {} /\ c.k = "gen" /\ c.n > 0) => (Stopped(s) <=> n >= c.n)
  /\ (fz = {} /\ c.k = "gen") => n <= IF c.n = 0 THEN Depth ELSE c.n
  /\ (fz = {} /\ c.k = "evals" /\ c.n > 0) => (Stopped(s) <=> ev >= c.n)
  /\ (fz = {} /\ n > 0 /\ c.k = "any") => (Stopped(s) <=> \E i \in 1..Len(s.kids) : Stopped(s.kids[i]))
  /\ (fz = {} /\ n > 0 /\ c.k = "all") => (Stopped(s) <=> \A i \in 1..Len(s.kids) : Stopped(s.kids[i]))
  /\ (fz = {} /\ n > 0 /\ c.k = "robust") =>
        (Stopped(s) <=> \A i \in 1..Len(inner) : i > Len(inner) - c.period => Leq(One, inner[i]))
  /\ (c.k = "none" /\ fz = {}) => ~Stopped(s)
(* forcing takes effect at the very next look, whatever is seen then *)
ForcedStops == [][(0 \in fz /\ n' > n) => Stopped(s')]_<<ci, s, n, ev, h, inner, fz>>
Out == PrintT("PATH " \o ToJson([c |-> Crit[ci], h |-> h']))
=============================================================================
