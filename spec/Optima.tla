------------------------------- MODULE Optima --------------------------------
(* Library problems: their definitions, their declared optima, and when a      *)
(* declared optimum may be remembered.                                         *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
Rng(s) == {s[i] : i \in 1..Len(s)}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
RECURSIVE Sum(_, _, _)
Sum(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + Sum(f, lo + 1, hi)
RECURSIVE Prod(_, _, _)
Prod(f(_), lo, hi) == IF lo > hi THEN 1 ELSE f(lo) * Prod(f, lo + 1, hi)
Sq(x) == x * x
Pw(b, n) == Prod(LAMBDA i : b, 1, n)

(* ---- what may be remembered: the optimum of the present, from the first request on ---- *)
None == [v |-> 0 - 1, a |-> 0 - 1]
Empty == [front |-> None, set |-> None, ideal |-> None, nadir |-> None]
Own(s, nm, a, use) ==
  IF nm \in {"front", "set"} THEN [c |-> s.c, r |-> [v |-> s.v, a |-> a]]
  ELSE IF s.c.front # None THEN [c |-> s.c, r |-> s.c.front]
  ELSE [c |-> [s.c EXCEPT !.front = [v |-> s.v, a |-> a]], r |-> [v |-> s.v, a |-> a]]
Ask(s, e) == IF e.use /\ s.c[e.nm] # None THEN [s |-> s, r |-> s.c[e.nm]]
             ELSE LET o == Own(s, e.nm, e.a, e.use) IN
                  [s |-> [s EXCEPT !.c = IF e.put THEN [o.c EXCEPT ![e.nm] = o.r] ELSE o.c], r |-> o.r]
CacheNext(s, e) == CASE e.op = "ask" -> Ask(s, e).s
                     [] e.op = "time" -> [v |-> e.v, c |-> Empty]
                     [] OTHER -> s
CacheEv(s, e) ==
  IF e.op # "ask" THEN If(e.raised, "raised") \cup If(e.now # (IF e.op = "time" THEN e.v ELSE s.v), "time")
  ELSE LET r == Ask(s, e).r IN
       If(e.raised, "raised") \cup If(~e.raised /\ e.got.v # s.v, "optimum-of-another-time")
       \cup If(~e.raised /\ e.got.v = s.v /\ e.got # r, "remembered")

(* -------------------------------- sequencing problems -------------------------------- *)
(* T[m][j]: time of job j on machine m; x: order of the jobs *)
RECURSIVE Done(_, _, _, _)
Done(T, x, m, i) == IF m = 0 \/ i = 0 THEN 0
                    ELSE LET a == Done(T, x, m - 1, i) b == Done(T, x, m, i - 1) IN (IF a > b THEN a ELSE b) + T[m][x[i]]
Makespan(T, x) == Done(T, x, Len(T), Len(x))
Start(T, x, m, i) == Done(T, x, m, i) - T[m][x[i]]
Isqrt(n) == CHOOSE r \in 0..40 : r * r = n
Dist(C, i, j) == Isqrt(Sq(C[i][1] - C[j][1]) + Sq(C[i][2] - C[j][2]))
Tour(C, x) == Sum(LAMBDA k : Dist(C, x[k], x[1 + (k % Len(x))]), 1, Len(x))
Flow(e) == If(e.raised, "raised") \cup If(~e.raised /\ e.got # Makespan(e.T, e.x), "makespan")
           \cup If(~e.raised /\ e.starts # [m \in 1..Len(e.T) |-> [i \in 1..Len(e.x) |-> Start(e.T, e.x, m, i)]], "starts")
Tsp(e) == If(e.raised, "raised") \cup If(~e.raised /\ e.got # Tour(e.C, e.x), "tour")
Sack(e) == LET n == Len(e.x)
               f1 == 0 - Sum(LAMBDA i : e.P[i] * e.x[i], 1, n)
               g == Sum(LAMBDA i : e.W[i] * e.x[i], 1, n) - e.cap
               k == Sum(LAMBDA i : e.x[i], 1, n) IN
           If(e.raised, "raised") \cup If(~e.raised /\ e.F # (IF e.multi THEN <<f1, k>> ELSE <<f1>>), "profit") \cup If(~e.raised /\ e.G # <<g>>, "capacity")
\* every integer within the bounds of a problem over orders names an item
Span(e) == If(e.raised \/ e.lo # 0 \/ e.hi # e.n - 1, "bounds-name-the-items")

(* ------------------------- definitions, at points of a lattice ------------------------- *)
(* variables are x / xd; objectives are compared as sF * F ^ pow, constraints as sG * G      *)
Box(n, lo, hi) == [i \in 1..n |-> <<lo, hi>>]
Lattice ==
  [rosenbrock |-> [m |-> {0}, n |-> {2, 3, 5}, xd |-> 1, lo |-> 0 - 2, hi |-> 2], himmelblau |-> [m |-> {0}, n |-> {2}, xd |-> 1, lo |-> 0 - 5, hi |-> 5],
   sphere |-> [m |-> {0}, n |-> {2, 3}, xd |-> 4, lo |-> 0, hi |-> 4], zakharov |-> [m |-> {0}, n |-> {2, 3}, xd |-> 1, lo |-> 0 - 3, hi |-> 3],
   rastrigin |-> [m |-> {0}, n |-> {2, 3}, xd |-> 2, lo |-> 0 - 9, hi |-> 9], rastrigin7 |-> [m |-> {0}, n |-> {2, 3}, xd |-> 2, lo |-> 0 - 9, hi |-> 9],
   ackley |-> [m |-> {0}, n |-> {2, 3}, xd |-> 1, lo |-> 0 - 13, hi |-> 13], griewank |-> [m |-> {0}, n |-> {2, 3}, xd |-> 1, lo |-> 0 - 8, hi |-> 8],
   schwefel |-> [m |-> {0}, n |-> {2, 3}, xd |-> 1, lo |-> 0 - 14, hi |-> 14],
   bnh |-> [m |-> {0}, n |-> {2}, xd |-> 1, lo |-> 0, hi |-> 5], srn |-> [m |-> {0}, n |-> {2}, xd |-> 1, lo |-> 0 - 20, hi |-> 20],
   osy |-> [m |-> {0}, n |-> {6}, xd |-> 1, lo |-> 0, hi |-> 6],
   dtlz1 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2], dtlz2 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2],
   dtlz3 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2], dtlz4 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2],
   dtlz7 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2],
   c1dtlz1 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2], c1dtlz3 |-> [m |-> {2, 3}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2],
   c3dtlz1 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2], c3dtlz4 |-> [m |-> {2, 3}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2],
   zdt1 |-> [m |-> {0}, n |-> {10}, xd |-> 2, lo |-> 0, hi |-> 2], zdt2 |-> [m |-> {0}, n |-> {10}, xd |-> 2, lo |-> 0, hi |-> 2],
   zdt3 |-> [m |-> {0}, n |-> {10}, xd |-> 20, lo |-> 0, hi |-> 20], zdt4 |-> [m |-> {0}, n |-> {10}, xd |-> 2, lo |-> 0, hi |-> 2], zdt5 |-> [m |-> {0}, n |-> {80}, xd |-> 1, lo |-> 0, hi |-> 1],
   zdt6 |-> [m |-> {0}, n |-> {10}, xd |-> 768, lo |-> 0, hi |-> 768], c2dtlz2 |-> [m |-> {2, 3, 4}, n |-> {6, 7}, xd |-> 2, lo |-> 0, hi |-> 2],
   omnitest |-> [m |-> {0}, n |-> {2, 3}, xd |-> 2, lo |-> 0, hi |-> 12],
   carside |-> [m |-> {0}, n |-> {7}, xd |-> 2, lo |-> 1, hi |-> 3],
   g1 |-> [m |-> {0}, n |-> {13}, xd |-> 2, lo |-> 0, hi |-> 2], g6 |-> [m |-> {0}, n |-> {2}, xd |-> 1, lo |-> 13, hi |-> 60],
   g7 |-> [m |-> {0}, n |-> {10}, xd |-> 1, lo |-> 0 - 10, hi |-> 10], g9 |-> [m |-> {0}, n |-> {7}, xd |-> 1, lo |-> 0 - 4, hi |-> 4], g11 |-> [m |-> {0}, n |-> {2}, xd |-> 4, lo |-> 0 - 4, hi |-> 4],
   g12 |-> [m |-> {0}, n |-> {3}, xd |-> 4, lo |-> 0, hi |-> 40], g15 |-> [m |-> {0}, n |-> {3}, xd |-> 1, lo |-> 0, hi |-> 10],
   g18 |-> [m |-> {0}, n |-> {9}, xd |-> 1, lo |-> 0, hi |-> 10], g24 |-> [m |-> {0}, n |-> {2}, xd |-> 1, lo |-> 0, hi |-> 3]]
S1(s, n) == [i \in 1..n |-> s]
PowF(nm) == IF nm \in {"dtlz2", "dtlz3", "dtlz4", "c1dtlz3", "c2dtlz2", "c3dtlz4"} THEN 2 ELSE 1
ScF(nm, n, m) ==
  CASE nm \in {"rosenbrock", "himmelblau", "bnh", "srn", "osy", "omnitest", "g6", "g7", "g9", "g15", "g24"} -> 1
    [] nm \in {"sphere", "zakharov", "g11"} -> 16 [] nm \in {"rastrigin", "rastrigin7"} -> 4 [] nm \in {"ackley", "schwefel"} -> 1000 [] nm = "griewank" -> 10000 [] nm = "carside" -> 800000
    [] nm \in {"dtlz1", "c1dtlz1", "c3dtlz1"} -> Pw(2, m) [] nm \in {"dtlz2", "dtlz4", "c2dtlz2", "c3dtlz4"} -> 16 * Pw(2, m - 1) [] nm \in {"dtlz3", "c1dtlz3"} -> Pw(2, m - 1)
    [] nm = "dtlz7" -> 2 * (n - m + 1)
    [] nm = "zdt1" -> 1000 [] nm \in {"zdt2", "zdt6"} -> 10000 [] nm \in {"zdt3", "zdt4"} -> 500 [] nm = "zdt5" -> 10000 [] nm = "g1" -> 4 [] nm = "g12" -> 1600 [] nm = "g18" -> 2
ScG(nm, n, m) ==
  CASE nm = "bnh" -> <<25, 77>> [] nm = "srn" -> <<1, 1>> [] nm = "osy" -> <<2, 6, 2, 2, 4, 4>>
    [] nm = "c1dtlz1" -> <<3 * Pw(2, m)>> [] nm = "c1dtlz3" -> <<1>> [] nm = "c2dtlz2" -> <<400>> [] nm = "c3dtlz1" -> S1(Pw(2, m), m) [] nm = "c3dtlz4" -> S1(64 * Pw(2, m - 1), m)
    [] nm = "carside" -> <<40000000, 12800000, 12800000, 12800000, 32000000, 32000000, 32000000, 4000000, 9900000, 15700000>>
    [] nm = "g1" -> S1(2, 9) [] nm = "g6" -> <<1, 100>> [] nm = "g7" -> S1(2, 8) [] nm = "g9" -> S1(1, 4) [] nm = "g11" -> <<16>> [] nm = "g12" -> <<16>>
    [] nm = "g15" -> <<1, 1>> [] nm = "g18" -> S1(1, 13) [] nm = "g24" -> <<1, 1>> [] OTHER -> <<>>
\* position and distance parts of the DTLZ family, at 0, 1/2, 1
Lin(x, m, i) == Prod(LAMBDA j : x[j], 1, m - i) * (IF i > 1 THEN (2 - x[m - i + 1]) * Pw(2, i - 2) ELSE 1)
Cs(h) == 2 - h
Sph(x, m, i) == Prod(LAMBDA j : Cs(x[j]), 1, m - i) * (IF i > 1 THEN x[m - i + 1] * Pw(2, i - 2) ELSE 1)
Far(x, m) == Sum(LAMBDA j : Sq(x[j] - 1), m, Len(x))
Flat(x, m) == [j \in 1..Len(x) |-> IF j < m /\ x[j] = 1 THEN 0 ELSE x[j]]
L1(x, m) == [i \in 1..m |-> (1 + 25 * Far(x, m)) * Lin(x, m, i)]
L3(x, m) == [i \in 1..m |-> Sq(1 + 25 * Far(x, m)) * Sph(x, m, i)]
L2(x, m) == [i \in 1..m |-> Sq(4 + Far(x, m)) * Sph(x, m, i)]
SumV(v) == Sum(LAMBDA i : v[i], 1, Len(v))
Tail2(x) == Sum(LAMBDA i : x[i], 2, Len(x))
DefF(nm, x, m) == LET n == Len(x) IN
  CASE nm = "rosenbrock" -> <<Sum(LAMBDA i : 100 * Sq(x[i + 1] - Sq(x[i])) + Sq(1 - x[i]), 1, n - 1)>>
    [] nm = "himmelblau" -> <<Sq(Sq(x[1]) + x[2] - 11) + Sq(x[1] + Sq(x[2]) - 7)>>
    [] nm = "sphere" -> <<Sum(LAMBDA i : Sq(x[i] - 2), 1, n)>>
    [] nm = "zakharov" -> LET s == Sum(LAMBDA i : i * x[i], 1, n) IN <<16 * Sum(LAMBDA i : Sq(x[i]), 1, n) + 4 * Sq(s) + Sq(Sq(s))>>
    [] nm = "rastrigin" -> <<40 * n + Sum(LAMBDA i : Sq(x[i]) - (IF x[i] % 2 = 0 THEN 40 ELSE 0 - 40), 1, n)>>
    [] nm = "rastrigin7" -> <<28 * n + Sum(LAMBDA i : Sq(x[i]) - (IF x[i] % 2 = 0 THEN 28 ELSE 0 - 28), 1, n)>>
    [] nm = "bnh" -> <<4 * Sq(x[1]) + 4 * Sq(x[2]), Sq(x[1] - 5) + Sq(x[2] - 5)>>
    [] nm = "srn" -> <<2 + Sq(x[1] - 2) + Sq(x[2] - 1), 9 * x[1] - Sq(x[2] - 1)>>
    [] nm = "osy" -> <<0 - (25 * Sq(x[1] - 2) + Sq(x[2] - 2) + Sq(x[3] - 1) + Sq(x[4] - 4) + Sq(x[5] - 1)), Sum(LAMBDA i : Sq(x[i]), 1, 6)>>
    [] nm \in {"dtlz1", "c1dtlz1", "c3dtlz1"} -> L1(x, m)
    [] nm \in {"dtlz2", "c2dtlz2"} -> L2(x, m) [] nm \in {"dtlz4", "c3dtlz4"} -> L2(Flat(x, m), m) [] nm \in {"dtlz3", "c1dtlz3"} -> L3(x, m)
    [] nm = "dtlz7" -> LET k == n - m + 1 IN
         [i \in 1..m |-> IF i < m THEN k * x[i]
                         ELSE m * (4 * k + 9 * Sum(LAMBDA j : x[j], m, n)) - Sum(LAMBDA j : k * x[j] * (IF x[j] = 1 THEN 0 ELSE 1), 1, m - 1)]
    [] nm = "omnitest" -> LET s(h) == CASE h % 4 = 1 -> 1 [] h % 4 = 3 -> 0 - 1 [] OTHER -> 0 IN <<Sum(LAMBDA i : s(x[i]), 1, n), Sum(LAMBDA i : s(x[i] + 1), 1, n)>>
    [] nm = "carside" ->
         <<1584000 + 1960000 * x[1] + 2668000 * x[2] + 2792000 * x[3] + 1604000 * x[4] + 712000 * x[5] + 4 * x[6] + 1092000 * x[7],
           3776000 - 200000 * x[4] - 38000 * x[2] * x[3],
           10812000 - 67400 * x[1] * x[2] - 134550 * x[2] - 48900 * x[3] * x[7] - 84300 * x[5] * x[6]>>
    [] nm = "g1" -> <<Sum(LAMBDA i : 10 * x[i] - 5 * Sq(x[i]), 1, 4) - 2 * Sum(LAMBDA i : x[i], 5, 13)>>
    [] nm = "g6" -> <<(x[1] - 10) * Sq(x[1] - 10) + (x[2] - 20) * Sq(x[2] - 20)>>
    [] nm = "g7" -> <<Sq(x[1]) + Sq(x[2]) + x[1] * x[2] - 14 * x[1] - 16 * x[2] + Sq(x[3] - 10) + 4 * Sq(x[4] - 5) + Sq(x[5] - 3) + 2 * Sq(x[6] - 1) + 5 * Sq(x[7])
                     + 7 * Sq(x[8] - 11) + 2 * Sq(x[9] - 10) + Sq(x[10] - 7) + 45>>
    [] nm = "g9" -> <<Sq(x[1] - 10) + 5 * Sq(x[2] - 12) + Sq(Sq(x[3])) + 3 * Sq(x[4] - 11) + 10 * Pw(x[5], 6) + 7 * Sq(x[6]) + Sq(Sq(x[7])) - 4 * x[6] * x[7] - 10 * x[6] - 8 * x[7]>>
    [] nm = "g11" -> <<Sq(x[1]) + Sq(x[2] - 4)>>
    [] nm = "g12" -> <<Sum(LAMBDA i : Sq(x[i] - 20), 1, 3) - 1600>>
    [] nm = "g15" -> <<1000 - Sq(x[1]) - 2 * Sq(x[2]) - Sq(x[3]) - x[1] * x[2] - x[1] * x[3]>>
    [] nm = "g18" -> <<0 - (x[1] * x[4] - x[2] * x[3] + x[3] * x[9] - x[5] * x[9] + x[5] * x[8] - x[6] * x[7])>>
    [] nm = "g24" -> <<0 - x[1] - x[2]>>
    [] OTHER -> <<>>
DefG(nm, x, m) == LET n == Len(x) IN
  CASE nm = "bnh" -> <<Sq(x[1] - 5) + Sq(x[2]) - 25, 77 - 10 * (Sq(x[1] - 8) + Sq(x[2] + 3))>>
    [] nm = "srn" -> <<Sq(x[1]) + Sq(x[2]) - 225, x[1] - 3 * x[2] + 10>>
    [] nm = "osy" -> <<2 - x[1] - x[2], x[1] + x[2] - 6, x[2] - x[1] - 2, x[1] - 3 * x[2] - 2, Sq(x[3] - 3) + x[4] - 4, 4 - Sq(x[5] - 3) - x[6]>>
    [] nm = "c1dtlz1" -> LET f == L1(x, m) IN <<5 * f[m] + 6 * (SumV(f) - f[m]) - 3 * Pw(2, m)>>
    [] nm = "c1dtlz3" -> LET r == Sq(1 + 25 * Far(x, m)) IN <<0 - (r - 16) * (r - (IF m = 2 THEN 36 ELSE 81))>>
    \* at the corners of the sphere: the distance to the nearest corner
    [] nm = "c2dtlz2" -> <<25 * Sq(Far(x, m)) - (CASE m = 2 -> 16 [] m = 3 -> 64 [] OTHER -> 100)>>
    [] nm = "c3dtlz1" -> LET f == L1(x, m) IN [i \in 1..m |-> Pw(2, m) - 2 * f[i] - (SumV(f) - f[i])]
    [] nm = "c3dtlz4" -> LET f == L2(Flat(x, m), m) IN [i \in 1..m |-> 64 * Pw(2, m - 1) - f[i] - 4 * (SumV(f) - f[i])]
    [] nm = "carside" ->
         <<6400000 - 3717000 * x[2] * x[4] - 185856 * x[3],
           10440000 - 159000 * x[1] * x[2] - 1297200 * x[1] - 190000 * x[2] * x[7] + 144000 * x[3] * x[5] + 308928 * x[6] - 12800000,
           8560000 + 163400 * x[5] - 1174236 * x[1] + 309900 * x[2] * x[6] - 180000 * x[2] * x[7] + 608160 * x[3] - 36400 * x[5] * x[6] - 180000 * Sq(x[2]) - 12800000,
           29600000 - 12200000 * x[2] - 625920 * x[3] - 637440 * x[7] + 2270000 * Sq(x[2]) - 12800000,
           1909000 * x[3] - 1050000 * x[1] * x[2] + 636480 * x[6] - 1340325 * x[7] - 3020000,
           3317280 + 1475000 * x[3] - 1264250 * x[1] * x[2] - 1897500 * x[2] - 1721550 * x[7],
           14360000 - 4950000 * x[2] - 2225250 * x[1],
           720000 - 250000 * x[4] - 47500 * x[2] * x[3],
           680000 - 168500 * x[1] * x[2] - 336375 * x[2],
           750000 - 122250 * x[3] * x[7] - 210750 * x[5] * x[6]>>
    [] nm = "g1" -> LET t(a, b, c, d) == 2 * a + 2 * b + c + d - 20 IN
         <<t(x[1], x[2], x[10], x[11]), t(x[1], x[3], x[10], x[12]), t(x[2], x[3], x[11], x[12]), x[10] - 8 * x[1], x[11] - 8 * x[2], x[12] - 8 * x[3],
           x[10] - 2 * x[4] - x[5], x[11] - 2 * x[6] - x[7], x[12] - 2 * x[8] - x[9]>>
    [] nm = "g6" -> <<100 - Sq(x[1] - 5) - Sq(x[2] - 5), 100 * (Sq(x[1] - 6) + Sq(x[2] - 5)) - 8281>>
    [] nm = "g7" -> [i \in 1..8 |-> 2 *
         (CASE i = 1 -> 4 * x[1] + 5 * x[2] - 3 * x[7] + 9 * x[8] - 105 [] i = 2 -> 10 * x[1] - 8 * x[2] - 17 * x[7] + 2 * x[8]
            [] i = 3 -> 5 * x[9] + 2 * x[2] - 8 * x[1] - 2 * x[10] - 12 [] i = 4 -> 3 * Sq(x[1] - 2) + 4 * Sq(x[2] - 3) + 2 * Sq(x[3]) - 7 * x[4] - 120
            [] i = 5 -> 5 * Sq(x[1]) + 8 * x[2] + Sq(x[3] - 6) - 2 * x[4] - 40 [] i = 6 -> Sq(x[1]) + 2 * Sq(x[2] - 2) - 2 * x[1] * x[2] + 14 * x[5] - 6 * x[6]
            [] i = 7 -> 0 [] i = 8 -> 6 * x[2] - 3 * x[1] + 12 * Sq(x[9] - 8) - 7 * x[10])
         + (IF i = 7 THEN Sq(x[1] - 8) + 4 * Sq(x[2] - 4) + 6 * Sq(x[5]) - 2 * x[6] - 60 ELSE 0)]
    [] nm = "g9" -> <<2 * Sq(x[1]) + 3 * Sq(Sq(x[2])) + x[3] + 4 * Sq(x[4]) + 5 * x[5] - 127, 7 * x[1] + 3 * x[2] + 10 * Sq(x[3]) + x[4] - x[5] - 282,
                     23 * x[1] + Sq(x[2]) + 6 * Sq(x[6]) - 8 * x[7] - 196, 4 * Sq(x[1]) + Sq(x[2]) - 3 * x[1] * x[2] + 2 * Sq(x[3]) + 5 * x[6] - 11 * x[7]>>
    [] nm = "g11" -> <<4 * x[2] - Sq(x[1])>>
    [] nm = "g12" -> LET d(h) == MinS({Sq(h - 4 * p) : p \in 1..9}) IN <<d(x[1]) + d(x[2]) + d(x[3]) - 1>>
    [] nm = "g15" -> <<Sq(x[1]) + Sq(x[2]) + Sq(x[3]) - 25, 8 * x[1] + 14 * x[2] + 7 * x[3] - 56>>
    [] nm = "g18" -> <<Sq(x[3]) + Sq(x[4]) - 1, Sq(x[9]) - 1, Sq(x[5]) + Sq(x[6]) - 1, Sq(x[1]) + Sq(x[2] - x[9]) - 1, Sq(x[1] - x[5]) + Sq(x[2] - x[6]) - 1,
                      Sq(x[1] - x[7]) + Sq(x[2] - x[8]) - 1, Sq(x[3] - x[5]) + Sq(x[4] - x[6]) - 1, Sq(x[3] - x[7]) + Sq(x[4] - x[8]) - 1, Sq(x[7]) + Sq(x[8] - x[9]) - 1,
                      x[2] * x[3] - x[1] * x[4], 0 - x[3] * x[9], x[5] * x[9], x[6] * x[7] - x[5] * x[8]>>
    [] nm = "g24" -> <<8 * Pw(x[1], 3) - 2 * Pw(x[1], 4) - 8 * Sq(x[1]) + x[2] - 2, 32 * Pw(x[1], 3) - 4 * Pw(x[1], 4) - 88 * Sq(x[1]) + 96 * x[1] + x[2] - 36>>
    [] OTHER -> <<>>
\* the square roots of the ZDT family are judged by their squares
Near(a, sq, e) == a >= 0 - e /\ Abs(Sq(a) - sq) <= 2 * e * Abs(a) + e * e
Zdt(nm, x, F) ==
  CASE nm = "zdt1" -> LET g == 2 + Tail2(x) IN F[1] = 500 * x[1] /\ Near(1000 * g - 2 * F[2], 1000000 * x[1] * g, 2)
    [] nm = "zdt2" -> LET g == 2 + Tail2(x) IN F[1] = 5000 * x[1] /\ Abs(2 * g * F[2] - 10000 * (Sq(g) - Sq(x[1]))) <= 2 * g
    [] nm = "zdt3" -> LET g == 20 + Tail2(x) s == CASE x[1] % 4 = 1 -> 1 [] x[1] % 4 = 3 -> 0 - 1 [] OTHER -> 0 IN
         F[1] = 25 * x[1] /\ Near(500 * g - 20 * F[2] - 500 * x[1] * s, 250000 * x[1] * g, 20)
    [] nm = "zdt4" -> LET g == 4 + Sum(LAMBDA i : Sq(x[i]), 2, Len(x)) IN F[1] = 250 * x[1] /\ Near(500 * g - 4 * F[2], 500000 * x[1] * g, 4)
    \* where the sine vanishes, and the mean distance is a fourth power
    [] nm = "zdt6" -> F[1] = 10000 /\ (\A j \in 0..4 : Tail2(x) = 27 * Pw(j, 4) => LET g == 4 + 9 * j IN Abs(4 * g * F[2] - 10000 * (Sq(g) - 16)) <= 4 * g)
    [] nm = "zdt5" -> LET u(i) == Sum(LAMBDA j : x[30 + 5 * (i - 1) + j], 1, 5) g == Sum(LAMBDA i : IF u(i) = 5 THEN 1 ELSE 2 + u(i), 1, 10) f == 1 + Sum(LAMBDA j : x[j], 1, 30) IN
         F[1] = 10000 * f /\ Abs(F[2] * f - 10000 * g) <= f
    \* variables 5 h / 2 of equal size: the exponential of half an integer
    [] nm = "ackley" -> Abs(F[1] - (<<0, 10220, 12642, 17888, 17293, 20709, 19004, 21746, 19634, 22128, 19865, 22269, 19950, 22320>>)[1 + Abs(x[1])]) <= 1
    \* variables sqrt(i) pi h / 2: every cosine is 0 or 1 in size
    [] nm = "griewank" -> LET co(h) == CASE h % 4 = 0 -> 1 [] h % 4 = 2 -> 0 - 1 [] OTHER -> 0 IN
         Abs(F[1] - 10000 - (616850 * Sum(LAMBDA i : i * Sq(x[i]), 1, Len(x))) \div 100000 + 10000 * Prod(LAMBDA i : co(x[i]), 1, Len(x))) <= 2
    \* variables (pi h / 2) ^ 2 with the sign of h
    [] nm = "schwefel" -> LET si(h) == (IF h < 0 THEN 0 - 1 ELSE 1) * (CASE Abs(h) % 4 = 1 -> 1 [] Abs(h) % 4 = 3 -> 0 - 1 [] OTHER -> 0) IN
         Abs(10 * F[1] - 4189829 * Len(x) + Sum(LAMBDA i : 24674 * Sq(x[i]) * si(x[i]), 1, Len(x))) <= 30
    [] OTHER -> TRUE
Def(e) == If(e.raised, "raised")
          \cup If(~e.raised /\ DefF(e.nm, e.x, e.m) # <<>> /\ e.F # DefF(e.nm, e.x, e.m), "objectives")
          \cup If(~e.raised /\ DefF(e.nm, e.x, e.m) = <<>> /\ ~Zdt(e.nm, e.x, e.F), "objectives")
          \cup If(~e.raised /\ e.G # DefG(e.nm, e.x, e.m), "constraints")

(* --------------------------- declared optima --------------------------- *)
(* U: points of the declared front, in units of its range (10^5); images and   *)
(* achieved values in the same units                                           *)
Well(p, q, mg) == \A j \in 1..Len(p) : p[j] < q[j] - mg
Front(e) ==
  IF e.raised THEN {"raised"} ELSE
  LET U == Rng(e.U) IN
  If(e.cols # e.m, "number-of-objectives")
  \cup (IF e.cols # e.m \/ e.U = <<>> THEN {} ELSE
        If(\E p, q \in U : Well(p, q, e.mg), "dominated-point-in-front")
        \cup If(e.m = 2 /\ \E i \in 1..Len(e.U) - 1 : e.U[i][1] > e.U[i + 1][1], "order-of-front")
        \cup If(e.ideal # [j \in 1..e.m |-> MinS({p[j] : p \in U})], "ideal") \cup If(e.nadir # [j \in 1..e.m |-> MaxS({p[j] : p \in U})], "nadir"))
  \cup If(~e.kept, "arguments-changed")
Att(e) == If(e.raised, "raised") \cup If(~e.raised /\ (~e.feas \/ e.a > e.tol), "declared-optimum-not-attained") \cup If(~e.raised /\ e.feas /\ e.a < 0 - e.beat, "declared-optimum-beaten")
SetEv(e) ==
  IF e.raised THEN {"raised"} ELSE
  LET U == Rng(e.U) IN
  If(~e.shape, "number-of-variables") \cup If(~e.inb, "bounds") \cup If(e.shape /\ ~e.feas, "infeasible-optimum")
  \cup If(e.shape /\ \E f \in Rng(e.I), p \in U : Well(p, f, e.tol), "solution-worse-than-front")
  \cup If(e.shape /\ \E f \in Rng(e.I), p \in U : Well(f, p, e.tol), "solution-better-than-front")
\* the shape the literature gives to a front; points in units of 10^-4 of each objective's scale
Shape(e) ==
  IF e.raised THEN {"raised"} ELSE
  If(\E i \in 1..Len(e.V) : LET v == e.V[i] n == Len(v) IN
       CASE e.shape = "plane" -> Abs(Sum(LAMBDA j : v[j], 1, n) - 10000) > n + 1
         [] e.shape = "sphere" -> Abs(Sum(LAMBDA j : Sq(v[j]), 1, n) - 100000000) > 20000 * n
         [] e.shape = "root" -> Abs(Sq(10000 - v[2]) - 10000 * v[1]) > 40000
         [] e.shape = "square" -> Abs(100000000 - 10000 * v[2] - Sq(v[1])) > 40000
         [] OTHER -> TRUE, "shape")
\* the optimum of the same problem asked twice, from a fresh instance, after a change of time
Like(e) == If(e.raised, "raised") \cup If(~e.raised /\ ~e.same, e.what)
=============================================================================
