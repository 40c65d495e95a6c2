------------------------------- MODULE Motion --------------------------------
(* State an optimizer carries from one generation to the next: velocities, personal bests, leaders and weights of a    *)
(* swarm, the step sizes of an evolution strategy, and values of a problem that changes while it is being optimized.   *)
(* Positions, velocities and step sizes are in thousandths, learning weights in ten-thousandths.                       *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Clip(x, l, u) == Mx(l, Mn(x, u))
Tol == 4

(* ------------------------------------------ the swarm ------------------------------------------ *)
(* the equation itself, factors given: w, c1, c2 in tenths, r1, r2 in quarters, result in fortieths  *)
EqV(e) == Clip(4 * e.w * e.v + e.c1 * e.r1 * (e.p - e.x) + e.c2 * e.r2 * (e.s - e.x), 0 - 40 * e.vm, 40 * e.vm)
EqEv(e) == IF e.raised THEN {"raised"} ELSE If(e.gv # EqV(e), "velocity is not the weighted sum") \cup If(e.gx # 40 * e.x + e.gv, "position is not the old one plus the velocity")
(* all velocities the equation allows with factors in 0..1 and an inertia in w[1]..w[2] *)
Ext(c, d, up) == LET q == (c * d) \div 10000 IN IF up THEN Mx(0, q) ELSE Mn(0, q)
Low(e, v, x, p, s) == Min({(e.w[1] * v) \div 10000, (e.w[2] * v) \div 10000}) + Ext(e.c1[2], p - x, FALSE) + Ext(e.c2[2], s - x, FALSE)
Upp(e, v, x, p, s) == Max({(e.w[1] * v) \div 10000, (e.w[2] * v) \div 10000}) + Ext(e.c1[2], p - x, TRUE) + Ext(e.c2[2], s - x, TRUE)
VL(e, i, k, s) == Clip(Low(e, e.V[i][k], e.X[i][k], e.P[i][k], s[k]), 0 - e.vm[k], e.vm[k])
VU(e, i, k, s) == Clip(Upp(e, e.V[i][k], e.X[i][k], e.P[i][k], s[k]), 0 - e.vm[k], e.vm[k])
(* keys: violation and objective; among members with the same violation the objective does not count *)
Better(a, b) == a[1] < b[1] \/ (a[1] = 0 /\ b[1] = 0 /\ a[2] < b[2])
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Bests(K, I) == {i \in I : ~\E j \in I : Better(K[j], K[i])}
(* leaders of particle i: the best personal bests among those it hears of, or any member of the elite *)
Leaders(e, i) == IF Len(e.L) > 0 THEN Rng(e.L)
                 ELSE IF e.first THEN {e.P[i]}
                 ELSE {e.P[j] : j \in Bests(e.K, IF e.ring THEN {((i + d - 1) % Len(e.X)) + 1 : d \in {Len(e.X) - 1, 0, 1}} ELSE 1..Len(e.X))}
Inside(e, x, k) == x >= e.xl[k] - Tol /\ x <= e.xu[k] + Tol
(* the step may leave the box: then the position is brought back *)
Leaves(e, i, k, s) == e.X[i][k] + VU(e, i, k, s) > e.xu[k] - Tol \/ e.X[i][k] + VL(e, i, k, s) < e.xl[k] + Tol
VOk(e, i, s) == \A k \in 1..Len(s) : (e.Vn[i][k] >= VL(e, i, k, s) - Tol /\ e.Vn[i][k] <= VU(e, i, k, s) + Tol) \/ (e.rule = "between" /\ Leaves(e, i, k, s))
XOk(e, i) == \A k \in 1..Len(e.xl) : LET y == e.X[i][k] + e.Vn[i][k] x == e.Xn[i][k] IN
  CASE e.rule = "clip" -> Abs(x - Clip(y, e.xl[k], e.xu[k])) <= Tol
    [] e.rule = "redraw" -> Abs(x - y) <= Tol \/ ((y > e.xu[k] - Tol \/ y < e.xl[k] + Tol) /\ Inside(e, x, k))
    [] e.rule = "between" -> Abs(x - y) <= Tol /\ Inside(e, x, k)
    [] OTHER -> Inside(e, x, k)
(* st: what every particle remembers; <<>> at the start                                  *)
MoveEv(st, e) == IF e.raised THEN {"raised"} ELSE
  LET n == Len(e.X)
      off == {i \in 1..n : ~XOk(e, i)}
  IN If(Len(e.Xn) # n \/ Len(e.Vn) # n, "one step per particle")
     \cup (IF Len(e.Xn) # n \/ Len(e.Vn) # n THEN {} ELSE
       If(\E i \in 1..n : \E k \in 1..Len(e.vm) : Abs(e.Vn[i][k]) > e.vm[k] + 1, "faster than the maximum velocity")
       \cup If(\E i \in 1..n : ~\E s \in Leaders(e, i) : VOk(e, i, s), "velocity is not what the equation allows")
       \cup If(off # {} /\ ~(e.free /\ Cardinality(off) = 1 /\ \A i \in off, j \in 1..n : ~Lex(e.K[j], e.K[i])), "position is not the old one plus the velocity")
       \cup If(\E i \in 1..n : \E k \in 1..Len(e.xl) : ~Inside(e, e.Xn[i][k], k), "outside of the box"))
     \cup If(st.X # <<>> /\ (e.X # st.X \/ e.V # st.V), "particles are not where they moved to")
     \cup If(st.P # <<>> /\ \E i \in 1..n : e.P[i] \notin st.P[i], "personal bests are not the best of each particle")
(* the first velocities: nothing, or any share of the maximum velocity *)
InitEv(e) == If(\E i \in 1..Len(e.V) : \E k \in 1..Len(e.vm) : IF e.zero THEN e.V[i][k] # 0 ELSE e.V[i][k] < 0 - e.neg[k] - 1 \/ e.V[i][k] > e.vm[k] + 1, "first velocities")
(* after the values came back: K the old keys (violation, objective), Kn those of the new positions *)
(* a position held by another particle already is not taken over *)
Dom(a, b) == (\A j \in 1..Len(a) : a[j] <= b[j]) /\ \E j \in 1..Len(a) : a[j] < b[j]
(* with several objectives: among solutions of equal violation which do not dominate each other either may be kept *)
BestOfTwo(p, a, x, b) == IF b[1] > a[1] THEN {p} ELSE IF b[1] < a[1] THEN {x} ELSE IF Dom(Tail(b), Tail(a)) THEN {x} ELSE IF Dom(Tail(a), Tail(b)) THEN {p} ELSE {p, x}
BestAfter(e) == [i \in 1..Len(e.K) |-> IF Len(e.K[i]) > 2 THEN BestOfTwo(e.P[i], e.K[i], e.Xn[i], e.Kn[i])
                                       ELSE IF ~Better(e.Kn[i], e.K[i]) THEN {e.P[i]}
                                       ELSE IF e.Xn[i] \in Rng(e.P) \/ \E j \in 1..i - 1 : e.Xn[j] = e.Xn[i] THEN {e.P[i], e.Xn[i]} ELSE {e.Xn[i]}]

(* adaptive weights: spread of the swarm g against the least and largest mean distance; f in thousandths *)
Spread(e) == IF Max(Rng(e.D)) = Min(Rng(e.D)) THEN 0 ELSE (1000 * (e.g - Min(Rng(e.D)))) \div (Max(Rng(e.D)) - Min(Rng(e.D)))
S1(f) == CASE f <= 400 -> 0 [] f <= 600 -> 5 * f - 2000 [] f <= 700 -> 1000 [] f <= 800 -> 8000 - 10 * f [] OTHER -> 0
S2(f) == CASE f <= 200 -> 0 [] f <= 300 -> 10 * f - 2000 [] f <= 400 -> 1000 [] f <= 600 -> 3000 - 5 * f [] OTHER -> 0
S3(f) == CASE f <= 100 -> 1000 [] f <= 300 -> 1500 - 5 * f [] OTHER -> 0
S4(f) == CASE f <= 700 -> 0 [] f <= 900 -> 5 * f - 3500 [] OTHER -> 1000
Grades(f) == <<S1(f), S2(f), S3(f), S4(f)>>
(* membership with an uncertainty of the measurement of four thousandths *)
Strategies(f) == {k \in 1..4 : Grades(f)[k] >= Max(Rng(Grades(f))) - 100}
Dir(k) == CASE k = 1 -> <<2, 0 - 2>> [] k = 2 -> <<1, 0 - 1>> [] k = 3 -> <<1, 1>> [] k = 4 -> <<0 - 2, 2>>
(* inertia 1 / (1 + 1.5 exp(-2.6 f)) at f = 0, 0.1, ..., 1 in ten-thousandths *)
WTab == <<4000, 4637, 5286, 5926, 6535, 7098, 7604, 8045, 8422, 8737, 8998>>
WAt(f) == LET g == Clip(f, 0, 1000) k == Mn(9, g \div 100) IN WTab[k + 1] + ((WTab[k + 2] - WTab[k + 1]) * (g - 100 * k)) \div 100
Weights(c, k, d) == LET a == Clip(c[1] + (Dir(k)[1] * d) \div 2, 15000, 25000) b == Clip(c[2] + (Dir(k)[2] * d) \div 2, 15000, 25000)
                    IN IF a + b > 40000 THEN <<(40000 * (a \div 10)) \div ((a + b) \div 10), (40000 * (b \div 10)) \div ((a + b) \div 10)>> ELSE <<a, b>>
(* what the code does when the sum is too large: the first weight is rescaled, the second by the sum with the rescaled *)
(* first one; the sum then still exceeds four (recorded as a known finding under a clause of its own)                  *)
Late(c, k, d) == LET a == Clip(c[1] + (Dir(k)[1] * d) \div 2, 15000, 25000) b == Clip(c[2] + (Dir(k)[2] * d) \div 2, 15000, 25000)
                     r == (40000 * (a \div 10)) \div ((a + b) \div 10)
                 IN IF a + b > 40000 THEN <<r, (40000 * (b \div 10)) \div ((r + b) \div 10)>> ELSE <<a, b>>
Near(W, c) == Abs(W[1] - c[1]) <= 15 /\ Abs(W[2] - c[2]) <= 15
AdaptEv(e) ==
  LET f == Spread(e)
      far == Max(Rng(e.D)) - Min(Rng(e.D)) >= 300 /\ f >= 0 /\ f <= 1000
      S == IF far THEN Strategies(f) ELSE 1..4
      right == \E k \in S, q \in 0..50 : Near(Weights(e.c0, k, 500 + 10 * q), e.c)
      late == \E k \in S, q \in 0..50 : Near(Late(e.c0, k, 500 + 10 * q), e.c)
  IN If(~right /\ late, "sum of the learning weights above four")
     \cup If(~right /\ ~late /\ (e.c[1] + e.c[2] > 40010 \/ e.c[1] < 12000 \/ e.c[2] < 12000 \/ e.c[1] > 25001 \/ e.c[2] > 25001), "learning weights out of their limits")
     \cup If(~right /\ ~late, "learning weights do not follow the spread")
     \cup If(far /\ Abs(e.w - WAt(f)) > 60, "inertia does not follow the spread")
(* random factors are drawn for every entry, over the whole range: counts by (decile of one, decile of another) *)
FactorEv(e) == IF e.raised THEN {"raised"} ELSE
  If(\E a \in 1..5 : \E b \in 1..5 : e.cnt[a][b] * 25 < e.n \div 2 \/ e.cnt[a][b] * 25 > 2 * e.n, "factors are not drawn over the whole range for every entry")
(* elites and archives of leaders: nothing worse than what was offered, nothing that was never offered *)
Worse(q, p) == IF q[1] = 0 /\ p[1] = 0 THEN Dom(Tail(p), Tail(q)) ELSE p[1] < q[1]
(* an archive of limited size may forget a solution and take one again that was worse: then only its members count  *)
Offered(e) == e.old \o e.M
Fits(e) == e.size < 0 \/ Cardinality({i \in 1..Len(Offered(e)) : ~\E p \in Rng(Offered(e)) : Worse(Offered(e)[i], p)}) <= e.size
HallEv(e) == If(\E q \in Rng(e.now) : q \notin Rng(Offered(e)), "leader which was never offered")
  \cup If(\E q \in Rng(e.now) : \E p \in (IF Fits(e) THEN Rng(Offered(e)) ELSE Rng(e.now)) : Worse(q, p), "leader worse than a solution offered")
  \cup If(e.now = <<>>, "no leader")
GradesEv(e) == If(\E k \in 1..4 : Abs(e.S[k] - Grades(e.f)[k]) > 1, "grades of the strategies")
(* steps drawn again are drawn on their own, and only those which left the box *)
OwnEv(e) == If(e.distinct < e.n, "entries share one random number") \cup If(e.high * 100 < 3 * e.n \/ e.high * 100 > 40 * e.n, "direction of the steps")
(* of two elites drawn at random, the one at the smaller angle wins: three of four times *)
WinEv(e) == IF e.raised THEN {"raised"} ELSE If(e.near * 100 < 68 * e.n \/ e.near * 100 > 82 * e.n, "the elite at the smaller angle leads")
(* pairs of position and velocity (or step size) stay together *)
PairEv(e) == If(\E q \in Rng(e.now) : q \notin Rng(e.known), "state of another member")

(* ----------------------------------- evolution strategies ----------------------------------- *)
Par(e, i) == ((i - 1) % Mn(e.mu, Len(e.X))) + 1
Half(a, b) == (a + b) \div 2
EsEv(e) == IF e.raised THEN {"raised"} ELSE
  LET n == Len(e.Xn) m == Len(e.xl)
      vary == IF e.gamma >= 0 THEN 1..Mn(Mn(e.mu - 1, Len(e.X) - 1), n) ELSE {}
      y(i, k) == e.X[i][k] + (e.gamma * (e.X[1][k] - e.X[i + 1][k])) \div 1000 IN
  If(n # e.lambda, "number of offspring")
  \cup If(\E i \in vary : \E k \in 1..m : Abs(e.Sn[i][k] - e.S[i][k]) > 1, "step sizes of the directed offspring")
  \cup If(\E i \in vary : \E k \in 1..m : ~(Abs(e.Xn[i][k] - y(i, k)) <= Tol \/ y(i, k) > e.xu[k] - Tol \/ y(i, k) < e.xl[k] + Tol), "directed offspring")
  \cup If(\E i \in 1..n : \E k \in 1..m : e.Sn[i][k] > e.smax[k] + 1 \/ e.Sn[i][k] < 0, "step size beyond its maximum")
  \cup If(e.still = "mean" /\ \E i \in 1..n \ vary : \E k \in 1..m : ~\E j \in 1..n : Abs(e.Sn[i][k] - Half(e.S[Par(e, i)][k], e.S[Par(e, j)][k])) <= 2, "step sizes are the mean of two parents")
  \cup If(e.still = "same" /\ \E i \in 1..n \ vary : \E k \in 1..m : Abs(e.Sn[i][k] - e.S[Par(e, i)][k]) > 1, "step sizes change without a learning rate")
  \cup If(\E i \in 1..n \ vary : e.big /\ \E k \in 1..m : Abs(e.Xn[i][k] - e.X[Par(e, i)][k]) > 6 * e.Sz[i][k] + Tol, "step is longer than its step size allows")
  \cup If(\E i \in 1..n : \E k \in 1..m : e.Xn[i][k] > e.xu[k] \/ e.Xn[i][k] < e.xl[k], "outside of the box")
(* first step sizes: the range over the square root of the number of variables *)
SigmaEv(e) == If(\E q \in Rng(e.S) : \E k \in 1..Len(q) : Abs(q[k] - e.smax[k]) > 1, "first step sizes")
  \cup If(\E k \in 1..Len(e.smax) : Abs(((e.smax[k] * e.smax[k]) \div 100) * Len(e.smax) - (((e.xu[k] - e.xl[k]) * (e.xu[k] - e.xl[k])) \div 100)) > (e.xu[k] - e.xl[k]) \div 20 + 8, "maximum step size")
(* of n steps measured in step sizes, the number within one and within two *)
NormalEv(e) == If(e.one * 100 < 62 * e.n \/ e.one * 100 > 74 * e.n, "steps are as long as their step sizes say") \cup If(e.two * 100 < 92 * e.n \/ e.two * 100 > 98 * e.n, "steps are as long as their step sizes say")
(* n logarithms of changes of step sizes: mean square against the variance, both in ten-thousandths *)
LogEv(e) == If(e.ms * 100 < 75 * e.var \/ e.ms * 100 > 130 * e.var, "step sizes change as fast as the learning rates say")

(* ------------------------------- problems that change ------------------------------- *)
(* a member: [x |-> number of the position, f |-> objectives]; e.before / e.after: the population; e.reqs: the requests  *)
(* to the problem, e.vals: the values it gave; e.new: the positions that are in no member of e.before                  *)
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE SqDiff(_, _, _)
SqDiff(a, b, j) == IF j = 0 THEN 0 ELSE (a[j] - b[j]) * (a[j] - b[j]) + SqDiff(a, b, j - 1)
FOf(pop, x) == {pop[i].f : i \in {i \in 1..Len(pop) : pop[i].x = x}}
Pool(e, rs) == UNION {{[x |-> e.reqs[r][i], f |-> e.vals[r][i]] : i \in 1..Len(e.reqs[r])} : r \in rs}
(* the samples are drawn among the members; the change is noticed iff their values moved by more than eps on average *)
Noticed(e) == LET n == Len(e.reqs[1])
                  d == Sum([i \in 1..n |-> LET F == CHOOSE f \in FOf(e.before, e.reqs[1][i]) : TRUE IN SqDiff(F, e.vals[1][i], Len(F))])
              IN d > e.eps * n * Len(e.before[1].f)
DynEv(e) == IF e.raised THEN {"raised"} ELSE
  LET N == Len(e.before)
      B == {e.before[i].x : i \in 1..N}
  IN IF Len(e.reqs) < 1 \/ Len(e.reqs[1]) # Ceil(N * e.perc, 100) THEN {"number of members checked for a change"}
     ELSE IF \E x \in Rng(e.reqs[1]) : x \notin B THEN {"something else than members checked for a change"}
     ELSE LET ch == Noticed(e)
              nr == Len(e.reqs)
              re == IF e.alg = "KGB" THEN 3 ELSE 2           \* the request with the new population
              want == IF ch THEN re + 1 ELSE 2 IN
       IF nr # want THEN {IF ch THEN "a change that shows is not reacted to" ELSE "reaction without a change"}
       ELSE If(Len(e.reqs[nr]) # e.noff, "number of offspring")
        \cup If(Sum([r \in 1..nr |-> Len(e.reqs[r])]) # e.counted, "evaluations counted")
        \cup (IF ~ch THEN LET P == Rng(e.before) \cup Pool(e, {2}) IN
                 If(\E q \in Rng(e.after) : q \notin P, "members with values of no evaluation")
                 \cup If(\E q \in Rng(e.after) : \E p \in P : p \notin Rng(e.after) /\ Dom(p.f, q.f), "a better solution was dropped")
              ELSE LET P == Pool(e, {re, nr}) IN
                 If(Len(e.reqs[re]) # N, "the whole population is evaluated again")
                 \cup If(\E q \in Rng(e.after) : q \notin P, "members with values from before the change")
                 \cup If(\E q \in Rng(e.after) : \E p \in P : p \notin Rng(e.after) /\ Dom(p.f, q.f), "a better solution was dropped")
                 \cup (IF e.alg = "KGB" THEN If(Len(e.reqs[2]) > e.clusters, "more clusters than configured") \cup If(\E x \in Rng(e.reqs[2]) : x \notin Rng(e.reqs[3]), "centres of the clusters are part of the new population")
                       ELSE If(Len(e.reqs[re]) = N /\ \E i \in 1..N : e.reqs[re][i] # e.before[i].x /\ e.reqs[re][i] \in B /\ Cardinality(B) = N, "kept members are moved around")
                        \cup If(Len(e.reqs[re]) = N /\ e.share = 0 /\ \E i \in 1..N : e.reqs[re][i] # e.before[i].x, "members replaced although none is to be")
                        \cup If(Len(e.reqs[re]) = N /\ e.share = 100 /\ e.version = "A" /\ \E i \in 1..N : e.reqs[re][i] = e.before[i].x, "members kept although all are to be replaced")))
        \cup If(\E k \in 1..Len(e.low) : e.low[k] < 0 \/ e.high[k] > 1000, "outside of the box")
        \cup If(Len(e.after) # Mn(e.size, N + e.noff), "size of the population")
        \cup If(\E q \in Rng(e.opt) : q \notin Rng(e.after), "the optimum is not part of the population")
        \cup If(\E q \in Rng(e.opt) : \E p \in Rng(e.after) : Dom(p.f, q.f), "the optimum is dominated")
(* share of replaced members over many changes, in percent of n *)
ShareEv(e) == If(Abs(100 * e.got - e.share * e.n) > 12 * e.n, "share of replaced members")
=============================================================================
