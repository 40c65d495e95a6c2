------------------------------ MODULE Niching ------------------------------
(* Reference-vector optimizers: niches, association, ideal / worst / nadir points,     *)
(* sub-problems with neighbourhoods, angle-penalised selection and the two archives.   *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {nm} ELSE {}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Dominates(a, b) == (\A j \in 1..Len(a) : a[j] <= b[j]) /\ (\E j \in 1..Len(a) : a[j] < b[j])
RECURSIVE ISqrt3(_, _, _)
ISqrt3(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= x THEN ISqrt3(x, mid, hi) ELSE ISqrt3(x, lo, mid)
ISqrt(x) == IF x < 1 THEN 0 ELSE ISqrt3(x, 0, Mn(x + 1, 46341))
RECURSIVE Dot(_, _, _)
Dot(a, b, j) == IF j = 0 THEN 0 ELSE a[j] * b[j] + Dot(a, b, j - 1)
Dotp(a, b) == Dot(a, b, Len(a))
SumOf(s) == Dotp(s, [k \in 1..Len(s) |-> 1])

(* ------------------------------ layers of dominance ------------------------------ *)
RECURSIVE Layer(_, _, _)
Layer(F, S, k) == LET nd == {i \in S : ~\E h \in S : Dominates(F[h], F[i])} IN IF k = 1 THEN nd ELSE Layer(F, S \ nd, k - 1)
RECURSIVE RankIn(_, _, _, _)
RankIn(F, S, i, k) == LET nd == {a \in S : ~\E h \in S : Dominates(F[h], F[a])} IN IF i \in nd THEN k ELSE RankIn(F, S \ nd, i, k + 1)
RECURSIVE Split(_, _, _, _)
(* the members ranked before the splitting layer, and that layer *)
Split(F, S, n, done) == LET nd == {i \in S : ~\E h \in S : Dominates(F[h], F[i])} IN
  IF Cardinality(done) + Cardinality(nd) >= n \/ nd = S THEN [before |-> done, last |-> nd]
  ELSE Split(F, S \ nd, n, done \cup nd)

(* ---------------------------------- niching ---------------------------------- *)
(* c: count per niche, nic: niche of each candidate, d: its distance; sel: taken so far *)
Open(nic, sel) == {nic[i] : i \in {x \in 1..Len(nic) : x \notin sel}}
Allowed(c, nic, d, sel, tol) ==
  LET op == Open(nic, sel)
      lo == MinOf({c[n] : n \in op}) IN
  {i \in 1..Len(nic) : /\ i \notin sel /\ c[nic[i]] = lo
                       /\ (c[nic[i]] = 0 => \A h \in 1..Len(nic) : (h \notin sel /\ nic[h] = nic[i]) => d[i] <= d[h] + tol)}
RECURSIVE NichingFails(_, _, _, _, _)
NichingFails(c, nic, d, res, k) ==
  IF k > Len(res) THEN {} ELSE
  LET sel == {res[i] : i \in 1..(k - 1)} IN
  IF res[k] \notin 1..Len(nic) \/ res[k] \in sel THEN {"each candidate once"}
  ELSE IF res[k] \notin Allowed(c, nic, d, sel, 0) THEN {"least crowded niche, nearest first"}
  ELSE NichingFails([c EXCEPT ![nic[res[k]]] = @ + 1], nic, d, res, k + 1)
NichingEv(e) == IF e.raised THEN {"raised"} ELSE
  If(Len(e.res) # e.n, "number selected") \cup NichingFails(e.c, e.nic, e.d, e.res, 1)
(* the same, whatever the order of the result: water-filling over the niches *)
FilledRight(c, cap, g) ==
  \A a \in DOMAIN c : \A b \in DOMAIN c : (g[a] >= 1 /\ g[b] < cap[b]) => c[a] + g[a] - 1 <= c[b] + g[b]

(* ------------------------------- association (exact) ------------------------------- *)
(* v: the translated and normalised point times a common factor; W: integer directions *)
Nearer(v, w, u) == Dotp(v, w) * Dotp(v, w) * Dotp(u, u) >= Dotp(v, u) * Dotp(v, u) * Dotp(w, w)
Nearest(v, W) == {k \in 1..Len(W) : \A h \in 1..Len(W) : Nearer(v, W[k], W[h])}
(* 100 * distance of v to the line through w *)
Perp100(v, w) == LET X == Dotp(v, v) * Dotp(w, w) - Dotp(v, w) * Dotp(v, w) IN ISqrt((X * 10000) \div Dotp(w, w))
AssocEv(e) == IF e.raised THEN {"raised"} ELSE
  UNION {If(e.niche[i] \notin Nearest(e.v[i], e.W), "nearest reference direction")
         \cup If(\E k \in 1..Len(e.W) : Abs(e.mat[i][k] - Perp100(e.v[i], e.W[k])) > 2, "perpendicular distance")
         \cup If(e.niche[i] \in 1..Len(e.W) /\ Abs(e.dist[i] - e.mat[i][e.niche[i]]) > 1, "distance to the niche") : i \in 1..Len(e.v)}

(* --------------------- normalisation of the front (m = 2 or 3) --------------------- *)
Det2(a, b, c, d) == a * d - b * c
Det(M) == IF Len(M) = 2 THEN Det2(M[1][1], M[1][2], M[2][1], M[2][2])
          ELSE M[1][1] * Det2(M[2][2], M[2][3], M[3][2], M[3][3]) - M[1][2] * Det2(M[2][1], M[2][3], M[3][1], M[3][3])
               + M[1][3] * Det2(M[2][1], M[2][2], M[3][1], M[3][2])
OnesAt(M, j) == [i \in 1..Len(M) |-> [M[i] EXCEPT ![j] = 1]]
Asf(f, id, k) == MaxOf({(f[j] - id[j]) * (IF j = k THEN 1 ELSE 1000000) : j \in 1..Len(f)})
Near(x, num, den, tol) == Abs(x * den - num) <= tol * Abs(den)
(* the state: ideal, worst, extreme points (<<>> before the first) *)
NormFails(s, e, nd) ==
  LET m == Len(e.ideal)
      feas == {i \in 1..Len(e.F) : e.cv[i] = 0}
      id == [j \in 1..m |-> IF feas = {} THEN s.ideal[j] ELSE Mn(s.ideal[j], MinOf({e.F[i][j] : i \in feas} \cup {r[j] : r \in s.ref}))]
      wo == [j \in 1..m |-> IF feas = {} THEN s.worst[j] ELSE Mx(s.worst[j], MaxOf({e.F[i][j] : i \in feas} \cup {r[j] : r \in s.ref}))]
      cand == {e.F[i] : i \in nd} \cup SetOf(s.ext) IN
  If(e.ideal # id, "ideal point is the best ever seen") \cup If(e.worst # wo, "worst point is the worst ever seen")
  \cup (IF feas = {} \/ ~e.hyper \/ e.ideal # id \/ e.worst # wo THEN {} ELSE
    If(\E k \in 1..m : e.ext[k] \notin cand \/ \E f \in cand : Asf(f, id, k) < Asf(e.ext[k], id, k), "extreme points")
    \cup (LET M == [k \in 1..m |-> [j \in 1..m |-> e.ext[k][j] - id[j]]]
              dt == Det(M)
              dj == [j \in 1..m |-> Det(OnesAt(M, j))]
              wf == [j \in 1..m |-> MaxOf({e.F[i][j] : i \in nd})]
              wp == [j \in 1..m |-> MaxOf({e.F[i][j] : i \in feas})]
              plane == \A j \in 1..m : (dt > 0) = (dj[j] > 0)
              ok(j) == IF plane THEN (IF Abs(dt) > (wo[j] - id[j]) * Abs(dj[j])
                                      THEN e.nadir[j] = 1000 * wo[j]
                                      ELSE Near(e.nadir[j] - 1000 * id[j], 1000 * dt, dj[j], 2))
                       ELSE e.nadir[j] = 1000 * (IF wf[j] = id[j] THEN wp[j] ELSE wf[j]) IN
          IF \E j \in 1..m : dt = 0 \/ dj[j] = 0 THEN If(\E j \in 1..m : e.nadir[j] > 1000 * wo[j] \/ e.nadir[j] < 1000 * id[j], "nadir between ideal and worst")
          ELSE IF \E j \in 1..m : wo[j] = id[j] THEN {}
          ELSE If(\E j \in 1..m : ~ok(j), "nadir point")))
NormStep(s, e) ==
  LET m == Len(e.ideal)
      feas == {i \in 1..Len(e.F) : e.cv[i] = 0} IN
  IF feas = {} THEN s ELSE
  [s EXCEPT !.ideal = [j \in 1..m |-> Mn(s.ideal[j], MinOf({e.F[i][j] : i \in feas} \cup {r[j] : r \in s.ref}))],
            !.worst = [j \in 1..m |-> Mx(s.worst[j], MaxOf({e.F[i][j] : i \in feas} \cup {r[j] : r \in s.ref}))],
            !.ext = IF e.hyper THEN e.ext ELSE <<>>]

(* directions around aspiration points: the directions e.R (integers summing to e.P),    *)
(* shrunk by e.a thousandths, are moved so that their centre is where the ray through the *)
(* point meets the plane of all directions; what would leave the first orthant is clipped *)
(* and rescaled; the unit vectors follow. e.p: the points (any scale), e.dirs in 1/10000  *)
AspireRow(e, q, i) ==
  LET m == Len(q)
      n == Len(e.R)
      S == SumOf([k \in 1..m |-> q[k]])
      C == [k \in 1..m |-> SumOf([h \in 1..n |-> e.R[h][k]])]
      v == [k \in 1..m |-> ((10 * e.a * e.R[i][k]) \div e.P) + ((10000 * q[k]) \div S) - ((10 * e.a * C[k]) \div (e.P * n))]
      w == [k \in 1..m |-> Mx(0, v[k])]
      T == SumOf(w) IN
  IF T = 0 THEN v ELSE [k \in 1..m |-> (w[k] * 10000) \div T]
AspireEv(e) == IF e.raised THEN {"raised"} ELSE
  LET n == Len(e.R)
      m == Len(e.p[1])
      want(j) == IF j > n * Len(e.p) THEN [k \in 1..m |-> IF k = j - n * Len(e.p) THEN 10000 ELSE 0]
                 ELSE AspireRow(e, e.p[((j - 1) \div n) + 1], ((j - 1) % n) + 1) IN
  IF Len(e.dirs) # n * Len(e.p) + m THEN {"number of directions around the aspiration points"}
  ELSE If(\E j \in 1..Len(e.dirs) : \E k \in 1..m : Abs(e.dirs[j][k] - want(j)[k]) > e.tol, "directions around the aspiration points")

(* one generation: e.F, e.cv the merged population, e.chosen the survivors;            *)
(* e.D the distances of every feasible one to every direction (scaled), e.niche /      *)
(* e.rank / e.dist what the survivors carry, e.opt the reported optimum                *)
SurviveEv(s, e) == IF e.raised THEN {"raised"} ELSE
  LET feas == {i \in 1..Len(e.F) : e.cv[i] = 0}
      n == Mn(e.n, Cardinality(feas))
      nd == Layer(e.F, feas, 1)
      tol == 3
      best(i) == MinOf(SetOf(e.D[i]))
      ch == SetOf(e.chosen) \cap feas
      sp == Split(e.F, feas, n, {})
      pos(i) == CHOOSE k \in 1..Len(e.chosen) : e.chosen[k] = i
      N == Len(e.D[1])
      nic(i) == e.nicheof[i]
      cnt == [k \in 1..N |-> Cardinality({i \in sp.before : nic(i) = k})]
      cap == [k \in 1..N |-> Cardinality({i \in sp.last : nic(i) = k})]
      g == [k \in 1..N |-> Cardinality({i \in sp.last \cap ch : nic(i) = k})] IN
  NormFails(s, e, nd) \cup
  (IF feas = {} THEN {} ELSE
   If(Cardinality(ch) # n \/ Len(e.chosen) # Cardinality(SetOf(e.chosen)), "number of survivors")
   \cup If(\E i \in sp.before : i \notin ch, "better layers survive first") \cup If(~(ch \subseteq sp.before \cup sp.last), "no worse layer survives")
   \cup If(\E i \in sp.before \cup sp.last : nic(i) \notin 1..N, "every ranked member has a niche")
   \cup If(\E i \in sp.before \cup sp.last : nic(i) \in 1..N /\ e.D[i][nic(i)] > best(i) + tol, "nearest reference direction")
   \cup If(\E i \in sp.before \cup sp.last : nic(i) \in 1..N /\ Abs(e.distof[i] - e.D[i][nic(i)]) > tol, "distance to the niche")
   \cup If(\E i \in sp.before \cup sp.last : e.rankof[i] # RankIn(e.F, feas, i, 0), "rank of the member")
   \cup (IF \E i \in sp.before \cup sp.last : nic(i) \notin 1..N THEN {} ELSE
         If(Cardinality(sp.before \cup sp.last) > n /\ ~FilledRight(cnt, cap, g), "least crowded niches filled first")
         \cup If(\E k \in 1..N : cnt[k] = 0 /\ g[k] >= 1 /\ ~\E i \in sp.last \cap ch : nic(i) = k /\ \A h \in sp.last : nic(h) = k => e.D[i][k] <= e.D[h][k] + tol, "nearest member represents an empty niche")
         \cup If(\E i \in SetOf(e.opt) : i \notin ch \/ i \notin nd, "the optimum is non-dominated and survived")
         \cup If(e.opt = <<>>, "an optimum is reported")))

(* ------------------------------- scalarised values ------------------------------- *)
(* f, ideal, w integers; every value times Len-specific factors so that it is integer   *)
Tcheb(f, z, w) == MaxOf({Abs(f[j] - z[j]) * w[j] : j \in 1..Len(f)})
Sum(f, w) == Dotp(f, w)
(* weights as used by ASF, values times L = product of the (non-zero) weights *)
RECURSIVE Prod(_, _)
Prod(w, j) == IF j = 0 THEN 1 ELSE (IF w[j] = 0 THEN 1 ELSE w[j]) * Prod(w, j - 1)
AsfL(f, z, w) == MaxOf({((f[j] - z[j]) * Prod(w, Len(w))) \div w[j] : j \in 1..Len(f)})
RECURSIVE Augm(_, _, _, _)
Augm(f, z, w, j) == IF j = 0 THEN 0 ELSE ((f[j] - z[j]) * Prod(w, Len(w))) \div w[j] + Augm(f, z, w, j - 1)
(* penalty boundary intersection times 100 |w| *)
Pbi100(f, z, w, theta) == LET v == [j \in 1..Len(f) |-> f[j] - z[j]]
                              X == Dotp(v, v) * Dotp(w, w) - Dotp(v, w) * Dotp(v, w) IN 100 * Dotp(v, w) + theta * ISqrt(X * 10000)
Scal(kind, f, z, w, theta) == CASE kind = "tcheb" -> Tcheb(f, z, w) [] kind = "sum" -> Sum(f, w) [] kind = "asf" -> AsfL(f, z, w) [] kind = "pbi" -> Pbi100(f, z, w, theta)
  [] kind = "aasf" -> AsfL(f, z, w) + theta * Augm(f, z, w, Len(f)) [] kind = "perp" -> Pbi100(f, z, w, 1) - 100 * Dotp([j \in 1..Len(f) |-> f[j] - z[j]], w)
Slack(kind, theta) == IF kind = "pbi" THEN 2 * theta + 2 ELSE 0
(* a table of values: e.val[i][k] over e.F[i] and e.W[k] (scaled alike), or pairs *)
DecompEv(e) == IF e.raised THEN {"raised"} ELSE
  If(\E x \in SetOf(e.pairs) : Abs(x[3] - Scal(e.kind, e.F[x[1]], e.z, e.W[x[2]], e.theta)) > e.tol, "scalarised value")
  \cup If(SetOf(e.shape) # SetOf(e.want), "shape of the result")

(* ------------------------------ sub-problems (MOEA/D) ------------------------------ *)
D2(a, b) == LET v == [j \in 1..Len(a) |-> a[j] - b[j]] IN Dotp(v, v)
(* the T nearest directions, itself included *)
ValidNeighbours(W, k, N, T) == /\ Len(N) = Mn(T, Len(W)) /\ Cardinality(SetOf(N)) = Len(N) /\ SetOf(N) \subseteq 1..Len(W)
                               /\ \A a \in SetOf(N) : \A b \in (1..Len(W)) \ SetOf(N) : D2(W[k], W[a]) <= D2(W[k], W[b])
                               /\ (k \in SetOf(N) \/ \A a \in SetOf(N) : D2(W[k], W[a]) = 0)
MinPt(a, b) == [j \in 1..Len(a) |-> Mn(a[j], b[j])]
(* cfg: W, nb (neighbours), kind, theta. One offspring f for sub-problem k: who takes it *)
Must(cfg, pop, z, f, j) == Scal(cfg.kind, f, z, cfg.W[j], cfg.theta) + Slack(cfg.kind, cfg.theta) < Scal(cfg.kind, pop[j], z, cfg.W[j], cfg.theta)
May(cfg, pop, z, f, j) == /\ pop[j] # f
                          /\ Scal(cfg.kind, f, z, cfg.W[j], cfg.theta) <= Scal(cfg.kind, pop[j], z, cfg.W[j], cfg.theta) + Slack(cfg.kind, cfg.theta)
(* exact ties may fall either way only through rounding *)
ReplaceFails(cfg, pop, z, f, k, took) ==
  LET N == SetOf(cfg.nb[k]) IN
  If(\E j \in took : j \notin N, "only the neighbourhood is updated")
  \cup If(\E j \in N : Must(cfg, pop, z, f, j) /\ j \notin took, "every improved neighbour is replaced")
  \cup If(\E j \in took \cap N : ~May(cfg, pop, z, f, j), "only improvements replace")
MoeadEv(cfg, s, e) == IF e.raised THEN {"raised"} ELSE
  LET z == MinPt(s.z, e.f)
      took == SetOf(e.took) IN
  If(e.z # z, "ideal point is the best ever seen")
  \cup If(Len(e.after) # Len(s.pop), "one solution per sub-problem")
  \cup If(\E j \in 1..Len(s.pop) : j \notin took /\ e.after[j] # s.pop[j], "others stay as they are")
  \cup If(\E j \in took : e.after[j] # e.f, "the offspring is what replaces")
  \cup (IF e.sub # 0 THEN If(e.sub \in s.done, "every sub-problem once per sweep") \cup ReplaceFails(cfg, s.pop, z, e.f, e.sub, took)
        ELSE If(\A k \in 1..Len(s.pop) : ReplaceFails(cfg, s.pop, z, e.f, k, took) # {}, "replacement in some neighbourhood"))
MoeadStep(s, e) == [pop |-> e.after, z |-> MinPt(s.z, e.f),
                    done |-> LET d == s.done \cup {e.sub} IN IF Cardinality(d) >= Len(s.pop) \/ e.sub = 0 THEN {} ELSE d]
(* the parallel variant: one batch of offspring, first the ideal point, then in order *)
RECURSIVE FoldIdeal(_, _, _)
FoldIdeal(z, fs, i) == IF i > Len(fs) THEN z ELSE FoldIdeal(MinPt(z, fs[i]), fs, i + 1)
(* who holds which offspring afterwards: lo / hi bounds through rounding are not needed  *)
(* for exact kinds *)
RECURSIVE FoldReplace(_, _, _, _, _, _)
FoldReplace(cfg, pop, z, fs, ks, i) ==
  IF i > Len(fs) THEN pop
  ELSE FoldReplace(cfg, [j \in 1..Len(pop) |-> IF j \in SetOf(cfg.nb[ks[i]]) /\ Must(cfg, pop, z, fs[i], j) THEN fs[i] ELSE pop[j]], z, fs, ks, i + 1)
BatchEv(cfg, s, e) == IF e.raised THEN {"raised"} ELSE
  LET z == FoldIdeal(s.z, e.fs, 1) IN
  If(e.z # z, "ideal point is the best ever seen")
  \cup If(Cardinality(SetOf(e.ks)) # Len(e.ks) \/ Len(e.ks) # Len(e.fs), "every sub-problem once per sweep")
  \cup If(Slack(cfg.kind, cfg.theta) = 0 /\ FoldReplace(cfg, s.pop, z, e.fs, e.ks, 1) # e.after, "replacement in order")
NeighbourEv(cfg, e) == If(\E k \in 1..Len(cfg.W) : ~ValidNeighbours(cfg.W, k, cfg.nb[k], e.T), "nearest neighbours")

(* ------------------------ angle-penalised selection (RVEA) ------------------------ *)
(* e.F integer objectives (feasible), e.ang[i][k] the angles, e.apd[i] the value of i in *)
(* its own niche (both scaled); e.chosen the survivors                                   *)
ApdEv(s, e) == IF e.raised THEN {"raised"} ELSE
  LET n == Len(e.F)
      id == [j \in 1..Len(e.ideal) |-> Mn(s.ideal[j], MinOf({e.F[i][j] : i \in 1..n}))]
      tol == 5
      ch == SetOf(e.chosen)
      K == 1..Len(e.ang[1]) IN
  If(e.ideal # id, "ideal point is the best ever seen")
  \cup If(\E i \in 1..n : e.niche[i] \notin K, "every member has a niche")
  \cup (IF \E i \in 1..n : e.niche[i] \notin K THEN {} ELSE
    If(\E i \in 1..n : \E k \in K : e.ang[i][k] + tol < e.ang[i][e.niche[i]], "nearest reference vector")
    \cup If(\E k \in K : (\E i \in 1..n : e.niche[i] = k) /\ Cardinality({i \in ch : e.niche[i] = k}) # 1, "one survivor per occupied niche")
    \cup If(\E i \in ch : \E h \in 1..n : e.niche[h] = e.niche[i] /\ e.apd[h] + Mx(tol, e.apd[h] \div 50000) < e.apd[i], "the smallest penalised distance survives"))
  \cup If(Len(e.chosen) # Cardinality(ch), "each survivor once")
  \cup If(ch # {} /\ e.nadir # [j \in 1..Len(e.ideal) |-> MaxOf({e.F[i][j] : i \in ch})], "nadir of the survivors")
ApdStep(s, e) == [s EXCEPT !.ideal = [j \in 1..Len(e.ideal) |-> Mn(s.ideal[j], MinOf({e.F[i][j] : i \in 1..Len(e.F)}))]]

(* ---------------------- convergence and diversity archives ---------------------- *)
(* all: every candidate (pop, then offspring, then the old diversity archive), by index; *)
(* e.ca0/e.off/e.da0 index lists before, e.ca/e.da after; e.FV fitness (scaled),         *)
(* e.D distances to the directions                                                       *)
Tri(x) == IF x <= 0 THEN 0 ELSE (x * (x + 1)) \div 2
ArchEv(s, e) == IF e.raised THEN {"raised"} ELSE
  LET m == Len(e.ideal)
      n == e.n
      hm == SetOf(e.ca0) \cup SetOf(e.off)
      hd == SetOf(e.da0) \cup SetOf(e.off)
      feas == {i \in hm : e.cv[i] = 0}
      inf == hm \ feas
      ca == SetOf(e.ca)
      da == SetOf(e.da)
      tol == 3
      id == [j \in 1..m |-> Mn(s.ideal[j], MinOf({e.F[i][j] : i \in SetOf(e.off)}))]
      N == Len(e.D[1])
      near(i) == {k \in 1..N : \A h \in 1..N : e.D[i][k] <= e.D[i][h] + tol}
      clear == \A i \in hm \cup hd : Cardinality(near(i)) = 1
      nic(i) == CHOOSE k \in near(i) : TRUE
      sp == Split(e.F, feas, n, {})
      U == sp.before \cup sp.last
      had == [k \in 1..N |-> Cardinality({i \in U : nic(i) = k})]
      has == [k \in 1..N |-> Cardinality({i \in ca : nic(i) = k})]
      cak == has
      hdk == [k \in 1..N |-> Cardinality({i \in hd : nic(i) = k})]
      dak == [k \in 1..N |-> Cardinality({i \in da : nic(i) = k})] IN
  If(e.ideal # id, "ideal point is the best ever seen")
  \cup If(Len(e.ca) # n \/ Cardinality(ca) # n \/ ~(ca \subseteq hm), "size of the convergence archive")
  \cup If(Len(e.da) # n \/ Cardinality(da) # n \/ ~(da \subseteq hd), "size of the diversity archive")
  \cup (IF Cardinality(feas) <= n THEN If(~(feas \subseteq ca), "feasible first")
          \cup If(\E a \in inf \cap ca : \E b \in inf \ ca : (e.cv[b] < e.cv[a] /\ e.FV[b] + tol < e.FV[a]), "less violating and closer first")
        ELSE If(~(ca \subseteq U), "only the first layers") \cup
             (IF ~clear THEN {} ELSE If(\E a \in 1..N : \E b \in 1..N : has[a] < had[a] /\ has[b] > has[a] + 1, "the most crowded niche loses")))
  \cup (IF ~clear THEN {} ELSE
        If(~\E T \in 0..(2 * n + 2) : \A k \in 1..N : /\ Mn(hdk[k], Tri(T - 1 - cak[k])) <= dak[k] /\ dak[k] <= Mn(hdk[k], Tri(T - cak[k])), "diversity archive fills the empty niches first")
        \cup If(\E k \in 1..N : dak[k] > 0 /\ ~\E i \in da : nic(i) = k /\ ~\E h \in hd : nic(h) = k /\ Dominates(e.F[h], e.F[i]), "a non-dominated member represents the niche"))
ArchStep(s, e) == [s EXCEPT !.ideal = e.ideal]
=============================================================================
