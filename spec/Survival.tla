------------------------------- MODULE Survival ------------------------------
(* Environmental selection. P: candidates [f, cv, c] (objectives, violation,     *)
(* vector of violation amounts), R: positions of the survivors in their order,   *)
(* n: requested number.                                                        *)
EXTENDS Optimum, Density, Hypervolume
Fs(P) == [i \in 1..Len(P) |-> P[i].f]
Lay(P) == Layers(Fs(P), FeasSet(P, 1..Len(P)))
RankIn(L, i) == CHOOSE r \in 1..Len(L) : i \in L[r]
Uniq(F, S) == {i \in S : \A j \in S : j < i => F[i] # F[j]}

(* least contributions are removed one by one *)
Contr(F, H, i, ref) == HV({F[j] : j \in H}, ref) - HV({F[j] : j \in H \ {i}}, ref)
RECURSIVE HvCut(_, _, _, _)
HvCut(F, H, keep, ref) ==
  H = keep \/ LET v == [i \in H |-> Contr(F, H, i, ref)] IN
              \E k \in {i \in H : \A j \in H : v[i] <= v[j]} \ keep : HvCut(F, H \ {k}, keep, ref)

(* SPEA2: squared distances sorted, strength of the dominators *)
D2(F, i, j) == SumOver([k \in Dims(F) |-> (F[i][k] - F[j][k]) * (F[i][k] - F[j][k])], Dims(F))
RECURSIVE Sorted(_, _, _)
Sorted(F, Q, i) == IF Q = {} THEN <<>> ELSE LET j == CHOOSE x \in Q : \A y \in Q : D2(F, i, x) <= D2(F, i, y) IN <<D2(F, i, j)>> \o Sorted(F, Q \ {j}, i)
RECURSIVE LexLess(_, _)
LexLess(a, b) == a # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b))))
RECURSIVE SpeaCut(_, _, _)
SpeaCut(F, H, keep) ==
  H = keep \/ LET v == [i \in H |-> Sorted(F, H \ {i}, i)] IN
              \E k \in {i \in H : \A j \in H : ~LexLess(v[j], v[i])} \ keep : SpeaCut(F, H \ {k}, keep)
Strength(F, S, i) == Cardinality({j \in S : Dom(F[i], F[j])})
Raw(F, S, i) == LET D == {j \in S : Dom(F[j], F[i])} IN SumOver([j \in D |-> Strength(F, S, j)], D)
RECURSIVE Sqrt(_, _)
Sqrt(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE Sqrt(n, k + 1)
KthD(F, S, i) == LET n == Cardinality(S)  k == Sqrt(n, 0)  v == Sorted(F, S \ {i}, i) IN v[IF k >= n - 1 THEN n - 1 ELSE k + 1]
(* i is at least as fit as j: less dominated, or further away from the k-th neighbour *)
SpeaLeq(F, S, i, j) == LET a == Raw(F, S, i)  b == Raw(F, S, j) IN a < b \/ (a = b /\ KthD(F, S, i) >= KthD(F, S, j))

(* clearing of positions that are in order of quality: D(i,j) "close"; returns the sequence of the selected with their rounds *)
RECURSIVE Clear(_, _, _, _, _, _)
Clear(N, close, n, sel, cleared, round) ==
  IF Len(sel) >= n THEN sel
  ELSE LET rem == (1..N) \ cleared IN
       IF rem = {} THEN Clear(N, close, n, sel, {sel[x][1] : x \in 1..Len(sel)}, round + 1)
       ELSE LET k == MinOf(rem) IN Clear(N, close, n, Append(sel, <<k, round>>), cleared \cup {k} \cup {j \in 1..N : close[k][j]}, round)

FRONTS == {"fronts", "cd", "pcd", "mnn", "2nn", "attr", "age", "hv", "gde3"}
SurvivalBreaks(kind, P, n, R, dens, refpt) ==
  LET N == Len(P)
      all == 1..N
      K == RangeOf(R)
      want == IF n < N THEN n ELSE N
      feas == FeasSet(P, all)
      kf == K \cap feas
      df == feas \ K
      F == Fs(P)
      L == Lay(P)
      rk == [i \in feas |-> RankIn(L, i)]
      ok == K \subseteq all
      split == IF kf = {} \/ df = {} THEN {} ELSE L[MaxOf({rk[i] : i \in kf})]
      cut == split \cap df # {} IN
  If(ok, "survivor-not-offered")
  \cup If(NoDup(R), "survivor-repeated")
  \cup IF ~ok THEN {} ELSE
  If(CASE kind = "rvea" -> Len(R) <= want [] kind = "elite" -> TRUE [] OTHER -> Len(R) = want, "wrong-number-of-survivors")
  \cup If(kind \in {"rvea", "any"} \/ df = {} \/ K \subseteq feas, "feasible-dropped-for-infeasible")
  \cup If(kind \in {"gde3", "ctaea", "any", "elite"} \/ \A i \in K \ feas, j \in all \ (K \cup feas) : P[i].cv <= P[j].cv, "less-violated-dropped")
  \cup If(kind \notin FRONTS \/ \A i \in kf, j \in df : rk[i] <= rk[j], "better-front-dropped")
  \cup If(kind # "age" \/ ~cut \/ split = L[1] \/ \E i \in split : dens[i] > 0, "density-not-computed")
  \cup If(kind \notin {"attr", "age"} \/ ~cut \/ \A i \in split \cap K, j \in split \ K : dens[i] >= dens[j], "less-dense-dropped")
  \cup If(kind # "cd" \/ ~cut \/ LET v == [i \in split |-> CD(F, split, i)] IN \A i \in split \cap K, j \in split \ K : v[i] >= v[j], "crowding-distance-cut-wrong")
  \cup If(kind \notin {"pcd", "mnn", "2nn"} \/ ~cut \/
          LET U == Uniq(F, split)
              r == Cardinality(split \ K)
              m == NumDrop(F, U, r)
              dup == \E i, j \in split : i # j /\ F[i] = F[j] IN
          dup \/ CutOK(kind, F, split, split, m - 1, split \cap K), "pruning-cut-wrong")
  \cup If(kind # "hv" \/ ~cut \/ HvCut(F, split, split \cap K, refpt), "contribution-cut-wrong")
  \cup If(kind # "spea2" \/ df = {} \/
          LET nd == NonDom(F, feas) IN
          IF Cardinality(nd) >= Cardinality(kf) THEN kf \subseteq nd /\ SpeaCut(F, nd, kf)
          ELSE nd \subseteq kf /\ \A i \in kf \ nd, j \in df : SpeaLeq(F, feas, i, j), "strength-pareto-cut-wrong")
  \cup If(kind # "spea2n" \/ df = {} \/ LET nd == NonDom(F, feas) IN kf \subseteq nd \/ nd \subseteq kf, "non-dominated-dropped")
  \cup If(kind # "gde3" \/
          LET I == all \ feas
              C == [i \in all |-> P[i].c]
              CL == Layers(C, I)
              ki == I \cap K  di == I \ K IN
          \A i \in ki, j \in di : LET a == RankIn(CL, i)  b == RankIn(CL, j) IN a < b \/ (a = b /\ P[i].cv <= P[j].cv), "constraint-front-wrong")
  \cup If(kind # "fitness" \/
          /\ \A x \in 1..Len(R) - 1 : LET a == P[R[x]]  b == P[R[x + 1]] IN a.cv < b.cv \/ (a.cv = b.cv /\ a.f[1] <= b.f[1])
          /\ \A i \in K, j \in all \ K : P[i].cv < P[j].cv \/ (P[i].cv = P[j].cv /\ P[i].f[1] <= P[j].f[1]), "fitness-order-wrong")
=============================================================================
