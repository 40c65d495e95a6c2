----------------------------- MODULE DensTrace ------------------------------
EXTENDS Kernels, TLC, Json, IOUtils
VARIABLES t, l, st
AllTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)
InitS(tr) == [z |-> 0]
StepS(tr, s, e) == s
If(b, nm) == IF b THEN {} ELSE {nm}
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
DensScale(kind, F, U) ==
  LET s == Scale(Ranges(F, U))  m == Len(F[1]) IN
  CASE kind \in {"cd", "pcd"} -> m * s [] kind = "mnn" -> Pow(s, 2 * m) [] kind = "2nn" -> Pow(s, 4)
(* e.raw: the kernel itself (no special treatment of few or duplicate points) *)
DensBreaks(e) ==
  LET F == e.F
      N == Len(F)
      all == 1..N
      U == IF e.kind = "cd" THEN all ELSE Uniq1(F)
      d == e.d IN
  If(e.same, "input-changed")
  \cup If(Len(d) = N, "one-value-per-point")
  \cup IF Len(d) # N THEN {}
       ELSE IF (~e.raw /\ (N <= 2 \/ (e.kind = "mnn" /\ N <= Len(F[1])))) \/ (e.raw /\ e.kind \in {"mnn", "2nn"} /\ N <= Len(F[1]))
       THEN If(\A i \in all : d[i] = INF, "few-points-not-infinite")
       ELSE If(e.scale = DensScale(e.kind, F, U), "scale")
            \cup If(\A i \in all \ U : d[i] = 0, "duplicate-not-most-crowded")
            \cup IF e.kind = "cd" THEN If(\A i \in all : d[i] = CD(F, all, i), "crowding-distance-wrong")
                 ELSE LET few == e.kind \in {"mnn", "2nn"} /\ Cardinality(U) <= Len(F[1])
                          m == NumDrop(F, U, e.r) IN
                 IF few THEN If(\A i \in U : d[i] = INF, "few-points-not-infinite")
                 ELSE If(PruneOK(e.kind, F, U, U, m - 1, d), IF m <= 1 THEN "measure-wrong" ELSE "pruning-wrong")
FailS(tr, s, e) ==
  CASE e.k = "dens" -> DensBreaks(e)
    [] e.k = "omni" -> LET all == 1..Len(e.F) IN
         If(Len(e.F) <= 2 \/ e.scale = Len(e.F[1]) * Scale(Ranges(e.F, all)), "scale")
         \cup If(\A i \in all : e.d[i] = (IF e.space = "objective" THEN OmniObj(e.F, all, i) ELSE OmniVar(e.F, all, i)), "crowding-in-space-wrong")
    [] e.k = "dist" -> If(e.D = [i \in 1..Len(e.A) |-> [j \in 1..Len(e.B) |-> IF e.diag /\ i = j THEN INF ELSE Dist(e.kind, e.A[i], e.B[j])]], "distance-wrong")
    [] e.k = "perp" -> If(e.D = [i \in 1..Len(e.A) |-> [j \in 1..Len(e.B) |-> Perp2(e.A[i], e.B[j])]], "perpendicular-distance-wrong")
    [] e.k = "d12" -> If(\A i \in 1..Len(e.F) : LET f == Diff(e.F[i], e.u)  w == e.W[i]  p == Dot(f, w) IN
                           e.d1[i] = (IF p < 0 THEN -1 ELSE 1) * p * p /\ e.d2[i] = Perp2(f, w), "distance-to-weights-wrong")
    [] e.k = "dups" -> If({e.R[i] : i \in DOMAIN e.R} = Dups(e.F), "duplicates-wrong")
    [] e.k = "groups" -> If({{g[i] : i \in DOMAIN g} : g \in {e.G[x] : x \in DOMAIN e.G}} = Groups(e.F) /\ \A x, y \in DOMAIN e.G : x # y => {e.G[x][i] : i \in DOMAIN e.G[x]} # {e.G[y][i] : i \in DOMAIN e.G[y]}, "duplicate-groups-wrong")
    [] e.k = "scal" -> LET P == PairsOf(e.type, Len(e.F), Len(e.W)) IN
         If(e.shape = P.s, "shape-wrong")
         \cup IF e.shape # P.s THEN {} ELSE
         If(\A x \in 1..Len(P.q) : e.scale[x] = ScaleOf(e.method, e.W[P.q[x][2]]), "scale")
         \cup If(\A x \in 1..Len(P.q) : e.v[x] = Scalar(e.method, e.F[P.q[x][1]], e.u, e.W[P.q[x][2]]), "scalarising-value-wrong")
    [] e.k = "same" -> If(e.a = e.b, "not-invariant")
    [] OTHER -> {"raised"}
INSTANCE TraceBase WITH Traces <- AllTraces, InitSt <- InitS, Failing <- FailS, Step <- StepS
=============================================================================
