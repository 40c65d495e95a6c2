------------------------------- MODULE Report -------------------------------
(* What a run reports about itself: the table printed while it runs, the progress *)
(* shown, the data recorders keep and the running metric. Objective values are    *)
(* small integers; distances are in thousandths of 1 / L, numbers shown in 10^-4. *)
EXTENDS Indicators
Bad(b, nm) == IF b THEN {nm} ELSE {}
Close(v, num, den, t) == Abs(v * den - 10000 * num) <= t * den + 1       \* v / 10000 is num / den up to t / 10000
CloseM(v, milli, n, L) == Abs(v * (L * n) - 10 * milli) <= 2 * L * n + 10 * n      \* the mean of n distances
Ideal(F) == [j \in 1..Len(F[1]) |-> MinS({F[i][j] : i \in 1..Len(F)})]
Nadir(F) == [j \in 1..Len(F[1]) |-> MaxS({F[i][j] : i \in 1..Len(F)})]
Range(F) == [j \in 1..Len(F[1]) |-> Nadir(F)[j] - Ideal(F)[j]]
In(F, id, nd, L) == [k \in 1..Len(F) |-> Norm(F[k], id, nd, L)]

(* ---- columns ---- *)
Columns(single, cons, pf, m) ==
  {"n_gen", "n_eval"} \cup (IF cons THEN {"cv_min", "cv_avg"} ELSE {})
  \cup IF single THEN {"f_avg", "f_min"} \cup (IF pf THEN {"f_gap"} ELSE {})
       ELSE {"n_nds"} \cup IF pf THEN {"igd", "gd"} \cup (IF m = 2 THEN {"hv"} ELSE {}) ELSE {"eps", "indicator"}
Heading(e) == Bad(~Columns(e.single, e.cons, e.pf, e.m) \subseteq SetOf(e.cols), "columns-missing")
           \cup Bad(~SetOf(e.cols) \subseteq Columns(e.single, e.cons, e.pf, e.m) \cup SetOf(e.extra), "columns-not-for-this-problem")
           \cup Bad(Cardinality(SetOf(e.cols)) # Len(e.cols), "columns-twice")
           \cup Bad(e.heads # 1, "one-header") \cup Bad(e.rows # e.gens, "one-row-each-generation") \cup Bad(~e.aligned, "rows-aligned")

(* ---- the change from one generation to the next, in units of the current range ---- *)
MaxDelta(a, b, r) == MaxFr({<<Abs(a[j] - b[j]), IF r[j] = 0 THEN 1 ELSE r[j]>> : j \in 1..Len(a)})
\* what is shown when the set c follows p: the first of ideal, nadir and the set itself which has moved
Moved(c, p) == IF Ideal(c) # Ideal(p) THEN "ideal" ELSE IF Nadir(c) # Nadir(p) THEN "nadir" ELSE "f"
Eps(c, p, v, L) ==
  CASE Moved(c, p) = "ideal" -> LET d == MaxDelta(Ideal(c), Ideal(p), Range(c)) IN Close(v, d[1], d[2], 2)
    [] Moved(c, p) = "nadir" -> LET d == MaxDelta(Nadir(c), Nadir(p), Range(c)) IN Close(v, d[1], d[2], 2)
    [] OTHER -> LET C == In(c, Ideal(c), Nadir(c), L) P == In(p, Ideal(c), Nadir(c), L) IN CloseM(v, IGDsum(P, C), Len(C), L)
\* sets the next change may be measured from: the last one, and while only members got lost the one before
Earlier(P, c) == {c} \cup {p \in P : SetOf(c) \subseteq SetOf(p) /\ Ideal(c) = Ideal(p) /\ Nadir(c) = Nadir(p)}

(* ---- a row: what the generation has and what the cells say ---- *)
Feasible(F, cv) == LET I == SelectSeq([k \in 1..Len(F) |-> k], LAMBDA k : cv[k] = 0) IN [k \in 1..Len(I) |-> F[I[k]]]
Has(e, nm) == nm \in SetOf(e.cols)
Cell(e, nm) == e.cells[CHOOSE i \in 1..Len(e.cols) : e.cols[i] = nm]
Blank(e, nm) == Has(e, nm) => Cell(e, nm).blank
Says(e, nm, num, den, t) == Has(e, nm) => ~Cell(e, nm).blank /\ Close(Cell(e, nm).v, num, den, t)
SaysM(e, nm, milli, n, L) == Has(e, nm) => ~Cell(e, nm).blank /\ CloseM(Cell(e, nm).v, milli, n, L)
Row(st, e) ==
  LET n == Len(e.F) O == Feasible(e.oF, e.ocv) A == Feasible(e.F, e.cv) L == e.L
      Z == IF e.pf = <<>> THEN <<>> ELSE In(e.pf, Ideal(e.pf), Nadir(e.pf), L)
      Q == IF e.pf = <<>> THEN <<>> ELSE In(O, Ideal(e.pf), Nadir(e.pf), L) IN
  Bad(Cell(e, "n_gen").v # 10000 * e.gen, "n_gen") \cup Bad(Cell(e, "n_eval").k # e.evals, "n_eval")
  \cup Bad(\E i \in 1..Len(e.extra) : Abs(e.extra[i][1] - e.extra[i][2]) > e.extra[i][3], "own-columns")
  \cup Bad(Has(e, "cv_min") /\ ~Says(e, "cv_min", MinS(SetOf(e.ocv)), 1, 1), "cv_min")
  \cup Bad(Has(e, "cv_avg") /\ ~Says(e, "cv_avg", Sum(e.cv), n, 1), "cv_avg")
  \cup (IF e.single THEN
          Bad(IF A = <<>> THEN ~Blank(e, "f_avg") ELSE ~Says(e, "f_avg", Sum([k \in 1..Len(A) |-> A[k][1]]), Len(A), 1), "f_avg")
          \cup Bad(IF O = <<>> THEN ~Blank(e, "f_min") ELSE ~Says(e, "f_min", Ideal(O)[1], 1, 1), "f_min")
          \cup Bad(Has(e, "f_gap") /\ (IF O = <<>> THEN ~Blank(e, "f_gap") ELSE ~Says(e, "f_gap", Ideal(O)[1] - Ideal(e.pf)[1], 1, 1)), "f_gap")
        ELSE
          Bad(~Says(e, "n_nds", Len(e.oF), 1, 0), "n_nds")
          \cup Bad(Has(e, "igd") /\ (IF O = <<>> THEN ~Blank(e, "igd") ELSE ~SaysM(e, "igd", IGDsum(Q, Z), Len(Z), L)), "igd")
          \cup Bad(Has(e, "gd") /\ (IF O = <<>> THEN ~Blank(e, "gd") ELSE ~SaysM(e, "gd", GDsum(Q, Z), Len(Q), L)), "gd")
          \cup Bad(Has(e, "hv") /\ (IF O = <<>> THEN ~Blank(e, "hv") ELSE ~Says(e, "hv", HV(SetOf(Q), [j \in 1..Len(e.pf[1]) |-> L]), L * L, 2)), "hv")
          \cup Bad(Has(e, "eps") /\ (IF O = <<>> \/ st.P = {} THEN ~Blank(e, "eps") \/ ~Blank(e, "indicator")
                                     ELSE Cell(e, "eps").blank \/ ~\E p \in st.P : Eps(O, p, Cell(e, "eps").v, L) /\ Cell(e, "indicator").text = Moved(O, p)), "eps"))
AfterRow(st, e) == LET O == Feasible(e.oF, e.ocv) IN IF O = <<>> THEN st ELSE [st EXCEPT !.P = Earlier(st.P, O)]

(* ---- recorders: first call, and then once in every n evaluations ---- *)
Due(last, evals, nth) == last < 0 \/ nth = 0 \/ evals \div nth > last \div nth
Rec(st, e) ==
  LET O == Feasible(e.oF, e.ocv) due == Due(st.last, e.evals, e.nth) L == e.L
      Z == IF e.pf = <<>> THEN <<>> ELSE In(e.pf, Ideal(e.pf), Nadir(e.pf), L)
      Q == IF e.pf = <<>> THEN <<>> ELSE In(O, Ideal(e.pf), Nadir(e.pf), L)
      none == O = <<>> \/ e.pf = <<>>  IN
  Bad(e.saved # due, "recorded-when-due")
  \cup IF ~e.saved THEN {} ELSE
       Bad(e.n_evals # e.evals, "recorded-evaluations") \cup Bad(e.rcv # 10000 * MinS(SetOf(e.ocv)), "recorded-violation")
       \cup IF e.single THEN Bad(e.f.inf # (O = <<>>) \/ (O # <<>> /\ e.f.v # 10000 * Ideal(O)[1]), "recorded-best")
                            \cup Bad(e.gap.inf # none \/ (~none /\ e.gap.v # 10000 * (Ideal(O)[1] - Ideal(e.pf)[1])), "recorded-gap")
          ELSE Bad(e.igd.inf # none \/ (~none /\ ~CloseM(e.igd.v, IGDsum(Q, Z), Len(Z), L)), "recorded-igd")
               \cup Bad(e.igdp.inf # none \/ (~none /\ ~CloseM(e.igdp.v, IGDPsum(Q, Z), Len(Z), L)), "recorded-igd-plus")
AfterRec(st, e) == IF Due(st.last, e.evals, e.nth) THEN [st EXCEPT !.last = e.evals] ELSE st

(* ---- the running metric: every set of the window against the current one ---- *)
Window(h, x, size) == LET w == Append(h, x) IN IF size > 0 /\ Len(w) > size THEN SubSeq(w, Len(w) - size + 1, Len(w)) ELSE w
Running(st, e) ==
  LET H == Window(st.H, e.F, e.size) n == Len(H) c == H[n] L == e.L id == Ideal(c) nd == Nadir(c)
      C == In(c, id, nd, L) N(k) == In(H[k], id, nd, L) IN
  IF Len(e.df) # n \/ Len(e.di) # n \/ Len(e.dn) # n THEN {"running-length"} ELSE
  Bad(\E k \in 1..n - 1 : LET d == MaxDelta(Ideal(H[k + 1]), Ideal(H[k]), Range(c)) IN e.di[k].inf \/ ~Close(e.di[k].v, d[1], d[2], 2), "running-ideal")
  \cup Bad(\E k \in 1..n - 1 : LET d == MaxDelta(Nadir(H[k + 1]), Nadir(H[k]), Range(c)) IN e.dn[k].inf \/ ~Close(e.dn[k].v, d[1], d[2], 2), "running-nadir")
  \cup Bad(e.di[n].inf \/ e.di[n].v # 0 \/ e.dn[n].inf \/ e.dn[n].v # 0, "running-current")
  \cup Bad(\E k \in 1..n : e.df[k].inf \/ ~IF e.ind = "igd" THEN CloseM(e.df[k].v, IGDsum(N(k), C), Len(C), L)
                                           ELSE Close(e.df[k].v, HV(SetOf(N(k)), [j \in 1..Len(c[1]) |-> L]), L * L, 2), "running-indicator")
AfterRunning(st, e) == [st EXCEPT !.H = Window(st.H, e.F, e.size)]

(* ---- progress: never goes back, in whole percents ---- *)
Progress(st, e) == LET m == Max2(st.top, e.perc) IN
  Bad(e.shown > m \/ e.shown < m - 101, "progress-shown") \cup Bad(e.shown < st.shown, "progress-goes-back") \cup Bad(e.shown % 100 # 0, "progress-percents")
AfterProgress(st, e) == [st EXCEPT !.top = Max2(st.top, e.perc), !.shown = e.shown]

(* ---- windows of a fixed size ---- *)
Win(st, e) == LET w == IF e.op = 0 THEN <<>> ELSE Window(st.w, e.op, e.size) IN
  Bad(e.got # w, "window") \cup Bad(e.full # (e.size > 0 /\ Len(w) = e.size), "window-full")
AfterWin(st, e) == [st EXCEPT !.w = IF e.op = 0 THEN <<>> ELSE Window(st.w, e.op, e.size)]

(* ---- numbers in a column: mantissa of four digits and exponent, to the digits which fit ---- *)
Text(e) == Bad(e.len # e.width, "text-width")
           \cup Bad(e.blank # e.none, "text-blank")
           \cup Bad(~e.none /\ ~(\/ Abs(e.man - e.sman) <= e.tol /\ e.exp = e.sexp
                                 \/ e.sexp = e.exp + 1 /\ Abs(e.man - 10 * e.sman) <= e.tol), "text-number")

(* ---- callbacks: started once, before the first of the calls, one call each generation in the order given ---- *)
Calls(e) == Bad(e.seq # [i \in 1..Len(e.seq) |-> IF i <= e.n * 2 THEN <<IF i % 2 = 1 THEN "init" ELSE "upd", (i + 1) \div 2>> ELSE <<"upd", ((i - 1 - e.n * 2) % e.n) + 1>>], "callbacks")
            \cup Bad(Len(e.seq) # e.n * (e.gens + 1), "callbacks-number")
=============================================================================
