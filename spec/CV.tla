------------------------------- MODULE CV ------------------------------------
(* The one definition of constraint violation, and what is derived from it.      *)
(* Constraint values are integers (multiples of a unit the harness chooses).     *)
(* A rule is [eps, scale, pow, func]; scale 0 / pow 0: not configured.           *)
(* Observed values are reported times M, which every denominator divides.        *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE MaxOf(_)
MaxOf(q) == IF Len(q) = 1 THEN q[1] ELSE Max2(q[1], MaxOf(Tail(q)))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Amount(c, r) == Max2(0, c - r.eps)
Exponent(r) == IF r.pow = 0 THEN 1 ELSE r.pow
(* aggregate of the amounts times M; every amount is divided by scale^pow, the mean by their number *)
Total(c, r, M) ==
  IF c = <<>> THEN 0 ELSE
  LET a == [i \in 1..Len(c) |-> Pow(Amount(c[i], r), Exponent(r))]
      den == Pow(IF r.scale = 0 THEN 1 ELSE r.scale, Exponent(r)) IN
  CASE r.func = "sum" -> (M * Sum(a)) \div den
    [] r.func = "max" -> (M * MaxOf(a)) \div den
    [] r.func = "mean" -> (M * Sum(a)) \div (den * Len(c))
Violation(g, h, cfg, M) == Total(g, cfg.ieq, M) + Total([i \in 1..Len(h) |-> Abs(h[i])], cfg.eq, M)
Satisfied(g, h, cfg) == /\ \A i \in 1..Len(g) : g[i] <= cfg.ieq.eps
                        /\ \A i \in 1..Len(h) : Abs(h[i]) <= cfg.eq.eps

(* v: value read (times M), zero: it was exactly zero, via: how it was read *)
ReadBreaks(g, h, cfg, e, M) ==
  If(e.zero = Satisfied(g, h, cfg), "zero-unless-violated")
  \cup If(e.v = Violation(g, h, cfg, M), "violation-value-wrong")
(* eps of feasibility is given times M as well *)
FeasBreaks(g, h, cfg, e, M) == If(e.feas = (Violation(g, h, cfg, M) <= cfg.cveps), "feasibility-wrong")

(* ------------------------------------------------ an individual through its life *)
None == [g |-> <<>>, h |-> <<>>, cfg |-> 1]
StepInd(s, e) == CASE e.k = "G" -> [s EXCEPT !.g = e.val]
                   [] e.k = "H" -> [s EXCEPT !.h = e.val]
                   [] e.k = "config" -> [s EXCEPT !.cfg = e.val]
                   [] e.k = "reset" -> [s EXCEPT !.g = <<>>, !.h = <<>>]
                   [] OTHER -> s
IndBreaks(cfgs, s, e, M) ==
  CASE e.k \in {"G", "H", "config", "copy", "reset"} -> {}
    [] e.k = "read" -> ReadBreaks(s.g, s.h, cfgs[s.cfg], e, M) \cup FeasBreaks(s.g, s.h, cfgs[s.cfg], e, M)
    [] OTHER -> {"raised"}

(* ------------------------------------------------ wrappers: in and out of one row *)
WrapBreaks(e, M) ==
  LET V == Violation(e.g, e.h, e.cfg, M) IN
  CASE e.how = "objective" -> If(e.out = <<V>> \o [i \in 1..Len(e.f) |-> M * e.f[i]], "violation-is-not-the-objective")
    [] e.how = "only" -> If(e.out = <<V>>, "violation-is-not-the-objective")
    [] e.how = "penalty" -> If(e.out = [i \in 1..Len(e.f) |-> M * e.f[i] + e.pen * V], "penalised-value-wrong")
    [] e.how = "bounds" ->
         LET n == Len(e.x) IN
         If(e.out = e.f, "objectives-changed")
         \cup If(e.gout = e.g \o [i \in 1..n |-> e.xl[i] - e.x[i]] \o [i \in 1..n |-> e.x[i] - e.xu[i]], "bounds-are-not-the-constraints")
         \cup If((\A i \in 1..n : e.xl[i] <= e.x[i] /\ e.x[i] <= e.xu[i]) = (\A i \in (Len(e.g) + 1)..Len(e.gout) : e.gout[i] <= 0), "bounds-are-not-the-constraints")
(* what the wrapped problem declares and what an evaluated solution knows *)
DeclBreaks(e) ==
  If(e.nieq = e.wnieq /\ e.neq = e.wneq /\ e.nobj = e.wnobj, "declared-counts-wrong")
  \cup If(e.shapeF = <<e.n, e.wnobj>>, "objectives-of-the-wrong-shape")
  \cup If(e.shapeG = <<e.n, e.wnieq>> /\ e.shapeH = <<e.n, e.wneq>>, "constraints-of-the-wrong-shape")
  \cup If(e.inputsame, "input-changed")
  \cup If(e.again = 0, "evaluated-again")
=============================================================================
