------------------------------- MODULE Problem -------------------------------
(* What evaluating a problem returns. A row is a code (equal codes: equal rows),  *)
(* a value is a code per row and key (equal up to rounding); seen remembers every *)
(* <<row, key, value>> ever returned: a problem is a function of each row alone.  *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE MaxOf(_)
MaxOf(q) == IF Len(q) = 1 THEN q[1] ELSE Max2(q[1], MaxOf(Tail(q)))

Shaped(n, single, rest) == IF single THEN rest ELSE <<n>> \o rest
(* e.rows: codes, e.vals: [key, rest (declared shape of one row), shape, codes], same: input unchanged *)
EvalBreaks(seen, e) ==
  If(e.same, "input-modified")
  \cup UNION {LET v == e.vals[k] IN
        If(v.shape = Shaped(Len(e.rows), e.single, v.rest), "shape-not-as-declared")
        \cup If(Len(v.codes) = Len(e.rows), "one-row-per-solution")
        \cup (IF Len(v.codes) # Len(e.rows) THEN {} ELSE
              If(\A i \in 1..Len(e.rows) : \A t \in seen : (t[1] = e.rows[i] /\ t[2] = v.key) => t[3] = v.codes[i], "value-depends-on-more-than-the-row")
              \cup If(\A i, j \in 1..Len(e.rows) : e.rows[i] = e.rows[j] => v.codes[i] = v.codes[j], "equal-rows-different-values"))
      : k \in 1..Len(e.vals)}
EvalStep(seen, e) == seen \cup UNION {LET v == e.vals[k] IN IF Len(v.codes) # Len(e.rows) THEN {} ELSE {<<e.rows[i], v.key, v.codes[i]>> : i \in 1..Len(e.rows)} : k \in 1..Len(e.vals)}

(* ------------------------------------------------ exactly known problems: quadratic objectives, linear constraints *)
Quad(c, x) == Sum([i \in 1..Len(x) |-> c.a[i] * x[i] * x[i] + c.b[i] * x[i]]) + c.c
DQuad(c, x) == [i \in 1..Len(x) |-> 2 * c.a[i] * x[i] + c.b[i]]
Vals(cs, x) == [j \in 1..Len(cs) |-> Quad(cs[j], x)]
Ders(cs, x) == [j \in 1..Len(cs) |-> DQuad(cs[j], x)]
(* the point the wrapped problem is asked for *)
Inside(p, x) == IF p.zto THEN [i \in 1..Len(x) |-> p.xl[i] + (x[i] * (p.xu[i] - p.xl[i])) \div 4] ELSE x
Scalar(p, f) == CASE p.dec = "ws" -> Sum([j \in 1..Len(f) |-> p.w[j] * f[j]])
                  [] p.dec = "tche" -> MaxOf([j \in 1..Len(f) |-> p.w[j] * Abs(f[j])])
ExactBreaks(p, e) ==
  LET x == Inside(p, e.x)
      f == IF p.static THEN e.sf ELSE Vals(p.F, x) IN
  CASE e.key = "F" -> If(e.v = (IF p.dec = "" THEN f ELSE <<Scalar(p, f)>>), "objectives-wrong")
    [] e.key = "G" -> If(e.v = Vals(p.G, x), "constraints-wrong")
    [] e.key = "H" -> If(e.v = Vals(p.H, x), "constraints-wrong")
    [] e.key = "dF" -> If(e.v = Ders(p.F, x), "gradient-wrong")
    [] e.key = "dG" -> If(e.v = Ders(p.G, x), "gradient-wrong")
(* declared before and after wrapping; the wrapped object itself must not change *)
DeclBreaks(e) == If(e.got = e.want, "declaration-of-the-wrapper-wrong") \cup If(e.inner = e.was, "wrapped-problem-changed")

(* ------------------------------------------------ output that does not fit is reported *)
(* an evaluation per row sets each key for some rows; a key is usable if all rows set it, absent if none does *)
PartBreaks(e) ==
  LET ok == \A k \in 1..Len(e.set) : Cardinality(Range(e.set[k])) \in {0, e.n} IN
  IF e.raised THEN If(~ok, "valid-output-rejected")
  ELSE If(ok, "missing-rows-not-reported")
       \cup If(\A k \in 1..Len(e.set) : e.out[k] = (IF Len(e.set[k]) = 0 THEN [i \in 1..e.n |-> 0 - 1] ELSE [i \in 1..e.n |-> i]), "values-at-wrong-rows")
(* values are replaced where they are no numbers, and only there; NaN is 9999, the infinities are -8888 and 8888 *)
NanBreaks(e) == If(e.out = [i \in 1..Len(e.raw) |-> IF e.raw[i] = 9999 /\ e.replace THEN e.by ELSE e.raw[i]], "value-replaced-wrongly")
(* shape: what the user's function returned for n rows of width w; item i of row r is r * 100 + i *)
FormBreaks(e) ==
  LET ok == e.shape = <<e.n, e.w>> \/ (e.w = 1 /\ e.shape = <<e.n>>) \/ (e.n = 1 /\ e.shape = <<e.w>>) IN
  IF e.raised THEN If(~ok, "valid-output-rejected")
  ELSE If(\A i \in 1..Len(e.out) : Len(e.out[i]) = e.w, "shape-not-as-declared")
       \cup If(e.size = e.n * e.w, "wrong-number-of-values-accepted")
       \cup If(ok \/ e.n = 1 \/ \A i \in 1..Len(e.out) : \A j \in 1..Len(e.out[i]) : e.out[i][j] \div 100 = i, "values-at-wrong-rows")
=============================================================================
