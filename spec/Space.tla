-------------------------------- MODULE Space -------------------------------
(* The declared search space and the repairs that lead into it.                 *)
EXTENDS Integers, Sequences, FiniteSets
If(b, nm) == IF b THEN {} ELSE {nm}
Range(q) == {q[i] : i \in DOMAIN q}
In(x, lo, hi) == lo <= x /\ x <= hi

(* ---- coordinate-wise repairs (lo <= hi) *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Wrap(y, w) == IF w = 0 THEN 0 ELSE y % w
Bounce(x, lo, hi) == IF x < lo THEN lo + Wrap(lo - x, hi - lo) ELSE IF x > hi THEN hi - Wrap(x - hi, hi - lo) ELSE x
Periodic(x, lo, hi) == IF x < lo THEN hi - Wrap(lo - x, hi - lo) ELSE IF x > hi THEN lo + Wrap(x - hi, hi - lo) ELSE x
Rule(r, x, lo, hi) == CASE r = "clamp" -> Clamp(x, lo, hi) [] r = "bounce" -> Bounce(x, lo, hi) [] r = "periodic" -> Periodic(x, lo, hi)

(* ---- a repaired vector: before x, after y, again z (all integers) *)
RepairBreaks(rule, x, y, z, lo, hi) ==
  If(Len(y) = Len(x), "wrong-shape")
  \cup (IF Len(y) /= Len(x) THEN {} ELSE
        If(\A i \in DOMAIN x : In(y[i], lo[i], hi[i]), "out-of-bounds")
        \cup If(\A i \in DOMAIN x : In(x[i], lo[i], hi[i]) => y[i] = x[i], "moved-a-coordinate-in-bounds")
        \cup If(rule /= "off-grid", "rule-not-followed")      (* an exact rule left the grid of integers *)
        \cup If(rule \notin {"clamp", "bounce", "periodic"} \/ \A i \in DOMAIN x : y[i] = Rule(rule, x[i], lo[i], hi[i]), "rule-not-followed")
        \cup If(z = y, "repeating-changes-again"))

(* ---- an evaluated solution against the declaration: variables [t, lo, hi] with codes preserving order;   *)
(* t: real / int / bool / choice (code = position of the option, 0 = none) / perm; x : codes; ty : type found *)
TypeOk(t, ty) == CASE t = "real" -> ty = "real" [] t = "int" -> ty = "int" [] t = "perm" -> ty = "int" [] t = "bool" -> ty = "bool" [] t = "choice" -> TRUE
RowBreaks(vars, x, ty) ==
  If(Len(x) = Len(vars), "wrong-number-of-variables")
  \cup (IF Len(x) /= Len(vars) THEN {} ELSE
        If(\A i \in DOMAIN x : TypeOk(vars[i].t, ty[i]), "wrong-type")
        \cup If(\A i \in DOMAIN x : vars[i].t \in {"choice", "bool"} \/ In(x[i], vars[i].lo, vars[i].hi), "out-of-bounds")
        \cup If(\A i \in DOMAIN x : vars[i].t = "choice" => x[i] > 0, "not-an-option")
        \cup If((\E i \in DOMAIN x : vars[i].t = "perm") => Cardinality(Range(x)) = Len(x), "not-a-permutation"))
=============================================================================
