------------------------------ MODULE Evaluator ------------------------------
(* Evaluation of a pool of solutions 1..N and its bookkeeping.                  *)
(* State s: x[i]    the variables (an abstract row, a small number)             *)
(*          mark[i] the set of values known to be evaluated                     *)
(*          val[i]  value held for "F", "G", "H" (0 = none)                     *)
(*          n       the evaluation counter                                      *)
(* Operation o = [op |-> "eval", idx |-> sequence of pool positions (repeats    *)
(*   possible), want |-> requested values, skip, count |-> switches,            *)
(*   fail |-> 0 or the position among the submitted rows whose evaluation       *)
(*   raises an exception], or "poison" (values supplied from outside and marked *)
(*   evaluated), "reset" (variables changed, everything forgotten),             *)
(*   "copy" (position j becomes a copy of i)                                    *)
EXTENDS Naturals, Sequences, FiniteSets
Keys == {"F", "G", "H"}
Code(k) == CASE k = "F" -> 1 [] k = "G" -> 2 [] k = "H" -> 3
True(k, x) == 10 * x + Code(k)          \* what the problem defines
Given(k, i) == 900 + 10 * i + Code(k)   \* what somebody else supplied

Pending(s, o) == IF o.skip THEN SelectSeq(o.idx, LAMBDA i : ~(o.want \subseteq s.mark[i])) ELSE o.idx
Rows(s, o) == [j \in 1..Len(Pending(s, o)) |-> s.x[Pending(s, o)[j]]]
Fails(s, o) == o.fail > 0 /\ o.fail <= Len(Pending(s, o))
Touched(s, o) == {Pending(s, o)[j] : j \in 1..Len(Pending(s, o))}

(* states allowed after an operation: more than the requested values may be delivered *)
EvalOK(s, o, r) ==
  LET P == Touched(s, o) IN
  /\ r.x = s.x
  /\ \A i \in DOMAIN s.x :
       IF i \notin P \/ Fails(s, o) THEN r.mark[i] = s.mark[i] /\ r.val[i] = s.val[i]
       ELSE /\ o.want \subseteq r.mark[i] /\ s.mark[i] \subseteq r.mark[i]
            /\ \A k \in Keys : \/ k \in r.mark[i] /\ r.val[i][k] = True(k, s.x[i])
                               \/ k \notin o.want /\ r.val[i][k] = s.val[i][k] /\ (k \in r.mark[i] <=> k \in s.mark[i])
  /\ r.n = s.n + (IF o.count /\ ~Fails(s, o) THEN Len(Pending(s, o)) ELSE 0)

(* the canonical result (all values delivered) *)
DoEval(s, o) ==
  IF Fails(s, o) THEN s
  ELSE [s EXCEPT !.mark = [i \in DOMAIN s.x |-> IF i \in Touched(s, o) THEN Keys ELSE s.mark[i]],
                 !.val = [i \in DOMAIN s.x |-> IF i \in Touched(s, o) THEN [k \in Keys |-> True(k, s.x[i])] ELSE s.val[i]],
                 !.n = IF o.count THEN s.n + Len(Pending(s, o)) ELSE s.n]
Apply(s, o) ==
  CASE o.op = "eval" -> DoEval(s, o)
    [] o.op = "poison" -> [s EXCEPT !.mark[o.i] = @ \cup o.want, !.val[o.i] = [k \in Keys |-> IF k \in o.want THEN Given(k, o.i) ELSE @[k]]]
    [] o.op = "reset" -> [s EXCEPT !.x[o.i] = o.x, !.mark[o.i] = {}, !.val[o.i] = [k \in Keys |-> 0]]
    [] o.op = "copy" -> [s EXCEPT !.x[o.j] = s.x[o.i], !.mark[o.j] = s.mark[o.i], !.val[o.j] = s.val[o.i]]
(* what every user relies on: a marked value is the problem's, or was supplied from outside *)
Sound(s) == \A i \in DOMAIN s.x : \A k \in s.mark[i] : s.val[i][k] = True(k, s.x[i]) \/ s.val[i][k] > 900
=============================================================================
