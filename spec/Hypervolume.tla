----------------------------- MODULE Hypervolume -----------------------------
(* Exact hypervolume of integer points up to a reference point, by slicing the   *)
(* last objective; Q is a set of vectors (sequences).                           *)
EXTENDS Integers, Sequences, FiniteSets
HvMin(T) == CHOOSE x \in T : \A y \in T : x <= y
RECURSIVE HV(_, _), Slices(_, _, _)
(* levels Z (set of last coordinates below the reference) from low to high *)
Slices(Q, ref, Z) ==
  IF Z = {} THEN 0
  ELSE LET m == Len(ref)
           z == HvMin(Z)
           nz == IF Z = {z} THEN ref[m] ELSE HvMin(Z \ {z})
           P == {SubSeq(p, 1, m - 1) : p \in {q \in Q : q[m] <= z}} IN
       (nz - z) * HV(P, SubSeq(ref, 1, m - 1)) + Slices(Q, ref, Z \ {z})
HV(Q, ref) ==
  LET m == Len(ref)
      B == {p \in Q : \A k \in 1..m : p[k] < ref[k]} IN
  IF B = {} THEN 0
  ELSE IF m = 1 THEN ref[1] - HvMin({p[1] : p \in B})
  ELSE Slices(B, ref, {p[m] : p \in B})
=============================================================================
