------------------------------ MODULE MC_Space ------------------------------
(* All repairs of all small integers into all small intervals: the rules stay in  *)
(* bounds, are idempotent and leave what is inside alone.                       *)
EXTENDS Space, TLC, Json
CONSTANTS N
VARIABLES lo, hi, x
Init == /\ lo \in (-N)..N /\ hi \in lo..N /\ x \in (-3 * N)..(3 * N)
        /\ PrintT("CASE " \o ToJson([lo |-> lo, hi |-> hi, x |-> x]))
Next == UNCHANGED <<lo, hi, x>>
Spec == Init /\ [][Next]_<<lo, hi, x>>
Inv == \A r \in {"clamp", "bounce", "periodic"} :
         RepairBreaks(r, <<x>>, <<Rule(r, x, lo, hi)>>, <<Rule(r, Rule(r, x, lo, hi), lo, hi)>>, <<lo>>, <<hi>>) = {}
=============================================================================
