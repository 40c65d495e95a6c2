----------------------------- MODULE MC_Niching -----------------------------
(* Every small niching decision: candidates with a niche and a distance, initial        *)
(* counts, a number to select; the nondeterministic rule leads to a balanced filling.   *)
EXTENDS Niching, TLC, Json
CONSTANTS N, C, K, DMax
VARIABLES c0, nic, d, n, sel, c
vars == <<c0, nic, d, n, sel, c>>
Sorted(s, q) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1] \/ (s[i] = s[i + 1] /\ q[i] <= q[i + 1])
Init == /\ \E L \in 1..K : /\ nic \in [1..L -> 1..N] /\ d \in [1..L -> 1..DMax] /\ n \in 1..L /\ Sorted(nic, d)
        /\ c0 \in [1..N -> 0..C] /\ c = c0 /\ sel = {}
Take == \E i \in Allowed(c, nic, d, sel, 0) : sel' = sel \cup {i} /\ c' = [c EXCEPT ![nic[i]] = @ + 1] /\ UNCHANGED <<c0, nic, d, n>>
Next == Cardinality(sel) < n /\ Take
Spec == Init /\ [][Next]_vars
Cap == [k \in 1..N |-> Cardinality({i \in 1..Len(nic) : nic[i] = k})]
Got == [k \in 1..N |-> Cardinality({i \in sel : nic[i] = k})]
Balanced == FilledRight(c0, Cap, Got)
Represented == \A k \in 1..N : (c0[k] = 0 /\ Got[k] >= 1) => \E i \in sel : nic[i] = k /\ \A h \in 1..Len(nic) : nic[h] = k => d[i] <= d[h]
NeverStuck == Cardinality(sel) < n => Allowed(c, nic, d, sel, 0) # {}
EveryNicheKept == Cardinality(sel) = n /\ Cardinality(Open(nic, {}) \cap {k \in 1..N : c0[k] = 0}) <= n => \A k \in Open(nic, {}) : c0[k] = 0 => Got[k] >= 1
EmitInv == sel = {} => PrintT("PATH " \o ToJson([c |-> c0, nic |-> nic, d |-> d, n |-> n]))
=============================================================================
