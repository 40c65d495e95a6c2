------------------------------- MODULE MC_Runs ------------------------------
(* A process with several runs in it, modelled down to their random generators:  *)
(* heap is the content of every generator object, cell 0 the global one; a run    *)
(* holds a reference to its own and the draws it has made so far. Deep copies     *)
(* get a new generator with the same content. With Shared = TRUE a copy keeps the *)
(* reference (a shallow copy): the specification must notice that.              *)
EXTENDS Runs, TLC, Json
CONSTANTS Seeds, MaxSlots, MaxGen, MaxLen, Shared
VARIABLES obs, heap, impl, hist, ok
vars == <<obs, heap, impl, hist, ok>>
view == <<impl, heap, [i \in 1..Len(obs.slot) |-> obs.slot[i]], ok, Len(hist)>>
(* a generator holds <<seed, number of draws>>; a draw yields a number that depends on both *)
Draw(c) == 1 + ((c[1] * 37 + c[2] * 101 + c[1] * c[2] * 7) % 97)
Dig(q) == IF q = <<>> THEN 0 ELSE 1 + LET S[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE (S[i - 1] * 131 + q[i]) % 1000003 IN S[Len(q)]
G == heap[1][1] * 1000 + heap[1][2]
Init == /\ obs = [Start0 EXCEPT !.g = 0] /\ heap = << <<0, 0>> >> /\ impl = <<>> /\ hist = <<>> /\ ok = TRUE
Do(e, h, i) == /\ ok' = (ok /\ Breaks(obs, e) = {}) /\ obs' = Upd(obs, e) /\ heap' = h /\ impl' = i
StartRun(seed) == /\ Len(impl) < MaxSlots
                  /\ Do([k |-> "start", r |-> Len(impl) + 1, cfg |-> 1, seed |-> seed, g |-> G], Append(heap, <<seed, 0>>), Append(impl, [ref |-> Len(heap) + 1, out |-> <<>>]))
                  /\ hist' = Append(hist, [a |-> "start", s |-> seed, r |-> 0])
Step(r) == /\ r \in 1..Len(impl) /\ obs.slot[r].gen < MaxGen
           /\ LET c == heap[impl[r].ref]
                  o == Append(impl[r].out, Draw(c)) IN
              Do([k |-> "step", r |-> r, d |-> Dig(o), g |-> G], [heap EXCEPT ![impl[r].ref] = <<c[1], c[2] + 1>>], [impl EXCEPT ![r].out = o])
           /\ hist' = Append(hist, [a |-> "step", s |-> 0, r |-> r])
Copy(r, how) == /\ r \in 1..Len(impl) /\ Len(impl) < MaxSlots /\ obs.slot[r].gen > 0
                /\ LET ref == IF Shared THEN impl[r].ref ELSE Len(heap) + 1 IN
                   Do([k |-> "copy", r |-> r, to |-> Len(impl) + 1, old |-> Dig(impl[r].out), new |-> Dig(impl[r].out), g |-> G],
                      IF Shared THEN heap ELSE Append(heap, heap[impl[r].ref]), Append(impl, [ref |-> ref, out |-> impl[r].out]))
                /\ hist' = Append(hist, [a |-> how, s |-> 0, r |-> r])
Perturb == /\ heap[1][2] < 1
           /\ Do([k |-> "perturb", g |-> heap[1][1] * 1000 + heap[1][2] + 1], [heap EXCEPT ![1] = <<heap[1][1], heap[1][2] + 1>>], impl)
           /\ hist' = Append(hist, [a |-> "perturb", s |-> 0, r |-> 0])
Next == Len(hist) < MaxLen /\ (\/ \E s \in Seeds : StartRun(s) \/ \E r \in 1..MaxSlots : Step(r) \/ Copy(r, "copy") \/ Copy(r, "pickle") \/ Perturb)
Spec == Init /\ [][Next]_vars
Out == PrintT("PATH " \o ToJson(hist'))
Inv == ok
=============================================================================
