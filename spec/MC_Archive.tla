------------------------------ MODULE MC_Archive ----------------------------
(* Every history of batches drawn from a small universe, every truncation.       *)
EXTENDS Archive, TLC, Json
CONSTANTS MaxAdds, MaxBatch, Cap, Trunc, Multi2
VARIABLES P, arch, cut, hist
m(x, f, cv) == [x |-> x, f |-> f, cv |-> cv]
(* ties, duplicates, dominated and dominating, equal and different violations *)
U2 == <<m(1, <<0, 1>>, 0), m(2, <<1, 0>>, 0), m(3, <<1, 1>>, 0), m(4, <<0, 1>>, 0), m(5, <<0, 0>>, 1), m(6, <<1, 1>>, 1), m(7, <<0, 0>>, 2), m(8, <<0, 0>>, 0)>>
U1 == <<m(1, <<1>>, 0), m(2, <<1>>, 0), m(3, <<2>>, 0), m(4, <<0>>, 0), m(5, <<0>>, 1), m(6, <<3>>, 1), m(7, <<0>>, 2)>>
U == IF Multi2 THEN U2 ELSE U1
Batches == UNION {[1..k -> 1..Len(U)] : k \in 1..MaxBatch}
(* elimination keeps the first of equal solutions *)
RECURSIVE Firsts(_, _, _)
Firsts(Q, S, acc) == IF S = <<>> THEN acc
  ELSE Firsts(Q, Tail(S), IF \E k \in 1..Len(acc) : Twin(Q, acc[k], Head(S)) THEN acc ELSE Append(acc, Head(S)))
Init == P = <<>> /\ arch = <<>> /\ cut = {} /\ hist = <<>>
Offer(b) ==
  LET Q == P \o [i \in 1..Len(b) |-> U[b[i]]]
      off == [i \in 1..Len(b) |-> Len(P) + i]
      S == arch \o off
      B == BestOf(Q, RangeOf(S))
      E == Firsts(Q, SelectSeq(S, LAMBDA i : i \in B), <<>>) IN
  /\ P' = Q
  /\ hist' = Append(hist, b)
  /\ IF Cap = 0 \/ Len(E) <= Cap THEN arch' = E /\ cut' = cut
     ELSE \E K \in {K \in SUBSET RangeOf(E) : Cardinality(K) = Trunc} :
            arch' = SelectSeq(E, LAMBDA i : i \in K) /\ cut' = cut \cup (RangeOf(E) \ K)
Next == Len(hist) < MaxAdds /\ \E b \in Batches : Offer(b)
Spec == Init /\ [][Next]_<<P, arch, cut, hist>>
vals(q) == [i \in 1..Len(q) |-> P[q[i]]]
view == <<vals(arch), {P[i] : i \in cut}, Len(hist), AnyFeas(P, 1..Len(P))>>
Inv == HistoryBreaks(P, Len(P), arch, cut, Cap) = {}
Steps == [][AddBreaks(P', arch, [i \in 1..(Len(P') - Len(P)) |-> Len(P) + i], arch', arch, Cap, Trunc, TRUE) = {}]_<<P, arch, cut, hist>>
Out == PrintT("PATH " \o ToJson([h |-> hist']))
=============================================================================
