---------------------------- MODULE MC_Evaluator -----------------------------
(* All histories of evaluator operations on a small pool; every transition of   *)
(* the abstract state graph is written out as a history to replay.              *)
EXTENDS Evaluator, TLC, Json, IOUtils
CONSTANTS N, Depth, Big
VARIABLES s, h, calls, cnt
Batches == IF Big THEN {<<1>>, <<1, 2, 3>>, <<3, 1>>, <<2, 2, 1>>} ELSE {<<1>>, <<3, 1, 2>>, <<2, 2, 1>>}
Wants == {{"F"}, Keys, {"G", "H"}}
Init == s = [x |-> [i \in 1..N |-> i], mark |-> [i \in 1..N |-> {}], val |-> [i \in 1..N |-> [k \in Keys |-> 0]], n |-> 0]
        /\ h = <<>> /\ calls = 0 /\ cnt = 0
Ops == [op : {"eval"}, idx : Batches, want : Wants, skip : BOOLEAN, count : BOOLEAN, fail : {0, 2}]
       \cup [op : {"poison"}, i : {1, 2}, want : {{"F"}, Keys}]
       \cup [op : {"reset"}, i : {1}, x : {2, N + 1}]
       \cup [op : {"copy"}, i : {1}, j : {2, 3}]
Next == /\ Len(h) < Depth
        /\ \E o \in Ops :
           /\ o.op = "eval" => o.fail <= Len(Pending(s, o))
           /\ s' = Apply(s, o)
           /\ calls' = IF o.op = "eval" /\ ~Fails(s, o) THEN calls + Len(Pending(s, o)) ELSE calls
           /\ cnt' = IF o.op = "eval" /\ ~Fails(s, o) /\ ~o.count THEN cnt + Len(Pending(s, o)) ELSE cnt
           /\ h' = Append(h, o)
Spec == Init /\ [][Next]_<<s, h, calls, cnt>>
View == <<s.x, s.mark, s.val, Len(h)>>
Inv == Sound(s) /\ s.n = calls - cnt
CanonicalAllowed == [][\A o \in Ops : (o.op = "eval" /\ h' = Append(h, o)) => EvalOK(s, o, s')]_<<s, h, calls, cnt>>
Out == PrintT("PATH " \o ToJson(h'))
=============================================================================
