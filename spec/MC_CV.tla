------------------------------- MODULE MC_CV ---------------------------------
(* All small constraint vectors under all configurations (laws of the definition), *)
(* and all histories of writing, reconfiguring, copying and reading an individual. *)
EXTENDS CV, TLC, Json
CONSTANTS Mode, MaxHist, Top, EqRules
VARIABLES g, h, cfg, hist
M == 576
Vals == -1..Top
Vecs == UNION {[1..k -> Vals] : k \in 0..2}
Rules == [eps : {0, 1}, scale : {0, 2}, pow : {0, 2}, func : {"sum", "max", "mean"}]
Cfgs == <<[ieq |-> [eps |-> 0, scale |-> 0, pow |-> 0, func |-> "sum"], eq |-> [eps |-> 0, scale |-> 0, pow |-> 0, func |-> "sum"], cveps |-> 0],
          [ieq |-> [eps |-> 1, scale |-> 2, pow |-> 0, func |-> "max"], eq |-> [eps |-> 0, scale |-> 0, pow |-> 2, func |-> "mean"], cveps |-> M]>>
Init == IF Mode = "cases"
        THEN /\ g \in Vecs /\ h \in Vecs /\ hist = <<>>
             /\ \E r \in Rules, q \in (IF EqRules = "all" THEN Rules ELSE {Cfgs[1].eq, Cfgs[2].eq, Cfgs[2].ieq}) : cfg = [ieq |-> r, eq |-> q, cveps |-> M]
        ELSE g = <<>> /\ h = <<>> /\ cfg = 1 /\ hist = <<>>
GVals == {<<-1>>, <<2>>, <<1, 1>>}
HVals == {<<0>>, <<-2>>}
Do(o) == hist' = Append(hist, o)
Next ==
  /\ Mode # "cases" /\ Len(hist) < MaxHist
  /\ \/ \E v \in GVals : g' = v /\ UNCHANGED <<h, cfg>> /\ Do(<<"G", v>>)
     \/ \E v \in HVals : h' = v /\ UNCHANGED <<g, cfg>> /\ Do(<<"H", v>>)
     \/ \E v \in {1, 2} : cfg' = v /\ UNCHANGED <<g, h>> /\ Do(<<"config", <<v>>>>)
     \/ g' = <<>> /\ h' = <<>> /\ UNCHANGED cfg /\ Do(<<"reset", <<>>>>)
     \/ \E w \in {"copy", "read"} : UNCHANGED <<g, h, cfg>> /\ Do(<<w, <<>>>>)
Spec == Init /\ [][Next]_<<g, h, cfg, hist>>
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]
\* histories end with a read and hold at least one before a write
Out == (Len(hist') = MaxHist /\ hist'[MaxHist][1] = "read") => PrintT("PATH " \o ToJson([h |-> hist']))
Conc(q) == q
Swap(q) == IF Len(q) = 2 THEN <<q[2], q[1]>> ELSE q
Laws == Mode = "cases" =>
  LET V == Violation(g, h, cfg, M) IN
  /\ V >= 0
  /\ (V = 0) = Satisfied(g, h, cfg)
  /\ V = Violation(Swap(g), Swap(h), cfg, M)
  /\ V = Violation(g, [i \in 1..Len(h) |-> 0 - h[i]], cfg, M)
  (* more violation of one constraint is never less violation in total *)
  /\ \A i \in 1..Len(g) : Violation([g EXCEPT ![i] = @ + 1], h, cfg, M) >= V
  /\ cfg.ieq.func = "sum" => \A x \in Vals : Violation(Append(g, x), h, cfg, M) = V + Violation(<<x>>, <<>>, cfg, M)
=============================================================================
