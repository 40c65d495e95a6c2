----------------------------- MODULE MC_Direct -----------------------------
(* Direct search explored on every sequence of answers: Mode "nm" (simplex moves),     *)
(* "ps" (pattern search on a grid), "dv" (divisions), "br" (golden section, Fibonacci). *)
EXTENDS Direct, TLC, Json
CONSTANTS Mode, N, K, L
VARIABLES s, hist
vars == <<s, hist>>
Lv(x) == <<Mx(x, 0), Mn(x, 0)>>
Level(v) == IF v[1] > 0 THEN v[1] ELSE v[2]
Tuples(k, S) == [1..k -> S]
(* ---- simplex ---- *)
NMInit == \E x \in (-L)..L : s = NMNext([ph |-> "start", vs |-> <<<<0, 0>>>>, r |-> <<0, 0>>, done |-> TRUE], <<Lv(x)>>) /\ hist = <<x>>
NMGo == LET k == IF s.ph = "simplex" THEN N ELSE Asked(s.ph, N) IN
        \E vs \in Tuples(k, (-L)..L) :
          LET new == [i \in 1..k |-> Lv(vs[i])] IN
          s' = NMNext(s, IF s.ph = "simplex" THEN s.vs \o new ELSE new) /\ hist' = hist \o vs
NMSorted == Mode = "nm" => Sorted(s.vs)
NMBest == [][Mode = "nm" => ~Better(s.vs[1], s'.vs[1])]_vars
NMWorst == [][(Mode = "nm" /\ s.ph \in {"reflect", "expand", "outside", "inside"}) =>
               \/ s'.vs = s.vs
               \/ \E i \in 1..(N + 1) : s'.vs = Sort(Append(SubSeq(s.vs, 1, N), s'.vs[i])) /\ Better(s'.vs[i], s.vs[N + 1])]_vars
NMFull == (Mode = "nm" /\ s.ph # "simplex") => Len(s.vs) = N + 1
(* ---- pattern ---- *)
Cfg == [n |-> N, lo |-> [j \in 1..N |-> 0], hi |-> [j \in 1..N |-> 64], D |-> [j \in 1..N |-> 16], q |-> 2, p |-> <<1, 1>>, tol |-> 0]
NextPt(p) == CASE p.ph = "trial" -> PatternPt(Cfg, p)
               [] p.ph = "explore" -> LET a == CHOOSE a \in p.alts : TRUE IN
                    IF a.ax # 0 THEN AlongAxis(Cfg, p, a.ax, -1) ELSE AlongAxis(Cfg, p, MinOf((1..N) \ a.done), 1)
PSStart == \E x \in {-1, 1} : s = PSNext(Cfg, PSInit(N), [j \in 1..N |-> 8 * j], Lv(x)) /\ hist = <<x>>
PSGo == /\ Len(hist) < K
        /\ LET p == Prepared(s)
               base == Level(IF p.ph = "trial" THEN p.e.v ELSE p.b.v) IN
           \E d \in (-1)..1 : s' = PSNext(Cfg, s, NextPt(p), Lv(base + d)) /\ hist' = Append(hist, base + d)
PSCentre == [][(Mode = "ps" /\ s'.c # s.c) => Better(s'.c.v, s.c.v)]_vars
PSHalve == [][(Mode = "ps" /\ s'.nf # s.nf) => (s'.nf = s.nf + 1 /\ ~Better(s.e.v, s.c.v))]_vars
PSInside == Mode = "ps" => \A j \in 1..N : s.c.x[j] \in 0..64 /\ s.e.x[j] \in 0..64
(* ---- divisions ---- *)
Side == 2 * Pow(3, K + 1)
DVInit == s = <<[id |-> 1, lo |-> [j \in 1..N |-> 0], hi |-> [j \in 1..N |-> Side], x |-> [j \in 1..N |-> Side \div 2], v |-> <<0, 1>>]>> /\ hist = <<1>>
Centre(b) == [j \in 1..N |-> (b.lo[j] + b.hi[j]) \div 2]
Cell(i, b, v) == [id |-> i, lo |-> b.lo, hi |-> b.hi, x |-> Centre(b), v |-> v]
RECURSIVE Divide(_, _, _, _)
Divide(cells, todo, vs, out) ==
  IF todo = {} THEN cells \o out ELSE
  LET i == MinOf(todo)
      t == Thirds(cells[i], MinOf(Longest(cells[i])))
      k == Len(cells) + Len(out)
      o == <<Cell(k + 1, t.left, <<0, vs[1]>>), Cell(k + 2, t.right, <<0, vs[2]>>)>> IN
  Divide([cells EXCEPT ![i] = Cell(i, t.mid, cells[i].v)], todo \ {i}, SubSeq(vs, 3, Len(vs)), out \o o)
DVGo == /\ Len(hist) < 2 * N + 2 * K
        /\ LET cand == {c.id : c \in Candidates(s)} IN
           \E vs \in Tuples(2 * Cardinality(cand), 0..L) : s' = Divide(s, cand, vs, <<>>) /\ hist' = hist \o vs
RECURSIVE Vol(_, _)
Vol(c, j) == IF j = 0 THEN 1 ELSE (Width(c, j) \div 2) * Vol(c, j - 1)
RECURSIVE Total(_)
Total(cs) == IF cs = <<>> THEN 0 ELSE Vol(Head(cs), N) + Total(Tail(cs))
Tiling == Mode = "dv" => /\ Total(s) = Pow(Side \div 2, N)
                         /\ \A i, j \in 1..Len(s) : i < j => \E k \in 1..N : s[i].hi[k] <= s[j].lo[k] \/ s[j].hi[k] <= s[i].lo[k]
                         /\ \A i \in 1..Len(s) : IsCentre(s[i]) /\ Width(s[i], MinOf(Longest(s[i]))) >= 2
(* ---- golden section on Fibonacci numbers: positions a < c < d < b ---- *)
RECURSIVE Fib(_)
Fib(k) == IF k < 2 THEN 1 ELSE Fib(k - 1) + Fib(k - 2)
BRInit == \E u, w \in 0..L : s = [k |-> K, a |-> 0, c |-> Fib(K - 2), d |-> Fib(K - 1), b |-> Fib(K), fc |-> u, fd |-> w, best |-> Mn(u, w)] /\ hist = <<u, w>>
BRGo == /\ s.k > 4
        /\ \E v \in 0..L :
             /\ s' = (IF s.fc < s.fd THEN [s EXCEPT !.k = @ - 1, !.b = s.d, !.d = s.c, !.fd = s.fc, !.c = s.a + Fib(s.k - 3), !.fc = v, !.best = Mn(@, v)]
                      ELSE [s EXCEPT !.k = @ - 1, !.a = s.c, !.c = s.d, !.fc = s.fd, !.d = s.b - Fib(s.k - 3), !.fd = v, !.best = Mn(@, v)])
             /\ hist' = Append(hist, v)
BRInside == Mode = "br" => /\ s.a < s.c /\ s.c < s.d /\ s.d < s.b /\ s.b - s.a = Fib(s.k)
                           /\ (s.fc = s.best \/ s.fd = s.best)
Init == CASE Mode = "nm" -> NMInit [] Mode = "ps" -> PSStart [] Mode = "dv" -> DVInit [] Mode = "br" -> BRInit
Next == CASE Mode = "nm" -> NMGo [] Mode = "ps" -> PSGo [] Mode = "dv" -> DVGo [] Mode = "br" -> BRGo
Spec == Init /\ [][Next]_vars
View == IF Mode \in {"nm"} THEN <<s, <<>>>> ELSE vars
Emit(h) == PrintT("PATH " \o ToJson([m |-> Mode, n |-> N, v |-> h]))
Out == Mode = "nm" => Emit(hist')
EmitInv == /\ (Mode = "ps" /\ Len(hist) = K) => Emit(hist)
           /\ (Mode = "dv" /\ Len(hist) >= 2 * N + 2 * K) => Emit(hist)
           /\ (Mode = "br" /\ s.k = 4) => Emit(hist)
=============================================================================
