------------------------------------- MODULE QuadMC -------------------------------------
(* Every rule at small counts with every monomial of its class on several ranges, all     *)
(* Gauss orders to their last exact power, every order of two or three variables, and      *)
(* every shape of limits.                                                                  *)
EXTENDS Quad, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Rules == {C("rule", <<m, n, k>>) : m \in 0..2, n \in {0, 1, 2, 3, 5, 8, 12, 120, 130, 1000}, k \in 0..1} \cup {C("rule", <<m, n, 0>>) : m \in 3..5, n \in 0..31}
Class(s) == IF Gauss(s) THEN 2 * s.n - 1 ELSE <<1, 3, 5>>[s.m + 1]
Mono(k) == Rep(k, 0) \o <<1>>
Lims(s) == IF s.m \in {HERMITE, LAGUERRE} THEN {<<IF s.m = HERMITE THEN NINF ELSE 0, INF>>} ELSE {<<0, 1>>, <<-1, 2>>, <<-3, -1>>}
L1(s) == CHOOSE l \in Lims(s) : l[2] > 0
Awkward == {<<1, 1>>, <<2, -1>>, <<0, NAN>>, <<NAN, 1>>, <<INF, 1>>, <<0, NINF>>, <<0, INF>>, <<NINF, INF>>, <<INF, NINF>>, <<NINF, 0>>, <<NAN, NAN>>}
Ones(s) == {C("one", <<60, 1>> \o l \o Mono(k)) : l \in Lims(s), k \in 0..MinOf(Class(s), 5)} \cup {C("one", <<60, 2>> \o l \o q \o Mono(MinOf(Class(s), 2))) : l \in Lims(s), q \in Lims(s)}
High(s) == IF s.m = LEGENDRE THEN {C("high", <<k, lo, lo + 3>>) : k \in {Class(s), Class(s) - 1, Class(s) \div 2}, lo \in {-2, 1}}
           ELSE IF Gauss(s) THEN {C("high", <<k, 0, 0>>) : k \in {Class(s), Class(s) - 1, s.n} \ {0}} ELSE {}
Many(s) == LET l == L1(s) t == <<1, 3, 1, 0, 2, 0, 2, 1, -1, 1, 0, 2>> u == IF Class(s) < 3 THEN <<1, 1, 1, 0, 2, 0, 1, 1, -1, 1, 0, 1>> ELSE t g == IF s.m \in {HERMITE, LAGUERRE} THEN l ELSE <<0, 2>> IN
           {C("many", <<1728, 1, i>> \o l \o <<2, 3, -1>> \o u) : i \in 0..3} \cup {C("many", <<1728, 2, i, j>> \o l \o g \o <<2, 3, -1>> \o u) : i \in 0..2, j \in 0..3}
           \cup (IF s.n <= 12 THEN {C("many", <<1728, 3>> \o q \o l \o g \o l \o <<2, 3, -1>> \o u) : q \in {<<0, 1, 2>>, <<2, 0, 1>>, <<1, 2, 0>>, <<1, 0, 2>>, <<2, 1, 2>>, <<0, 0, 0>>}} ELSE {})
Odd(s) == {C("one", <<60, 1>> \o q \o <<1>>) : q \in IF Gauss(s) THEN {x \in Awkward : ~Legal(s, x[1], x[2])} ELSE {x \in Awkward : ~Legal(s, x[1], x[2])}}
       \cup {C("many", <<1728, 2, 1, 3>> \o q \o <<0, 1, 0, 0, 0, 1, 0, 0, 0>>) : q \in Awkward}
Curves == {C("curve", <<12, f, n, st2, lo, hi>> \o SubSeq(<<0, 1, 0, 1, -1, 0, 2, 1, 0>>, 1, 3 * n) \o SubSeq(<<1, 2, 0, 1, -1, 0, 3, 1, 2, 1, 0, -2>>, 1, 4 * n)) : f \in 0..1, n \in 2..3, st2 \in {-1, 0, 1, 7}, lo \in {-1, 0, NAN, NINF}, hi \in {0, 2, INF}}
        \cup {C("curve", <<12, f, n, 2000, -1, 2>> \o SubSeq(<<0, 1, 1, 1, -1, 0, 2, 0, -1>>, 1, 3 * n) \o SubSeq(<<1, 2, 0, 1, -1, 0, 3, 1, 2, 1, 0, -2>>, 1, 4 * n)) : f \in 0..1, n \in 2..3}
Waves(s) == IF s.n # 0 /\ Accurate(s) THEN {C("wave", <<x, y>>) : x \in {-5, 0, 3}, y \in {4, 7}} \cup {C("tail", <<h, 1, c, 1, 2, v>>) : h \in 0..2, c \in {0, 3}, v \in 0..1} ELSE {}
Walks(s) == IF ~Gauss(s) /\ s.n \in 1..8 THEN {C("walk", <<lo, h>> \o Mono(k)) : lo \in {-2, 0}, h \in 1..2, k \in 0..4} ELSE {}
Sound(s) == s.n > 0 /\ (Gauss(s) => s.n <= 30)
Cmds == CASE Len(hist) = 0 -> Rules \cup Curves
  [] Len(hist) = 1 /\ hist[1].op = "rule" -> IF Sound(st) THEN Ones(st) \cup Odd(st) \cup High(st) \cup (IF Class(st) < 2 /\ Gauss(st) THEN {} ELSE IF st.n > 130 THEN {} ELSE Many(st)) \cup Waves(st) \cup Walks(st) \cup {C("broken", <<i>>) : i \in 0..(IF Gauss(st) /\ st.n < 2 THEN -1 ELSE 2)}
                       ELSE Odd(st) \cup {C("one", <<60, 1, 0, 1, 1>>), C("many", <<1728, 1, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>)}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
