---------------------------------- MODULE PartialsMC ----------------------------------
(* Every index combination, order and backend on an asymmetric polynomial of each size.  *)
EXTENDS Partials, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
F(n) == CASE n = 1 -> <<3, 3, 5, -2, 3, 4, 1>> [] n = 2 -> <<4, 2, 4, 1, -1, 1, 2, 3, 0, 3, 1, 2, 2>>
  [] n = 3 -> <<4, 2, 3, 1, 0, -1, 1, 2, 1, 3, 0, 1, 3, 1, 2, 0, 2>> [] n = 4 -> <<4, 2, 1, 2, 0, 1, -1, 3, 0, 1, 0, 3, 0, 1, 2, 1, 1, 1, 0, 1, 3>>
X(n) == SubSeq(<<2, -1, 3, 1>>, 1, n)
Y(n) == SubSeq(<<-1, 2, 0, -2>>, 1, n)
(* m functions of n variables, two terms each, no two alike                                  *)
G(n, m) == Flat([i \in 1..m |-> (<<i + 1>> \o [k \in 1..n |-> (i * k + k) % 4]) \o (<<-i>> \o [k \in 1..n |-> (i + 2 * k) % 3])])
Bs == {<<0, 1, 1>>, <<1, 1, 2>>, <<2, 2, 1>>, <<3, 1, 3>>, <<3, 2, 2>>, <<4, 1, 1>>}
Bad == {<<3, h, 2>> : h \in {0, NAN, INF, NINF, -1}}
Idx(n, k) == [1..k -> 0..(n - 1)]
Pts(n) == Flat([k \in 1..6 |-> [i \in 1..n |-> ((k * i + k) % 4) - 1]])
Cmds == CASE Len(hist) = 0 ->
     {C("d1", <<b[1], k, b[2], b[3]>> \o F(1) \o <<x>>) : b \in Bs \cup Bad, k \in 0..3, x \in {-1, 2}}
  \cup {C("d1", <<0, k, 1, 1>> \o F(1) \o <<x>>) : k \in 4..7, x \in {-1, 2}}
  \cup UNION {{C("dn", <<n>> \o b \o <<k>> \o q \o F(n) \o X(n)) : b \in Bs, q \in Idx(n, k)} : n \in 1..3, k \in 0..3}
  \cup {C("dn", <<4, 0, 1, 1, 3>> \o q \o F(4) \o Y(4)) : q \in Idx(4, 3)}
  \cup {C("dn", <<2>> \o b \o <<2, 2, 0>> \o F(2) \o X(2)) : b \in Bs \cup Bad}
  \cup {C("dn", <<2>> \o b \o <<4, 1, 0, 1, 1>> \o F(2) \o X(2)) : b \in {<<0, 1, 1>>, <<3, 1, 1>>}}
  \cup {C("hess", <<n>> \o b \o F(n) \o x) : b \in Bs \cup Bad, n \in 1..4, x \in {X(4)}}
  \cup {C("jac", <<n>> \o b \o <<hp, m, 2>> \o G(n, m) \o X(n)) : b \in Bs \cup Bad, hp \in {0, 1}, n \in 1..4, m \in 0..4}
  \cup {C("col", <<n>> \o b \o <<c, 2>> \o G(n, 3) \o Y(n)) : b \in Bs \cup Bad, n \in 1..4, c \in 0..4}
  \cup {C("field", <<n>> \o b \o <<e, 2>> \o G(n, e) \o x) : b \in Bs \cup Bad, n \in 2..4, e \in 2..3, x \in {X(4)}}
  \cup {C("model", <<n, 0, 1, 1, q, k>> \o F(n) \o X(n) \o Y(n) \o Pts(n)) : n \in 1..4, q \in {0, 1}, k \in {0, 1}}
  [] OTHER -> {}
Fits(c) == IF c.op \in {"hess", "field"} THEN [c EXCEPT !.a = SubSeq(c.a, 1, Len(c.a) - 4 + c.a[1])] ELSE c
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in {Fits(c) : c \in Cmds} : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
ASSUME Low
=======================================================================================
