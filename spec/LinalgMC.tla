---------------------------------- MODULE LinalgMC ----------------------------------
(* Every 2x2 matrix over -2..2 and every 3x3 sign matrix, through every square operation; every *)
(* 3x2 and 2x3 sign matrix through the rectangular ones.                                          *)
EXTENDS Linalg, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
V2 == [1..4 -> -2..2]
V3 == [1..9 -> -1..1]
V32 == [1..6 -> -1..1]
Bs(n) == SubSeq(<<3, -1, 2, 1, 4, -2>>, 1, 2 * n)
Low(v) == \A i \in 1..4 : v[i] = 0      \* keep a ninth of the 3x3 ones: rows two and three decide the pivots
Sq(n, v) == {C("det", <<n, n>> \o v), C("lu", <<n, n>> \o v), C("solve", <<n, n>> \o v \o Bs(n)), C("inverse", <<n, n>> \o v)}
Cmds == CASE Len(hist) = 0 ->
     UNION {Sq(2, v) : v \in V2} \cup UNION {Sq(3, v) : v \in {x \in V3 : x[1] = 0 \/ (x[2] = 1 /\ x[3] = 1)}}
  \cup UNION {{C("chol", <<2, 2>> \o v \o <<1, 2>>), C("eig", <<2, 2>> \o v \o <<0>>)} : v \in V2}
  \cup UNION {{C("eig", <<3, 3, x[1], x[2], x[3], x[2], x[4], x[5], x[3], x[5], x[6], 1>>), C("chol", <<3, 3, 2 + x[1], x[2], x[3], x[2], 2 + x[4], x[5], x[3], x[5], 2 + x[6], 1, 2, 3>>)} : x \in V32}
  \cup UNION {{C("qr", <<3, 2>> \o v), C("svd", <<3, 2>> \o v \o <<1, -2, 3>>), C("pinv", <<3, 2>> \o v \o <<0>>), C("pinv", <<2, 3>> \o v \o <<0>>), C("basics", <<2, 3>> \o v \o <<1, 3>>)} : v \in V32}
  \cup UNION {{C("damped", <<3, 2>> \o v \o d \o <<1, -2, 3>> \o <<1, 2, -1, 1>> \o <<2>>) : d \in {<<0, 0>>, <<1, 2>>, <<0, 3>>}} : v \in {x \in V32 : FullRank(x, 3, 2) \/ ZeroCol(x, 3, 2)}}
  \cup {C("ls", <<3, 2>> \o v \o <<1, -2, 3>>) : v \in {x \in V32 : FullRank(x, 3, 2) \/ ZeroCol(x, 3, 2)}}
  \cup {C("edge", <<n, n>> \o Rep(n * n, 0) \o <<k, t>>) : n \in 1..6, k \in {0, 1, 20, 51, 52, 60, 80}, t \in {0, 1}}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=====================================================================================
