----------------------------------- MODULE DiscMC -----------------------------------
(* Every 2x2 sign matrix through every operation, with every input direction and cost.   *)
EXTENDS Disc, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
V2 == [1..4 -> -1..1]
W2 == [1..4 -> {-2, -1, 0, 1}]
B2 == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, -1>>}
Q2 == {<<1, 0, 0, 1>>, <<2, 1, 1, 1>>, <<0, 0, 0, 1>>, <<1, 1, 1, 1>>, <<1, 1, 0, 1>>}
U3 == <<1, 1, 0, 0, 1, -1, 0, 0, 1>>
UI == <<1, -1, -1, 0, 1, 1, 0, 0, 1>>
Cmds == CASE Len(hist) = 0 ->
     {C("expm", <<2, d>> \o v) : v \in V2, d \in {1, 3}}
  \cup {C("zoh", <<2, 1, 2, p, 4>> \o v \o b) : v \in V2, b \in B2, p \in {0, 3}}
  \cup {C("zoh", <<2, 1, 2, p, 4, 0, 1, 0, 0, 1, 1>>) : p \in {NAN, INF, NINF, -1}}
  \cup {C("loan", <<2, 2, p, 4>> \o v \o q) : v \in V2, q \in Q2, p \in {2, 5}}
  \cup {C("loan", <<2, 2, p, 4, 0, 1, 0, 0, 1, 0, 0, 1>>) : p \in {NAN, INF, -1}}
  \cup {C("white", <<n, p, v>>) : n \in 2..4, p \in {0, 1, 2, 3, 5}, v \in {0, 1, 3}}
  \cup {C("lyap", <<2, 2>> \o v \o q) : v \in W2, q \in Q2}
  \cup {C("lyap", <<1, 4, x, q>>) : x \in -6..6, q \in {-1, 0, 1, 2}}
  \cup {C("lqr", <<2, 1>> \o v \o b \o q \o <<r>> \o <<1, 2, 2, -1, 3>>) : v \in W2, b \in B2, q \in Q2, r \in {1, 3}}
  \cup {C("lqr", <<1, 1, x, b, q, r, 1, 2, 3>>) : x \in -3..3, b \in -1..2, q \in {0, 1, 3}, r \in {-1, 0, 1, 2}}
  \cup {C("modes", <<3, i, j, 1>> \o U3 \o UI) : i \in {-4, 0, 3}, j \in {-2, 1}}
  \cup {C("chain", <<3, c>> \o U3 \o UI) : c \in -6..6}
  \cup {C("turn", <<2, k, q>>) : k \in {-6, -1, 0, 2}, q \in {0, 5000, 15708, -31416, 60000, 200000}}
  \cup {C("wild", <<n, x>>) : n \in {2, 3}, x \in {NAN, INF, NINF, 1}}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=====================================================================================
