------------------------------------ MODULE PiecesMC -----------------------------------
(* Curves of one to four pieces that jump at their joins, asked at, beside and between    *)
(* every join and past both ends, before and after differentiating.                        *)
EXTENDS Pieces, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Co == <<<<1, -2, 3, 4>>, <<0, 5, 0, -1>>, <<7, 0, 0, 0>>, <<-3, 1, 1, 0>>, <<2, 2, -6, 3>>, <<0, 0, 0, 9>>, <<5, -5, 1, 0>>, <<-1, 0, 8, -2>>>>
Spans == {<<1>>, <<4>>, <<3, 5>>, <<8, 2>>, <<4, 4, 1>>, <<2, 3, 8, 4>>, <<1, 1, 1, 1>>}
Coefs(n) == Flat(SubSeq(Co, 1, 2 * n))
Good == {C("build", <<Len(p), Len(p)>> \o p \o Coefs(Len(p))) : p \in Spans}
Bad == {C("build", <<np, Len(p)>> \o p \o Coefs(MinOf(np, 4)) \o Rep(IF np > 4 THEN 8 ELSE 0, 1)) : np \in 0..5, p \in {<<>>, <<4>>, <<4, 0>>, <<-4>>, <<4, NAN>>, <<INF, 2>>, <<4, 4, 4, 4, 4>>}}
T == Total(st)
Ask == {C("at", <<t>>) : t \in -1..(T + 1)} \cup {C("at", <<t>>) : t \in {INF, NINF}}
  \cup {C("area", <<x, y>>) : x \in {-2, 0, 1, 3, T}, y \in {-1, 2, 4, T, T + 5}} \cup {C("area", <<NINF, INF>>), C("area", <<INF, 1>>)}
  \cup {C("poly", <<i, k>>) : i \in 0..4, k \in 0..2}
Cmds == CASE Len(hist) = 0 -> Good \cup Bad
  [] Len(hist) = 1 -> Ask \cup {C("slope", <<n>>) : n \in 0..5}
  [] Len(hist) = 2 -> IF hist[2].op = "slope" THEN Ask \cup {C("slope", <<1>>)} ELSE {}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
