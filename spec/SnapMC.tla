------------------------------------- MODULE SnapMC ------------------------------------
(* Paths of one to four segments, each boundary condition alone and together, in every    *)
(* room, and every list that does not fit.                                                 *)
EXTENDS Snap, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
W == <<0, 0, 3, -4, 3, 1, -9, 1, 8, 8, 2, 5>>
W2 == <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>
Bs == {[k \in 1..6 |-> IF k = i THEN 3 ELSE 0] : i \in 1..6} \cup {<<1, -2, 3, 1, -1, 2>>, <<0, NAN, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, INF>>}
Plan(room, n, d, ww) == C("plan", <<room, n, Len(d)>> \o SubSeq(ww, 1, 2 * n) \o d)
Ds == {<<>>, <<4>>, <<2>>, <<4, 4>>, <<3, 9>>, <<4, 2, 7>>, <<4, 4, 4, 4>>, <<12, 3, 5, 2>>, <<4, 0>>, <<-4>>, <<4, NAN, 4>>, <<INF>>, <<4, 4, 4, 4, 4>>}
Plans == {Plan(room, n, d, ww) : room \in {0, 3, 6, 9, 12}, n \in 0..6, d \in Ds, ww \in {W}} \cup {Plan(9, n, d, W2) : n \in 2..5, d \in Ds}
  \cup {Plan(9, 3, <<4, 4>>, <<0, NAN, 1, 1, 2, 2>>), Plan(9, 2, <<4>>, <<0, 0, INF, 1>>)}
Fit == {c \in Plans : c.a[1] >= 9 /\ c.a[3] = c.a[2] - 1}
Times == {C("times", <<sp, nd>> \o ww) : sp \in {0, -2, 1, 8, NAN, INF}, nd \in 0..3, ww \in {<<>>, <<1, 1>>, <<0, 0, 3, 4>>, <<0, 0, 3, 4, 3, 4>>, <<0, 0, 0, 9, -5, 1, 2, 2>>, <<0, 0, NAN, 1>>}}
Cmds == CASE Len(hist) = 0 -> Plans \cup Times \cup {C(op, b) : op \in {"start", "end"}, b \in Bs}
  [] Len(hist) = 1 -> IF hist[1].op \in {"start", "end"} THEN Fit \cup {C("end", <<2, 1, -1, 0, 3, 1>>)} ELSE {}
  [] Len(hist) = 2 -> IF hist[2].op = "end" THEN Fit ELSE {}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
