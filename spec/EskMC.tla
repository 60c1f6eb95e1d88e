------------------------------------- MODULE EskMC --------------------------------------
(* Orders of motion, corrections of either width, failures and repairs.                     *)
EXTENDS Esk, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Body(m, q) == <<m, 8, -8, 4, 6, -3, 2, 3, -6, 4, 1, 0, -1, 0, 1, 1, 8, 6, 4, 4, 5, 6, 2, 2, 3, 1, 1, 1, 1, 2, 1>> \o q \o <<1, 2, 1, 1>> \o (IF m = 3 THEN <<6, 8, 10>> ELSE <<8>>)
News == {C("new", Body(3, Zeros(15))), C("new", Body(1, <<1, 0, 0, 1, 0, 0, 1, -1, 0, 0, 0, 1, 1, 0, 0>>) \o <<0, 8, -60>>)}
Bad == {C("predict", <<1, NAN, 0, 0, 0, 78, 2>>), C("noise", <<1, 1, INF, 1>>)}
Moves == {C("predict", <<4, -3, 6, 8, 2, 78, 3>>), C("inject", <<1, 2, -1, 0, 3, -2, 6, -8, 5, 1, 0, 0, 0, 1, 1>>), C("condition", <<4>>), C("form", <<1>>)}
Seeing(c) == IF c.a[1] = 3 THEN {C("update", <<k, 9, -12, 6>>) : k \in {0, 2, 5}} \cup {C("other", <<7, 5, 8>>), C("update", <<9, 0, 0, 0>>), C("residual", <<4, 2, 1, NAN>>)}
             ELSE {C("update", <<k, -6>>) : k \in {6, 8}} \cup {C("other", <<2, 3, -2, 1, 8, 8, 8>>), C("other", <<1, 1, 1, 1, 8, -400, 8>>)}
Cmds == CASE Len(hist) = 0 -> News
  [] Len(hist) = 1 -> Moves \cup Bad
  [] Len(hist) = 2 -> Seeing(hist[1]) \cup {C("predict", <<0, 2, -5, 10, 0, 70, 4>>)}
  [] OTHER -> {C("inno", <<>>), C("look", <<>>), C("nis", <<>>)}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
(* motion never makes the filter surer of where it is heading, a measurement never less sure of anything *)
Surer == Len(hist) = 3 /\ hist[3].op = "update" /\ hist[3].r = "ok" /\ hist[2].op = "predict" /\ hist[2].r = "ok" /\ ~st.lost
  => \A i \in 1..N : hist[3].v[22 + At(i, i)] <= hist[2].v[22 + At(i, i)] + 400
=======================================================================================
