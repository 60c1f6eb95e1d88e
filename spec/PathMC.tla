------------------------------------- MODULE PathMC -------------------------------------
(* Paths that turn back on themselves, cross themselves, repeat waypoints or go nowhere,  *)
(* with every query point of a small box and every distance over three laps.               *)
EXTENDS Path, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Shapes == {<<>>, <<<<1, 2, 0>>>>, <<<<0, 0, 0>>, <<3, 0, 0>>, <<3, 4, 0>>>>, <<<<0, 0, 0>>, <<4, 0, 0>>, <<0, 0, 0>>, <<0, 3, 0>>>>, <<<<1, 1, 1>>, <<1, 1, 1>>, <<2, 1, 1>>, <<2, 1, 1>>, <<2, 1, 3>>, <<2, 1, 3>>>>,
           <<<<2, 2, 2>>, <<2, 2, 2>>>>, <<<<-2, -2, 0>>, <<2, 2, 0>>, <<2, -2, 0>>, <<-2, 2, 0>>>>, <<<<0, 0, 0>>, <<1, 2, 2>>, <<0, 0, 4>>>>, <<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<5, 0, 0>>, <<5, 1, 0>>>>}
Make(p) == C("points", <<Len(p)>> \o Flat(p))
Pts == {-3, 0, 2, 4} \X {-3, 0, 1} \X {0, 2}
Cmds == CASE Len(hist) = 0 -> {Make(p) : p \in Shapes} \cup {C("points", <<2, 0, 0, 0, 1, NAN, 0>>), C("points", <<1, INF, 0, 0>>), C("units", <<30>>), C("units", <<-30>>)}
  [] Len(hist) = 1 -> {C("end", <<1>>), C("push", <<1, -2, 2>>), C("push", <<0, NAN, 0>>), C("info", <<>>)} \cup (IF hist[1].op = "units" THEN {Make(p) : p \in Shapes} ELSE {})
  [] Len(hist) = 2 -> IF hist[1].op = "units" THEN {C("near", <<1, -1, 2>>), C("ahead", <<1, 20>>), C("follow", <<1, -1, 2, 9>>)}
                      ELSE {C("near", q) : q \in Pts} \cup {C("follow", q \o <<t>>) : q \in Pts, t \in {-3, 0, 5, 37}} \cup {C("ahead", <<f, t>>) : f \in {-6, 0, 1, 7, 28}, t \in {-28, -1, 0, 1, 12, 27, 29, 70}} \cup {C("info", <<>>)}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
