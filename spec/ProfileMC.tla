----------------------------------- MODULE ProfileMC -----------------------------------
(* Every set of limits on a small grid with every distance from nothing to where they all *)
(* bind, in every strategy, read at the start, middle and end of each phase.               *)
EXTENDS Profile, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
L == {1, 2, 5}
Plans == {C("plan", <<1, v, ac, j, h, d>>) : v \in L, ac \in L, j \in {1, 4, NONE}, h \in 0..2, d \in {-40, -1, 0, 1, 3, 9, 60}}
Bad == {C("plan", <<1>> \o q \o <<0, 4>>) : q \in {<<0, 1, 1>>, <<1, -1, 1>>, <<1, 1, 0>>, <<NAN, 1, NONE>>, <<1, INF, 2>>, <<1, 1, NAN>>}} \cup {C("plan", <<1, 1, 1, j, h, d>>) : j \in {2, NONE}, h \in 0..2, d \in {NAN, INF, NINF}}
Cmds == CASE Len(hist) = 0 -> Plans \cup Bad \cup {C("units", <<14, -5>>), C("units", <<-30, 5>>)}
  [] Len(hist) = 1 -> IF hist[1].op = "units" THEN {C("plan", <<1, 2, 1, 1, h, d>>) : h \in 0..1, d \in {-3, 2, 60}}
                      ELSE IF hist[1].a[1] = 1 /\ \A k \in 2..6 : Finite(hist[1].a[k]) THEN {C("phase", <<1, k, q>>) : k \in 1..8, q \in {0, 2}} \cup {C("time", <<1, t>>) : t \in {-1, 0, 1, 2, 5, 99, NAN}} \cup {C("stretch", <<1, t>>) : t \in {0, 5, 50, NAN}} ELSE {}
  [] Len(hist) = 2 -> IF hist[1].op = "units" \/ hist[2].op = "stretch" THEN {C("phase", <<1, k, q>>) : k \in {1, 2, 4, 7, 8}, q \in {0, 2}} ELSE {}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
