--------------------------------- MODULE GapMC ---------------------------------
(* Inputs for the code chosen exhaustively in small configurations; what the    *)
(* code answers is judged by GapTrace (commands are a relation: ties are free). *)
EXTENDS Gap, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Bad == {NAN, INF, NINF, -1, 0}
Base == <<5, 16, 24, 4, 12, 8>>
At(j, x) == [Base EXCEPT ![j] = x]
News == {C("follow", At(j, x)) : j \in 2..6, x \in Bad} \cup {C("follow", At(1, x)) : x \in {0, 1, 2}}
   \cup {C("follow", At(2, x)) : x \in {100, 104}} \cup {C("follow", At(5, x)) : x \in {24, 25}} \cup {C("follow", At(4, x)) : x \in {15, 48, 49}}
   \cup {C("follow", <<5, f, 24, c, 12, 8>>) : f \in {4, 16, 64, 96}, c \in {2, 8}}
   \cup {C("scan", <<n, f, m>>) : n \in {0, 1, 2, 3, 5}, f \in {16, 100, 104, 0, -4, NAN, INF}, m \in {24, 0, -3, NAN, INF}}
Alphabet == {NAN, 4, 12, 24}
Scans == [1..5 -> Alphabet]
Cmds ==
  IF Len(hist) = 0 THEN News
  ELSE CASE st.k = "none" -> {}
    [] st.k = "scan" /\ out.op \notin {"scan", "minrange"} -> {}
    [] st.k = "scan" -> {C("minrange", <<x>>) : x \in {-1, 0, 3, 23, 24, NAN, INF}} \cup {C("valid", <<x>>) : x \in {-1, 0, 2, 3, 24, 25, NAN, INF, NINF}}
          \cup {C("near", <<x>>) : x \in {NAN, INF, -st.fov * 8192 - 4096, st.fov * 8192 + 4096} \cup {k * 8192 : k \in -st.fov..st.fov}}
          \cup {C("beam", <<i>>) : i \in 0..st.n + 1}
    [] st.k = "gap" ->
       IF Len(hist) = 1 /\ st.fov = 16 /\ st.n = 5 /\ st.ch = 8
       THEN {C("gain", <<x>>) : x \in Bad \cup {4}} \cup {C("bias", <<x>>) : x \in Bad \cup {5}} \cup {C("frontal", <<x>>) : x \in Bad \cup {1024, 131072, 131073}}
            \cup {C("scaling", x) : x \in {<<0, 4>>, <<4, 4>>, <<3, 20>>, <<-1, 4>>, <<NAN, 4>>, <<0, INF>>, <<NINF, 4>>}}
       ELSE IF out.op \in {"compute", "beam"} \/ st.n # 5 \/ (Len(hist) = 1 /\ st.ch \notin {2, 8}) THEN {C("beam", <<i>>) : i \in IF out.op = "follow" THEN 0..st.n ELSE {}}
       ELSE {C("compute", <<g>> \o z) : g \in {0, 100000}, z \in IF Len(hist) = 1 THEN Scans ELSE {q \in Scans : q[1] = q[5] /\ q[2] = q[4]}}
            \cup {C("compute", <<g>> \o Rep(st.n, 24)) : g \in {NAN, INF, NINF}}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, Len(hist)>>
Emit == PrintT(ToJson(hist'))
================================================================================
