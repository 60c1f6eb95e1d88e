--------------------------------- MODULE GridMC ---------------------------------
EXTENDS Grid, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
News == {C("new", <<c, r, k, 3, -5>>) : c \in {1, 2, 3}, r \in {1, 2, 3}, k \in {1, 3}}
   \cup {C("new", <<c, r, 1, 0, 0>>) : c \in {0, 1, 2, HUGE}, r \in {0, 2}} \cup {C("new", <<2, HUGE, 1, 0, 0>>)}
   \cup {C("new", [i \in 1..5 |-> IF i = j THEN x ELSE <<2, 2, 1, 0, 0>>[i]]) : j \in 3..5, x \in {NAN, INF, NINF}}
   \cup {C("new", <<2, 2, x, 0, 0>>) : x \in {0, -1}} \cup {C("void", <<c, r>>) : c \in {0, 1}, r \in {0}} \cup {C("rim", <<x>>) : x \in {3, 20, 200, 800, 3500}}
Writes == {C("set", <<r, c, b>>) : r \in {0, 1, 2, HUGE}, c \in {0, 1, 2, HUGE}, b \in {0, 1}} \cup {C("clear", <<>>)}
Xs == {-1, 0, 4, 8, 15, 16, 24}
Looks == {C("get", <<r, c>>) : r \in {-1, 0, 1, 2, 3}, c \in {-1, 0, 1, 2, 3}}
   \cup {C("cellof", <<x, y>>) : x \in Xs \cup {NAN, INF, NINF}, y \in Xs \cup {NAN, INF}}
   \cup {C("point", <<x, y>>) : x \in Xs \cup {NAN, INF}, y \in Xs \cup {NAN, NINF}}
   \cup {C("ray", <<x, y, d[1], d[2], m>>) : x \in {-8, 3, 13}, y \in {3, 8, 21}, d \in {<<1, 0>>, <<3, 4>>, <<-1, 2>>, <<4, -3>>, <<-1, -1>>, <<0, 1>>, <<0, -1>>, <<-1, 0>>}, m \in {INF, 12}}
   \cup {C("poly", <<k, 3, 3, 21, 9, 5, 20>>) : k \in {0, 1}} \cup {C("poly", <<k>>) : k \in {0, 1}} \cup {C("poly", <<k, 12, 12>>) : k \in {0, 1}}
   \cup {C("circle", <<11, 13, d>>) : d \in {0, 3, 8, 10}}
MCInit == Init /\ hist = <<>>
Cmds == IF Len(hist) = 0 THEN News ELSE IF st.k = "none" THEN {}
        ELSE IF out.op \in {"new", "set", "clear"} THEN (IF Len(hist) < Depth - 1 THEN Writes ELSE {}) \cup (IF Len(hist) > 2 \/ out.op = "new" THEN Looks ELSE {}) ELSE {}
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, IF out.op \in {"set", "clear"} THEN "w" ELSE out, Len(hist)>>
Emit == (out'.op \notin {"set", "clear"} \/ Len(hist') = 2) => PrintT(ToJson(hist'))
=================================================================================
