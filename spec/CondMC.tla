------------------------------- MODULE CondMC -------------------------------
EXTENDS Cond, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
X == {NAN, INF, NINF, -4, -1, 0, 1, 4}
News == {C("dead", <<r, t>>) : r \in {0, 1}, t \in X} \cup {C("hyst", <<l, h>>) : l \in X, h \in X}
        \cup {C("slew", <<u, d, t>>) : u \in {NAN, INF, -1, 0, 2}, d \in {NAN, NINF, -1, 0, 1, 3}, t \in {NAN, INF, -1, 0, 1, 2}}
        \cup {C("slewsym", <<u, t>>) : u \in {NAN, 0, 3}, t \in {INF, 0, 2}}
Vals == CASE st.k = "dead" -> {NAN, INF, NINF} \cup (-5..5) [] st.k = "hyst" -> {NAN, INF, NINF} \cup (-5..5)
          [] st.k = "slew" -> {-9, -1, 0, 2, 7}
Cmds == IF Len(hist) = 0 THEN News ELSE IF st.k = "none" THEN {} ELSE
        IF st.k = "dead" /\ Len(hist) > 1 THEN {} ELSE {C("feed", <<x>>) : x \in Vals} \cup {C("reset", <<>>)}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, Len(hist)>>
Emit == PrintT(ToJson(hist'))
=============================================================================
