------------------------------ MODULE WindowMC ------------------------------
EXTENDS Window, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Cmds == IF Len(hist) = 0 THEN {C(k, <<n>>) : k \in {"avg", "med"}, n \in {0, 1, 2, 3, 4, 5, 7}}
        ELSE IF st.k = "none" THEN {}
        ELSE {C("feed", <<x>>) : x \in {-1, 0, 2} \cup (IF st.k = "avg" /\ st.n < 4 THEN {HUGE, NAN} ELSE {})} \cup {C("reset", <<>>)}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
(* histories with the same last 7 samples behave alike: that is the property *)
View == <<st, out, Len(hist)>>
Emit == PrintT(ToJson(hist'))
=============================================================================
