------------------------------- MODULE RotorsMC -------------------------------
EXTENDS Rotors, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Bad == {NAN, INF, NINF, -1, 0, 2}
Hex == <<2, 0, 1, 1, 1, -1, -1, 1, 1, -2, 0, -1, -1, -1, 1, 1, -1, -1>>
Oct8 == <<1, 2, 1, 2, 1, -1, 2, -1, 1, 1, -2, -1, -1, -2, 1, -2, -1, -1, -2, 1, 1, -1, 2, -1>>
News == {C("quadx", <<h, k, lo, hi>>) : h \in {1, 2}, k \in {1, 2}, lo \in {-1, 1}, hi \in {5, 9}}
        \cup {C("quadx", [i \in 1..4 |-> IF i = j THEN x ELSE <<1, 1, 1, 9>>[i]]) : j \in 1..4, x \in Bad}
        \cup {C("mixer", [i \in 1..16 |-> IF i = j THEN x ELSE (<<4, 1, 1, 9, 1, 1, 1, -1, 1, -1, -1, -1, 1, 1, -1, -1>>)[i]])
              : j \in (2..16) \ {7, 10, 13, 16}, x \in {NAN, INF, NINF}}
        \cup {C("mixer", <<8, k, lo, hi>> \o Oct8) : k \in {-1, 0, 2}, lo \in {-1, 1}, hi \in {-1, 1, 7}}
        \cup {C("lag", <<x, t>>) : x \in {NAN, INF, -1, 0, 1, 3}, t \in {NAN, INF, -1, 0, 1, 2}}
        \cup {C("tiny", <<b>>) : b \in {10, 14, 20, 26, 30, 40, 50}}
Cmds == IF Len(hist) = 0 THEN News
        ELSE CASE st.k = "none" -> {}
          [] st.k = "mix" -> IF Len(hist) > 1 THEN {} ELSE {C("mix", <<f, t, u, z>>) : f \in {0, 16, 32, 80}, t \in {-16, 0, 32}, u \in {0, 16}, z \in {-4, 0, 8}}
                             \cup {C("unmix", [i \in 1..Len(st.A) |-> IF i = j THEN 3 ELSE 1]) : j \in 1..Len(st.A)}
          [] st.k = "lag" -> {C("step", <<4, 0, -8>>), C("step", <<-2, 16, 4>>), C("over", <<3, 8, -1, 0>>), C("over", <<0, 8, -1, 0>>),
                              C("rate", <<1, 2, 3>>), C("reset", <<>>), C("thrusts", <<5, -3, 8>>)}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, Len(hist)>>
Emit == (out'.r # "wrong thrusts") => PrintT(ToJson(hist'))
=============================================================================
