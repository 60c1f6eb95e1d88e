------------------------------- MODULE RecurMC -------------------------------
EXTENDS Recur, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
P == <<1, 2, 1, -1, 1>>      \* 1 + a1 + a2 = 1
Q == <<2, 0, -1, 1, -1>>
Bad == {NAN, INF, NINF, -1, 0, 1, 4, 9}
News == {C("one", <<x>>) : x \in {NAN, INF, -1, 0, 1, 2, 4, 5}}
        \cup {C("bi", P), C("bi", Q), C("casc", <<>>), C("casc", P), C("casc", P \o Q), C("casc", Q \o P \o Q), C("multi", P), C("multi", Q)}
        \cup {C("chk", <<k, f, q, t>>) : k \in 0..3, f \in Bad, q \in {NAN, -1, 0, 2}, t \in {NAN, INF, -1, 0, 1, 4}}
        \cup {C("chkharm", <<n, f, q, t>>) : n \in 0..3, f \in {NAN, -1, 0, 1, 2, 3, 4, 9}, q \in {NAN, 0, 2}, t \in {NAN, -1, 1, 2, 4}}
        \cup {C("chkw", [i \in 1..6 |-> IF i = j THEN x ELSE 1]) : j \in 1..6, x \in {NAN, INF, NINF, -1, 0, 1}}
X == IF st.k = "multi" THEN {<<1, 0, -2>>, <<-4, 3, 0>>} ELSE {<<1>>, <<-4>>, <<0>>}
Cmds == IF Len(hist) = 0 THEN News
        ELSE IF st.k = "none" THEN {}
        ELSE {C("feed", x) : x \in X} \cup {C("reset", <<>>)}
             \cup (IF st.k = "one" THEN {} ELSE {C("settle", x) : x \in X}
                   \cup {C("set", <<i>> \o c) : i \in {0, 1, 2}, c \in {P, Q \o <<3>>}})
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, Len(hist)>>
Emit == PrintT(ToJson(hist'))
=============================================================================
