------------------------------------- MODULE CloudMC -------------------------------------
(* A handful of particles, every short order of steps, weighings and picks, each scheme.     *)
EXTENDS Cloud, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
News == {C("new", <<3, 8, 0, 8, 0, 8, 8, 8, 16, 6, 4, 0, 0, 4, -4, -8>>), C("new", <<2, 0, 0, 16, -8, 8, 8, 0, 8, 4, 4, 0, -4, 4>>)}
Tunes == {C("scheme", <<k>>) : k \in 0..3} \cup {C("threshold", <<k>>) : k \in {0, 30}} \cup {C("roughen", <<1>>)}
Draws(n) == {<<n>> \o [i \in 1..n |-> 1 + ((i * k) % 4096)] : k \in {2, 1500, 3094}}
Scores(n) == {C("score", <<n>> \o sc \o u \o <<6, 4, -4, 0, 8, -2, 1>>) : sc \in [1..n -> {0, -2, NINF}], u \in Draws(n)}
     \cup {C("score", <<n>> \o sc \o <<0, 0>>) : sc \in [1..n -> {0, NAN}]}
Steps(n) == {C("predict", <<1, 1, 0, 1, 8, 0, 6, 4, 0, 0, 0, -4, 4>>), C("predict", <<0, 1, -1, 0, 0, 3, 0>>), C("predict", <<1, 0, 0, 1, NAN, 0, 0>>), C("facts", <<>>), C("process", <<16, 8, 8>>), C("process", <<0, 0, 8>>)}
     \cup {C("resample", u \o <<0>>) : u \in Draws(n)} \cup {C("sense", <<x>> \o u \o <<0>>) : x \in {0, 16, INF}, u \in Draws(n)}
Cmds == CASE Len(hist) = 0 -> News [] Len(hist) = 1 -> Tunes [] Len(hist) = 2 -> Scores(st.n) [] OTHER -> Steps(st.n) \cup {C("score", <<st.n>> \o [i \in 1..st.n |-> -i] \o u \o <<0>>) : u \in Draws(st.n)}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
==========================================================================================
