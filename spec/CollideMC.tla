-------------------------------- MODULE CollideMC --------------------------------
EXTENDS Collide, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
I4 == <<1, 0, 0, 0>>
Ball(r, p) == <<0, r, 0>> \o I4 \o p
Cap(r, h, q, p) == <<1, r, h>> \o q \o p
(* axes: z, x, y, and three skew ones                                                  *)
Q == {<<I4, 2>>, <<<<1, 0, 1, 0>>, 2>>, <<<<1, 1, 0, 0>>, 3>>, <<<<1, 1, 1, 0>>, 3>>, <<<<2, 1, 0, 0>>, 5>>, <<<<1, -1, 0, 1>>, 3>>, <<<<0, 1, 0, 0>>, 0>>}
Here == {Cap(1, q[2], q[1], Z3) : q \in Q} \cup {Ball(2, Z3)}
There == {Cap(r, q[2], q[1], p) : r \in {0, 2}, q \in Q, p \in {<<0, 0, 1>>, <<0, 0, 4>>, <<1, 2, 0>>, <<-3, 1, 2>>, <<0, 0, 0>>, <<5, -5, 1>>}} \cup {Ball(1, p) : p \in {<<0, 0, 4>>, <<1, 1, 1>>, <<3, -2, -5>>}}
Moves == {<<1, 0, 0, 1, 2, -1, 3>>, <<1, 1, 1, 1, 0, 4, 0>>}
PairCmds == {C("pair", <<sc>> \o x \o y \o m) : sc \in 0..3, x \in Here, y \in There, m \in Moves}
News == {C("new", <<s, e, x, sc>>) : s \in {0, 2}, e \in {0, 1}, x \in {0, 1}, sc \in {0}} \cup {C("new", <<4, 3, 2, 1>>)}
Edits == {C("self", <<f>> \o x) : f \in {0, 1, 2, 3}, x \in {Ball(1, <<1, 0, 0>>), Cap(0, 3, <<1, 1, 1, 0>>, <<0, 2, 0>>)}}
   \cup {C("env", x) : x \in {Ball(1, <<4, 0, 0>>), Cap(1, 2, I4, <<-2, 2, 0>>)}}
   \cup {C("excl", <<i, j>>) : i \in {0, 1}, j \in {0, 1, 2}}
Looks == {C("check", <<t, d, 1500>>) : t \in {0, 1}, d \in {0, 2}} \cup {C("counts", <<>>)}
MCInit == Init /\ hist = <<>>
Edit == {"new", "self", "env", "excl"}
Cmds == IF Len(hist) = 0 THEN News \cup PairCmds ELSE IF out.op \notin Edit THEN {}
        ELSE (IF Len(hist) < Depth - 1 THEN Edits ELSE {}) \cup (IF Len(hist) >= 3 THEN Looks ELSE {})
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, IF out.op \in Edit THEN "e" ELSE out, Len(hist)>>
Emit == (out'.op \notin Edit \/ out'.r # "ok") => PrintT(ToJson(hist'))
==================================================================================
