---------------------------------- MODULE GroupMC ----------------------------------
EXTENDS Group, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Qs == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, 1, 0, 0>>, <<1, 0, -1, 0>>, <<0, 1, 1, 0>>, <<1, 1, 1, 1>>, <<-1, 1, -1, 1>>, <<1, 2, 2, 0>>, <<1, -1, 2, 1>>, <<0, 2, 0, 1>>, <<0, 0, 0, -1>>}
Ms == UNION {{<<MatQ(q)[2]>> \o MatQ(q)[1], <<MatQ(q)[2]>> \o VA9(MatQ(q)[1], <<1, 0, 0, 0, 0, 0, 0, 0, 0>>), <<MatQ(q)[2]>> \o [i \in 1..9 |-> -MatQ(q)[1][i]],
   <<MatQ(q)[2]>> \o [[MatQ(q)[1] EXCEPT ![1] = -@] EXCEPT ![4] = -@], <<MatQ(q)[2]>> \o [MatQ(q)[1] EXCEPT ![5] = NAN], <<2 * MatQ(q)[2]>> \o MatQ(q)[1]} : q \in Qs}
Loose == {C("mat", m) : m \in Ms} \cup {C("mat4", m \o <<1, -4, 7>> \o z) : m \in {<<1>> \o Id3, <<3>> \o MatQ(<<1, 1, 1, 1>>)[1], <<9>> \o MatQ(<<1, 2, 2, 0>>)[1]}, z \in {<<0, 0, 0, 1>>, <<0, 0, 0, 9>>, <<0, 0, 0, 3>>, <<1, 0, 0, 1>>, <<0, 0, NAN, 9>>}}
  \cup {C("exp", <<100, -50, 20>> \o f) : f \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 0, 157>>, <<0, 314, 0>>, <<100, 100, 100>>, <<-200, 30, 150>>, <<0, -3, 2>>}}
  \cup {C("euler", <<r, p, y>>) : r \in {0, 157, -300}, p \in {0, 157, -157, 40}, y \in {0, 314, -100}}
  \cup {C("axis", x \o <<h>>) : x \in {<<0, 0, 0>>, <<1, 0, 0>>, <<1, -1, 2>>, <<0, 2, 2>>}, h \in {0, 157, 314, -250, 700}}
  \cup {C("two", x \o <<k, e, f>>) : x \in {<<1, 0, 0>>, <<0, 0, 2>>, <<1, -2, 3>>, <<0, 0, 0>>, <<1, 1, 1>>}, k \in 0..5, e \in {0, 30, -30}, f \in {0, -20}}
  \cup {C("quat", p \o q \o <<3>>) : p \in {<<1, 2, 3, 4>>, <<0, 1, 0, 0>>, <<-2, 0, 5, 1>>}, q \in {<<0, 0, 0, 0>>, <<0, 0, 1, 0>>, <<7, -1, 2, 2>>}} \cup {C("qlog", <<w, x, 0, z>>) : w \in {0, 50, -100}, x \in {0, 10, 200}, z \in {0, -200}}
  \cup {C("jac", <<k, 100, -50, 20>> \o f) : k \in 0..9, f \in {<<0, 0, 0>>, <<0, 0, 157>>, <<100, 100, -100>>, <<150, 0, 250>>}}
  \cup {C("load", <<1, 0, 0, 0, 0, 1, 2, 3>>), C("load", <<1, NAN, 0, 0, 1, 1, 2, 3>>)}
MCInit == Init /\ hist = <<>>
Cmds == CASE Len(hist) = 0 -> Loose \cup {C("load", <<1>> \o q \o <<1, -2, 3>>) : q \in Qs}
  [] Len(hist) = 1 -> IF out.op = "load" /\ out.r = "ok" THEN {C("load", <<2>> \o q \o <<0, 5, -1>>) : q \in Qs} ELSE {}
  [] Len(hist) = 2 -> {C("mul", <<3, 1, 2>>), C("inv", <<3, 2>>), C("interp", <<1, 2, 50>>), C("interp", <<1, 2, 20>>), C("angle", <<1, 2>>)}
  [] Len(hist) = 3 -> IF out.op \in {"mul", "inv"} THEN {C("remake", <<3>>), C("act", <<3, 5, -7, 2>>), C("mul", <<1, 3, 1>>), C("pairs", <<3, 1, 2, 2, -1, 3, 0, 3, 4, -2>>), C("pairs", <<3, 1, 2, 2, -2, -4, -4, 3, 4, 0>>), C("adj", <<3, 1, -2, 3, 4, 5, -6>>), C("conj", <<3, 100, -200, 30, 40, -50, 60>>)} ELSE {}
  [] OTHER -> {}
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == (Len(hist') = 4 \/ (Len(hist') = 3 /\ out'.op \in {"interp", "angle"}) \/ (Len(hist') = 1 /\ (out'.op # "load" \/ out'.r # "ok"))) => PrintT(ToJson(hist'))
===================================================================================
