------------------------------------- MODULE LeanMC -------------------------------------
(* Both filters, orders of steps with every mix of usable, absent and unusable sensors.     *)
EXTENDS Lean, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
News == {C("new", <<k>> \o q) : k \in {0, 1}, q \in {<<0, 0, 0>>, <<4, -6, 9>>}}
Turns == {C("pull", <<0>>), C("pull", <<8>>), C("pull", <<NAN>>), C("learn", <<0>>), C("learn", <<4>>), C("learn", <<INF>>), C("world", <<1, 0, 1, 0, 1, 1>>), C("world", <<3, -1, 3, -3, 1, -3>>),
          C("world", <<0, 0, 0, 1, 0, 0>>), C("offset", <<1, -2, 1>>), C("offset", <<0, INF, 0>>)}
Steps == {C(op, g \o a \o <<t>>) : op \in {"step", "bare"}, g \in {<<0, 0, 0>>, <<3, -2, 6>>}, a \in {<<0, 0, 0>>, <<0, 0, 9>>, <<3, -4, 5>>, <<1, NAN, 0>>}, t \in {4}}
   \cup {C("step", <<0, 0, 0>> \o a \o <<t>> \o m) : a \in {<<0, 0, 0>>, <<0, 0, 9>>, <<-2, 1, 9>>}, m \in {<<0, 0, 0>>, <<5, 2, -9>>, <<0, 0, 3>>, <<INF, 0, 0>>}, t \in {2, 8}}
Cmds == CASE Len(hist) = 0 -> News [] Len(hist) = 1 -> Turns \cup {C("bare", <<0, 0, 0, 0, 0, 9, 2>>)} [] Len(hist) = 2 -> {c \in Steps : c.op = "step" /\ (Len(c.a) = 7 \/ (c.a[7] = 2 /\ c.a[6] # 0))}
  [] OTHER -> {c \in Steps : Len(c.a) = 7 \/ c.a[7] = 8}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
(* a still body with a usable push reading and a modest pull is never carried further from level *)
Agrees(R, a) == Dot3(XV(Tr(R), st.up), a)
Settles == LET k == Len(hist) IN (k >= 3 /\ hist[k].op \in {"step", "bare"} /\ hist[k].r = "ok" /\ Len(hist[k].a) = 7 /\ SubSeq(hist[k].a, 1, 3) = <<0, 0, 0>> /\ SubSeq(hist[k].a, 4, 6) # <<0, 0, 0>>
     /\ hist[k - 1].r = "ok" /\ hist[k - 1].op \in {"step", "bare"} /\ Size(st.bg) = 0 /\ st.k2 = 0 /\ st.k1 >= 1000)
  => Agrees(st.R, Normed(SubSeq(hist[k].a, 4, 6))) >= Agrees(Rows(SubSeq(hist[k - 1].v, 1, 9), 3), Normed(SubSeq(hist[k].a, 4, 6))) - 30
=========================================================================================
