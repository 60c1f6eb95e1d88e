------------------------------------- MODULE KfMC --------------------------------------
(* Every filter, every order of predicts, updates, failures and changes of model.          *)
EXTENDS Kf, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
New == {C("new", <<k, 2, 1, 8, -16, 16, 4, 4, 8>> \o q \o <<8>>) : k \in 0..2, q \in {<<0, 0, 0, 0>>, <<2, 1, 1, 4>>}}
   \cup {C("new", <<k, 1, 2, 8, 16, 2, 8, 2, 2, 12>>) : k \in 0..2} \cup {C("new", <<k, 2, 2, 0, 8, 8, 0, 0, 8, 1, 0, 0, 1, 8, 0, 0, 8>>) : k \in 0..2}
Model(c) == LET n == c.a[2] m == c.a[3] IN
  CASE n = 2 /\ m = 1 -> {C("set", <<1, 8, 8, 0, 8>>), C("set", <<1, 4, 0, -2, 8>>), C("set", <<2, 4, -8>>), C("set", <<1, NAN, 0, 0, 8>>), C("set", <<4, -80>>), C("set", <<4, 2>>), C("set", <<3, 4, 0, 0, 2>>), C("set", <<0, 3, 3>>), C("direct", <<1>>), C("direct", <<2>>), C("control", <<8, 4, 6>>), C("residual", <<4>>), C("update", <<20>>), C("update", <<NAN>>)}
    [] n = 1 -> {C("set", <<1, 12>>), C("set", <<2, 8, -4>>), C("set", <<4, NAN, 0, 0, 8>>), C("control", <<8, -4, 3, 2>>), C("update", <<20, 0>>), C("update", <<8, INF>>), C("residual", <<4, 1>>), C("direct", <<0, 0>>)}
    [] OTHER -> {C("set", <<1, 8, 1, 0, 8>>), C("set", <<2, 4, -8, 0, 2>>), C("set", <<4, 4, 2, 2, 9>>), C("update", <<-9, 12>>), C("update", <<NINF, 8>>), C("residual", <<4, 1>>)}
Both(c) == {C("predict", <<>>), C("form", <<1>>), C("nis", <<>>), C("scaling", <<4, 16, 0>>), C("ridge", <<2>>)}
Own(S) == {x \in S : (x.op \in {"residual", "scaling", "ridge"} => hist[1].a[1] >= (IF x.op = "residual" THEN 1 ELSE 2)) /\ (x.op = "form" => hist[1].a[1] < 2)}
Cmds == CASE Len(hist) = 0 -> New \cup {C("turn", <<x, 0, h, v, o, 10>>) : x \in {0, 20}, h \in {0, 15, -30}, v \in {10, -20}, o \in {0, 2, -10, 20}} \cup {C("folded", <<3, x, y, z, 0>>) : x \in {30, -30}, y \in {-30, 30, 0}, z \in {-40, 62}} \cup {C("scaling", <<x, 16, z>>) : x \in {0, 8, NAN}, z \in {0, -8, INF}}
  [] hist[1].op # "new" -> {}
  [] Len(hist) = 1 -> Own(Model(hist[1]) \cup Both(hist[1]))
  [] Len(hist) = 2 -> Own({c \in Model(hist[1]) : c.op \in {"update", "control", "residual"} \/ (c.op = "set" /\ c.a[1] = 4)} \cup {C("predict", <<>>)})
  [] OTHER -> Own({c \in Model(hist[1]) : c.op \in {"update", "residual"}}) \cup {C("predict", <<>>), C("nis", <<>>), C("estimate", <<>>), C("look", <<>>)}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
(* a measurement never takes a variance up, and on these models the covariance stays positive *)
Shrinks == \A k \in 2..Len(hist) : (hist[k].op = "update" /\ hist[k].r = "ok" /\ ~st.lost /\ hist[k - 1].op = "predict" /\ hist[k - 1].r = "ok" /\ Len(hist[k].v) = Total(st) /\ Len(hist[k - 1].v) = st.n + st.n * st.n)
  => LET p == Rows(SubSeq(hist[k].v, st.n + 1, st.n + st.n * st.n), st.n) q == Rows(SubSeq(hist[k - 1].v, st.n + 1, st.n + st.n * st.n), st.n) IN \A i \in 1..st.n : p[i][i] <= q[i][i] + 20
=======================================================================================
