------------------------------------- MODULE FitMC --------------------------------------
(* Every small linear problem under every solver, and every walk over two pieces.          *)
EXTENDS Fit, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Sets == {C("set", <<h, p, s, d, 0, g>>) : h \in {0, 1, 2}, p \in {0, 1, 4, 20, 100}, s \in {6, 0}, d \in {0, 1}, g \in {0}}
Own(S) == {c \in S : c.a[1] = 2 \/ (c.a[3] = 6 /\ c.a[4] = 1)}
Vec == {<<1, 0>>, <<0, 2>>, <<1, 1>>, <<-2, 1>>, <<0, 0>>}
Linear == {C("linear", <<2, 2>> \o p \o q \o b \o x) : p \in Vec, q \in Vec, b \in {<<0, 0>>, <<1, -3>>, <<4, 2>>}, x \in {<<0, 0>>, <<2, -1>>, <<4, 2>>}}
     \cup {C("linear", <<2, 3>> \o p \o q \o r \o b \o <<1, -2>>) : p \in Vec, q \in Vec, r \in {<<1, 1>>, <<0, 3>>}, b \in {<<1, 2, 3>>, <<0, -4, 1>>}}
     \cup {C("linear", <<2, 1>> \o p \o <<1, 0, 0>>) : p \in Vec}
     \cup {C("linear", <<1, 2, x, y, 3, b, s>>) : x \in -1..1, y \in {0, 2}, b \in {-1, 0, NAN, INF}, s \in {0, 5}}
Centres == {<<0, 0>>, <<512, -256>>, <<-768, 256>>}
Ms == {<<1, 0, 0, 1>>, <<2, 1, 1, 1>>, <<0, 1, -4, 2>>, <<1, 1, 1, 1>>}
Walks == {C("walk", <<x[1], x[2], 128>> \o m \o c \o <<INF>> \o n \o d) : x \in {<<256, 512>>, <<-512, 0>>}, m \in Ms, n \in Ms, c \in Centres, d \in Centres \cup {<<NAN, 0>>}}
Wild == {C("wild", <<k, p, x, y>>) : k \in 0..6, p \in {1, 3}, x \in {-3, 0, 2}, y \in {-1, 0, 4}}
Cmds == CASE Len(hist) = 0 -> Own(Sets)
  [] Len(hist) = 1 -> (IF hist[1].a[2] # 20 THEN Linear \cup Wild ELSE {}) \cup (IF (hist[1].a[1] = 2) = (hist[1].a[2] = 100) THEN Walks ELSE {})
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
(* a walk that comes to rest does so at a zero                                             *)
AtRest == (out.op = "walk" /\ out.r = "ok" /\ st.how # LM /\ Len(out.v) = 10) => LET f == Sys(SubSeq(out.a, 3, Len(out.a))) IN Both(f, SubSeq(out.v, 8, 9)) = <<0, 0>> \/ Walk(st, f, SubSeq(out.a, 1, 2), Both(f, SubSeq(out.a, 1, 2)), 0) = Lost
=======================================================================================
