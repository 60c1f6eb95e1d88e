---------------------------------- MODULE BodyMC ----------------------------------
EXTENDS Body, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Rs == {<<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<1, 1, 0, 0>>, <<1, 0, 0, -1>>, <<1, 1, 1, 1>>, <<0, 1, 0, -1>>}
Ts == {<<1, 0, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0, -2>>, <<0, 0, 0, 1, 2, 3>>, <<1, -2, 3, -1, 0, 2>>, <<3, 1, 0, 0, 2, -1>>, <<0, 0, -1, 2, 0, 0>>}
Is == {<<3, 0, 0, 0, 4, 0, 0, 0, 5>>, <<4, 1, -1, 1, 5, 0, -1, 0, 6>>, <<1, 9, 0, 9, 1, 0, 0, 0, 1>>, <<1, 1, 0, 1, 1, 0, 0, 0, 1>>}
Bad == {<<3, 1, 0, 0, 4, 0, 0, 0, 5>>, <<3, 0, 0, 0, 0, 0, 0, 0, 5>>, <<3, 0, 0, 0, 4, 0, 0, 0, -5>>, <<3, 0, NAN, 0, 4, 0, 0, 0, 5>>, <<3, 0, 0, 0, 4, 1, 0, -1, 5>>}
Loose == {C("cross", x \o y) : x \in Ts, y \in Ts} \cup {C("linear", x \o y \o <<k>>) : x \in Ts, y \in Ts, k \in {-2, 0}}
  \cup {C("frame", q \o t \o x \o y) : q \in Rs, t \in {<<0, 0, 0>>, <<1, -2, 3>>}, x \in Ts, y \in Ts}
  \cup {C("pack", t \o q \o x) : q \in Rs \cup {<<0, 0, 0, 0>>, <<0, 0, 3, 0>>, <<2, 2, -2, -2>>}, t \in {<<1, -2, 3>>}, x \in Ts}
  \cup {C("turn", q \o <<k, n, s, d>>) : q \in Rs, k \in 1..3, n \in {-1, 0, 2, NAN}, s \in {0, 1, 3}, d \in {1, 2, 0, -1, NAN}}
  \cup {C("turn2", q \o <<k, n, d>>) : q \in Rs, k \in 1..3, n \in -1..1, d \in -1..1}
  \cup {C("make", <<m>> \o c \o i) : m \in {2, 0, -1, NAN}, c \in {<<0, 0, 0>>, <<1, 0, -1>>, <<0, INF, 0>>}, i \in Is \cup Bad}
  \cup {C("diag", <<m>> \o c \o d) : m \in {2, 0, INF}, c \in {<<0, 0, 0>>, <<1, 2, 0>>}, d \in {<<1, 2, 3>>, <<2, 2, 2>>, <<1, 0, 3>>, <<1, 2, -3>>, <<1, NAN, 1>>}}
MCInit == Init /\ hist = <<>>
Cmds == CASE Len(hist) = 0 -> Loose
  [] Len(hist) = 1 /\ st.i # <<>> -> {C("show", <<>>)} \cup IF Det3(Central(st.i)) = 0 THEN {C("body", <<1, 0, -2>>)} ELSE {C("move", q \o <<1, -2, 0>>) : q \in Rs} \cup {C("unmove", <<1, 1, 0, 0, 0, 2, 1>>)} \cup {C("join", <<m>> \o c \o i) : m \in {3, 0}, c \in {<<0, 0, 0>>, <<-2, 1, 1>>}, i \in {x \in Is : Det3(x) # 0}}
       \cup {C("body", g) : g \in {<<0, 0, -2>>, <<0, NAN, 0>>}}
  [] Len(hist) = 2 /\ out.op # "show" /\ st.b.g = <<>> -> {C("show", <<>>), C("matrix", <<>>), C("about", <<1, 2, -1>>), C("body", <<1, 0, -2>>)} \cup {C("motion", x) : x \in Ts}
  [] Len(hist) \in {2, 3} /\ out.op = "body" /\ out.r = "ok" -> {C("accel", q \o <<1, -1, 2>> \o x) : q \in Rs, x \in Ts} \cup {C("spin", q \o <<1, o, -1, 0, 2, 1>>) : q \in Rs, o \in {0, 2}}
       \cup {C("deriv", <<1, 2, 3>> \o q \o <<1, 0, -1, 2, 1, -1>> \o <<3, 0, 1, 0, -2, 1>>) : q \in Rs \cup {<<0, 0, 0, 0>>, <<2, 2, 0, 0>>}}
       \cup (IF st.b.i[2] = Z3 /\ st.b.i[3][2] = 0 /\ st.b.i[3][3] = 0 /\ st.b.i[3][6] = 0 THEN {C("step", <<1, 2, 3>> \o q \o <<0, 1, -1>> \o <<k, n>> \o <<2, -1, 0>>) : q \in Rs, k \in 1..3, n \in {-1, 0, 2}} ELSE {})
  [] OTHER -> {}
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Last == \/ out'.op \notin {"make", "diag", "move", "unmove", "join", "body"} \/ out'.r # "ok"
Emit == Last => PrintT(ToJson(hist'))
===================================================================================
